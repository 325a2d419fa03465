---------------------------------- MODULE JUri ----------------------------------
(* Judges the handling of URIs (driver "uri"). *)
EXTENDS Uri, TraceData
VARIABLES sc, pos, st, ok
StartU(r) == IF "ops" \in DOMAIN r THEN HrefParts("") ELSE 0
\* the library reports a path without its leading slash, as segments
PathOf(x) == IF x.p # "" /\ Ch(x.p, 1) = "/" THEN Cut(x.p) ELSE x.p
\* uriparser, which is not part of this repository, has its own views on opaque
\* bases, bases without an authority, and paths that have empty segments
CanBase(b) == Valid(b) /\ Parts(b).s[1] /\ Parts(b).a[1] /\ ~Contains(Parts(b).p, "//")
Plain(u) == CanBase(u) /\ ~Contains(Parts(u).p, "//")
Differ(e, base) ==
  LET v == Valid(e.u) x == Parts(e.u) pa == x.a[2] g == e.got hp == HrefParts(e.u) IN
  IF g.ok # v THEN <<"valid", v>>
  ELSE IF v /\ g.text # e.u THEN <<"text">>
  ELSE IF v /\ g.scheme # x.s THEN <<"scheme", x.s>>
  ELSE IF v /\ g.host # (IF x.a[1] THEN <<TRUE, Host(pa)>> ELSE None) THEN <<"host", Host(pa)>>
  ELSE IF v /\ g.port # Port(pa) THEN <<"port", Port(pa)>>
  ELSE IF v /\ g.path[2] # PathOf(x) THEN <<"path", PathOf(x)>>
  ELSE IF v /\ g.query # x.q THEN <<"query", x.q>>
  ELSE IF v /\ g.frag # x.f THEN <<"fragment", x.f>>
  ELSE IF g.split # (IF v THEN <<TRUE, x.s[2], Host(pa), Port(pa)[2], PathOf(x), x.q[2], x.f[2]>> ELSE <<FALSE, "", "", "", "", "", "">>) THEN <<"SplitUri">>
  ELSE IF g.sfrag # (IF v THEN x.f ELSE None) THEN <<"SplitUriFragment">>
  ELSE IF g.spath # (IF v /\ g.path[1] THEN <<TRUE, PathOf(x)>> ELSE None) THEN <<"SplitUriPath">>
  ELSE IF v /\ ~Contains(e.u, "%") /\ (IF x.s[1] THEN CanBase(e.u) ELSE ~x.a[1] /\ ~Contains(x.p, ":")) /\ g.norm # NormalRef(e.u) THEN <<"normal", NormalRef(e.u)>>
  ELSE IF v /\ CanBase(base) /\ Plain(ResolveRef(base, e.u)) /\ g.res # <<TRUE, ResolveRef(base, e.u)>> THEN <<"resolve", ResolveRef(base, e.u)>>
  ELSE IF (~v \/ ~Valid(base) \/ ~Parts(base).s[1]) /\ (g.res[1] \/ g.kuri # <<FALSE>>) THEN <<"resolved nothing">>
  ELSE IF v /\ ~x.q[1] /\ ~x.f[1] /\ g.kmz # (IF KmzParts(e.u)[1] THEN KmzParts(e.u) ELSE <<FALSE, "keep", "keep">>) THEN <<"kmz", KmzParts(e.u)>>
  ELSE IF g.fetch # (IF v THEN <<TRUE, Upto(e.u, {"#"})>> ELSE None) THEN <<"fetch", Upto(e.u, {"#"})>>
  ELSE IF g.res[1] /\ Plain(g.res[2]) /\ g.kuri # <<TRUE, e.u, g.res[2]>> \o KmzParts(g.res[2]) THEN <<"KmlUri", KmzParts(g.res[2])>>
  ELSE IF v /\ Valid(e.geo) /\ CanBase(base) /\ CanBase(ResolveRef(base, e.geo)) /\ Plain(ResolveRef(base, e.geo)) /\ Plain(ResolveRef(ResolveRef(base, e.geo), e.u))
          /\ g.model # <<TRUE, ResolveRef(ResolveRef(base, e.geo), e.u)>> THEN <<"model", ResolveRef(ResolveRef(base, e.geo), e.u)>>
  ELSE IF (~v \/ ~Valid(e.geo) \/ ~Valid(base) \/ ~Parts(base).s[1]) /\ g.model[1] THEN <<"model of nothing">>
  ELSE IF <<g.h.scheme, g.h.net, g.h.path, g.h.frag>> # <<hp.scheme, hp.net, hp.path, hp.frag>> THEN <<"href", hp>>
  ELSE IF <<g.h.rel, g.h.relpath, g.h.fragonly>> # <<hp.scheme = "", hp.scheme = "" /\ hp.path # "", hp.scheme = "" /\ hp.path = "" /\ hp.frag # "">> THEN <<"href kind", hp>>
  ELSE <<>>
DifferN(e) ==
  LET g == e.got u == NameUri(e.name) IN
  IF g.uri # <<TRUE, u>> THEN <<"uri", u>>
  ELSE IF g.back # <<TRUE, e.name>> THEN <<"back">>
  ELSE IF ~Contains(e.name, "//") /\ ~Contains(e.name, ":") /\ g.href # <<TRUE, RemoveDots(e.name)>> THEN <<"href", RemoveDots(e.name)>>
  ELSE <<>>
DifferW(e) ==
  LET g == e.got u == WinUri(e.name) IN
  IF g.uri # <<TRUE, u>> THEN <<"windows uri", u>> ELSE IF g.auto # <<TRUE, IF Contains(e.name, "\\") THEN u ELSE NameUri(e.name)>> THEN <<"uri of any name">> ELSE IF g.back # <<TRUE, e.name>> THEN <<"windows back">> ELSE <<>>
StepH(s, e) == LET t == HrefStep(s, e.op) IN [ s |-> t, bad |-> IF <<t.scheme, t.net, t.path, t.frag>> # e.parts THEN <<"href parts", t, e>> ELSE IF HrefKind(t) # e.kind THEN <<"href kinds", t, e>> ELSE <<>> ]
StepU(r, s, e) == IF "op" \in DOMAIN e THEN StepH(s, e) ELSE IF "win" \in DOMAIN e THEN [ s |-> 0, bad |-> LET d == DifferW(e) IN IF d = <<>> THEN <<>> ELSE d \o <<e.name, e.got>> ] ELSE IF "name" \in DOMAIN e THEN [ s |-> 0, bad |-> LET d == DifferN(e) IN IF d = <<>> THEN <<>> ELSE d \o <<e.name, e.got>> ] ELSE [ s |-> 0, bad |-> LET d == Differ(e, e.base) IN IF d = <<>> THEN <<>> ELSE d \o <<e.u, e.base, e.got>> ]
INSTANCE TraceJudge WITH Start <- StartU, Step <- StepU
=============================================================================
