---------------------------------- MODULE Uri ----------------------------------
(***************************************************************************)
(* RFC 3986: the parts of a URI reference, their recomposition, the removal *)
(* of dot segments and the resolution of a reference against a base; and    *)
(* the two notations built on it: a URL into a KMZ, and an href.            *)
(***************************************************************************)
EXTENDS Text
Digit == {"0","1","2","3","4","5","6","7","8","9"}
LoChars == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
UpChars == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Alpha == LoChars \cup UpChars
HexC == Digit \cup {"a","b","c","d","e","f","A","B","C","D","E","F"}
Unres == Alpha \cup Digit \cup {"-", ".", "_", "~"}
SubD == {"!", "$", "&", "'", "(", ")", "*", "+", ",", ";", "="}
PChar == Unres \cup SubD \cup {":", "@"}
\* every character is in C or starts a percent escape
RECURSIVE OfChars(_,_,_)
OfChars(s, i, C) == IF i > Len(s) THEN TRUE
  ELSE IF Ch(s, i) = "%" THEN i + 2 <= Len(s) /\ Ch(s, i + 1) \in HexC /\ Ch(s, i + 2) \in HexC /\ OfChars(s, i + 3, C)
  ELSE Ch(s, i) \in C /\ OfChars(s, i + 1, C)
Upto(s, C) == SubSeq(s, 1, SkipOut(s, 1, C) - 1)
After(s, C) == From(s, SkipOut(s, 1, C))
Cut(s) == From(s, 2)
\* the parts: each <<present, text>>
None == <<FALSE, "">>
Parts(u) ==
  LET f == IF Contains(u, "#") THEN <<TRUE, Cut(After(u, {"#"}))>> ELSE None
      u1 == Upto(u, {"#"})
      q == IF Contains(u1, "?") THEN <<TRUE, Cut(After(u1, {"?"}))>> ELSE None
      u2 == Upto(u1, {"?"})
      pre == Upto(u2, {":", "/"})
      hs == pre # u2 /\ Ch(After(u2, {":", "/"}), 1) = ":"
      s == IF hs THEN <<TRUE, pre>> ELSE None
      u3 == IF hs THEN From(u2, Len(pre) + 2) ELSE u2
      ha == IsPrefix("//", u3)
      u4 == IF ha THEN From(u3, 3) ELSE u3
      a == IF ha THEN <<TRUE, Upto(u4, {"/"})>> ELSE None
      p == IF ha THEN After(u4, {"/"}) ELSE u3
  IN [ s |-> s, a |-> a, p |-> p, q |-> q, f |-> f ]
\* [user@]host[:port]
HostPort(a) == IF Contains(a, "@") THEN Cut(After(a, {"@"})) ELSE a
Host(a) == Upto(HostPort(a), {":"})
Port(a) == LET h == HostPort(a) IN IF Contains(h, ":") THEN <<TRUE, Cut(After(h, {":"}))>> ELSE None
Valid(u) == LET x == Parts(u) IN
  /\ x.s[1] => x.s[2] # "" /\ Ch(x.s[2], 1) \in Alpha /\ \A i \in 1..Len(x.s[2]) : Ch(x.s[2], i) \in Alpha \cup Digit \cup {"+", "-", "."}
  /\ x.a[1] => /\ OfChars(Host(x.a[2]), 1, Unres \cup SubD)
               /\ \A i \in 1..Len(Port(x.a[2])[2]) : Ch(Port(x.a[2])[2], i) \in Digit
               /\ Contains(x.a[2], "@") => OfChars(Upto(x.a[2], {"@"}), 1, Unres \cup SubD \cup {":"})
  /\ OfChars(x.p, 1, PChar \cup {"/"}) /\ OfChars(x.q[2], 1, PChar \cup {"/", "?"}) /\ OfChars(x.f[2], 1, PChar \cup {"/", "?"})
Unparts(x) == (IF x.s[1] THEN x.s[2] \o ":" ELSE "") \o (IF x.a[1] THEN "//" \o x.a[2] ELSE "") \o x.p
              \o (IF x.q[1] THEN "?" \o x.q[2] ELSE "") \o (IF x.f[1] THEN "#" \o x.f[2] ELSE "")
\* ---- dot segments ----
RECURSIVE Segs(_)
Segs(p) == IF ~Contains(p, "/") THEN <<p>> ELSE <<Upto(p, {"/"})>> \o Segs(Cut(After(p, {"/"})))
RECURSIVE JoinS(_)
JoinS(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o "/" \o JoinS(Tail(q))
Front(q) == SubSeq(q, 1, Len(q) - 1)
\* segments of a rooted path (after its first slash); .. at the root stays there
RECURSIVE RootDots(_,_)
RootDots(q, out) ==
  IF q = <<>> THEN out
  ELSE LET h == Head(q) last == Len(q) = 1 up == IF out = <<>> THEN <<>> ELSE Front(out) IN
       IF h = "." THEN RootDots(Tail(q), IF last THEN Append(out, "") ELSE out)
       ELSE IF h = ".." THEN RootDots(Tail(q), IF last THEN Append(up, "") ELSE up)
       ELSE RootDots(Tail(q), Append(out, h))
\* segments of a relative path: a leading .. cannot be removed
RECURSIVE RelDots(_,_)
RelDots(q, out) ==
  IF q = <<>> THEN out
  ELSE LET h == Head(q) last == Len(q) = 1
           stuck == out = <<>> \/ out[Len(out)] = ".."
           up == IF stuck THEN Append(out, "..") ELSE Front(out) IN
       IF h = "." THEN RelDots(Tail(q), IF last /\ out # <<>> THEN Append(out, "") ELSE out)
       ELSE IF h = ".." THEN RelDots(Tail(q), IF last /\ ~stuck THEN Append(up, "") ELSE up)
       ELSE RelDots(Tail(q), Append(out, h))
RemoveDots(p) == IF p = "" THEN "" ELSE IF Ch(p, 1) = "/" THEN "/" \o JoinS(RootDots(Segs(Cut(p)), <<>>)) ELSE JoinS(RelDots(Segs(p), <<>>))
\* syntax-based normalization (of a reference without percent escapes)
NormalRef(u) == LET x == Parts(u) a == x.a[2] IN
  Unparts([x EXCEPT !.s = <<@[1], LowerS(@[2])>>, !.p = RemoveDots(@),
     !.a = <<@[1], (IF Contains(a, "@") THEN Upto(a, {"@"}) \o "@" ELSE "") \o LowerS(Host(a)) \o (IF Port(a)[1] THEN ":" \o Port(a)[2] ELSE "")>>])
\* ---- 5.2.2: resolution (the base has a scheme) ----
MergePath(b, p) == IF b.a[1] /\ b.p = "" THEN "/" \o p ELSE LET q == Front(Segs(b.p)) IN IF q = <<>> THEN p ELSE JoinS(Append(q, p))
ResolveRef(base, ref) ==
  LET b == Parts(base) r == Parts(ref) IN
  Unparts(IF r.s[1] THEN [r EXCEPT !.p = RemoveDots(@)]
          ELSE IF r.a[1] THEN [r EXCEPT !.s = b.s, !.p = RemoveDots(@)]
          ELSE [ s |-> b.s, a |-> b.a, f |-> r.f,
                 p |-> IF r.p = "" THEN b.p ELSE IF Ch(r.p, 1) = "/" THEN RemoveDots(r.p) ELSE RemoveDots(MergePath(b, r.p)),
                 q |-> IF r.p = "" /\ ~r.q[1] THEN b.q ELSE r.q ])
\* ---- a URL into a KMZ: <<is one, the KMZ, the path in it>> ----
RECURSIVE KmzIn(_,_)
KmzIn(q, i) == IF i > Len(q) THEN 0 ELSE IF Len(q[i]) >= 4 /\ SubSeq(q[i], Len(q[i]) - 3, Len(q[i])) = ".kmz" THEN i ELSE KmzIn(q, i + 1)
KmzParts(u) ==
  LET x == Parts(u) q == Segs(x.p) i == KmzIn(q, 1)
  IN IF i = 0 THEN <<FALSE, "", "">>
     ELSE <<TRUE, Unparts([x EXCEPT !.p = JoinS(SubSeq(q, 1, i)), !.q = None, !.f = None]), JoinS(SubSeq(q, i + 1, Len(q)))>>
\* ---- a file name as a URI ----
Escapes == << <<" ", "%20">>, <<"!", "%21">>, <<"#", "%23">>, <<"$", "%24">>, <<"%", "%25">>, <<"&", "%26">>, <<"'", "%27">>, <<"(", "%28">>, <<")", "%29">>,
  <<"*", "%2A">>, <<"+", "%2B">>, <<",", "%2C">>, <<":", "%3A">>, <<";", "%3B">>, <<"<", "%3C">>, <<"=", "%3D">>, <<">", "%3E">>, <<"?", "%3F">>, <<"@", "%40">>,
  <<"[", "%5B">>, <<"]", "%5D">>, <<"^", "%5E">>, <<"`", "%60">>, <<"{", "%7B">>, <<"|", "%7C">>, <<"}", "%7D">> >>
EscapeC(c) == LET k == { i \in DOMAIN Escapes : Escapes[i][1] = c } IN IF k = {} THEN c ELSE Escapes[CHOOSE i \in k : TRUE][2]
RECURSIVE EscapeName(_,_)
EscapeName(n, i) == IF i > Len(n) THEN "" ELSE EscapeC(Ch(n, i)) \o EscapeName(n, i + 1)
NameUri(n) == (IF n # "" /\ Ch(n, 1) = "/" THEN "file://" ELSE "") \o EscapeName(n, 1)
\* a Windows name: a drive, a share or a relative name with backslashes
RECURSIVE Slashed(_,_)
Slashed(n, i) == IF i > Len(n) THEN "" ELSE (IF Ch(n, i) = "\\" THEN "/" ELSE EscapeC(Ch(n, i))) \o Slashed(n, i + 1)
WinUri(n) == IF Len(n) > 1 /\ Ch(n, 2) = ":" THEN "file:///" \o SubSeq(n, 1, 2) \o Slashed(n, 3)
             ELSE (IF IsPrefix("\\\\", n) THEN "file:" ELSE "") \o Slashed(n, 1)
(***************************************************************************)
(* An href: [scheme://net_loc/]path[#fragment], the path with its query.    *)
(***************************************************************************)
HrefParts(h) ==
  LET f == IF Contains(h, "#") THEN Cut(After(h, {"#"})) ELSE ""
      r == Upto(h, {"#"})
      s == Upto(r, {":", "/", "?"})
      hs == s # "" /\ IsPrefix("://", From(r, Len(s) + 1))
      t == IF hs THEN From(r, Len(s) + 4) ELSE r
      n == IF hs THEN Upto(t, {"/"}) ELSE ""
      p == IF ~hs THEN r ELSE IF Contains(t, "/") THEN Cut(After(t, {"/"})) ELSE ""
  IN [ scheme |-> IF hs THEN s ELSE "", net |-> n, path |-> p, frag |-> f ]
\* setting and clearing the parts of an href
HrefStep(h, o) == CASE o[1] = "new" -> HrefParts(o[2]) [] o[1] = "set" -> [h EXCEPT ![o[2]] = o[3]] [] o[1] = "clear" -> [h EXCEPT ![o[2]] = ""]
HrefKind(h) == <<h.scheme # "", h.net # "", h.path # "", h.frag # "", h.scheme = "" /\ h.net = "", h.scheme = "" /\ h.net = "" /\ h.path # "", h.scheme = "" /\ h.net = "" /\ h.path = "" /\ h.frag # "">>
=============================================================================
