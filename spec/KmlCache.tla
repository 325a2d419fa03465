------------------------------- MODULE KmlCache -------------------------------
(***************************************************************************)
(* Fetching a link relative to the file it is in.  There are three caches   *)
(* over one network: of files, of KMZ archives and of parsed KML files.     *)
(*                                                                          *)
(* The network is a sequence of [u, z, c, e]: an url, whether a KMZ is      *)
(* there, else the content c; for a KMZ its entries e, <<name, content>>.   *)
(* Content is a KML file if it starts with "<Placemark".                    *)
(* State: [mem, kmz, kml, files, net]; files are the KML files made so far, *)
(* [url, c], and a parsed file is known by its number.                      *)
(***************************************************************************)
EXTENDS Uri, NetCache
IsKml(c) == IsPrefix("<Placemark", c)
At(net, url) == LET u == Upto(url, {"#"}) k == { i \in DOMAIN net : net[i].u = u } IN IF k = {} THEN <<>> ELSE <<net[CHOOSE i \in k : TRUE]>>
KCInit(cap, net) == [ mem |-> CEmpty(cap), kmz |-> CEmpty(cap), kml |-> CEmpty(cap), files |-> <<>>, net |-> net ]
\* a link; <<>> where there is none
Link(base, target) ==
  IF ~Valid(base) \/ ~Valid(target) \/ ~Parts(base).s[1] THEN <<>>
  ELSE LET u == ResolveRef(base, target) k == KmzParts(u) IN <<[ target |-> target, url |-> u, kmz |-> k[1], arch |-> k[2], path |-> k[3] ]>>
EndsKml(n) == Len(n) >= 4 /\ SubSeq(n, Len(n) - 3, Len(n)) = ".kml"
FirstIn(e, T(_)) == LET k == { i \in DOMAIN e : T(e[i][1]) } IN IF k = {} THEN 0 ELSE CHOOSE i \in k : \A j \in k : i <= j
DefaultKml(e) == FirstIn(e, EndsKml)
EntryAt(e, p) == FirstIn(e, LAMBDA n : n = p)
\* reads through a cache: items are sequences; CLook gives 0 for none
Raw(net, url) == LET x == At(net, url) IN IF x = <<>> THEN <<>> ELSE IF x[1].z THEN <<[ z |-> TRUE, c |-> "ZIP:" \o x[1].u, e |-> x[1].e ]>> ELSE <<[ z |-> FALSE, c |-> x[1].c, e |-> <<>> ]>>
CHas(c, u) == \E i \in 1..Len(c.q) : c.q[i][1] = u
CGet(c, u) == c.q[CHOOSE i \in 1..Len(c.q) : c.q[i][1] = u][2]
CAdd(c, u, item) == IF CHas(c, u) \/ c.cap = 0 THEN c ELSE [c EXCEPT !.q = Append(IF Len(@) >= c.cap THEN Tail(@) ELSE @, <<u, item>>)]
No(s, asked) == [ s |-> s, ok |-> FALSE, c |-> <<>>, url |-> "", asked |-> asked ]
RECURSIVE DoFetch(_,_,_)
DoFetch(s, l, asked) ==
  IF ~l.kmz THEN
    IF CHas(s.mem, l.url) THEN [ s |-> s, ok |-> TRUE, c |-> CGet(s.mem, l.url), url |-> l.url, asked |-> asked ]
    ELSE LET r == Raw(s.net, l.url) IN
         IF r = <<>> THEN No(s, Append(asked, l.url))
         ELSE [ s |-> [s EXCEPT !.mem = CAdd(@, l.url, r[1])], ok |-> TRUE, c |-> r[1], url |-> l.url, asked |-> Append(asked, l.url) ]
  ELSE
    LET have == CHas(s.kmz, l.arch)
        r == Raw(s.net, l.arch)
        a1 == IF have THEN asked ELSE Append(asked, l.arch)
    IN IF ~have /\ (r = <<>> \/ ~r[1].z) THEN No(s, a1)
       ELSE LET e == IF have THEN CGet(s.kmz, l.arch) ELSE r[1].e
                s1 == [s EXCEPT !.kmz = CAdd(@, l.arch, e)]
                i == IF l.path = "" THEN DefaultKml(e) ELSE EntryAt(e, l.path)
                next == Link(l.arch, l.target)
            IN IF i > 0 THEN [ s |-> s1, ok |-> TRUE, c |-> [ z |-> FALSE, c |-> e[i][2], e |-> <<>> ],
                               url |-> IF l.path = "" THEN l.arch \o "/" \o e[i][1] ELSE l.url, asked |-> a1 ]
               ELSE IF next = <<>> \/ next[1].url = l.url THEN No(s1, a1)
               ELSE DoFetch(s1, next[1], a1)
\* what is parsed: a KMZ gives its first KML file
ParsedOf(c) == IF ~c.z THEN c.c ELSE LET i == DefaultKml(c.e) IN IF i = 0 THEN "" ELSE c.e[i][2]
FetchKml(s, base, target) ==
  LET l == Link(base, target)
      none == [ s |-> s, file |-> 0, asked |-> <<>> ]
  IN IF l = <<>> THEN none
     ELSE IF CHas(s.kml, l[1].url) THEN [none EXCEPT !.file = CGet(s.kml, l[1].url)]
     ELSE LET d == DoFetch(s, l[1], <<>>) IN
          IF ~d.ok THEN [none EXCEPT !.s = d.s, !.asked = d.asked]
          ELSE IF CHas(d.s.kml, d.url) THEN [ s |-> d.s, file |-> CGet(d.s.kml, d.url), asked |-> d.asked ]
          ELSE IF ~IsKml(ParsedOf(d.c)) THEN [none EXCEPT !.s = d.s, !.asked = d.asked]
          ELSE LET n == Len(s.files) + 1 IN
               [ s |-> [d.s EXCEPT !.files = Append(@, [ url |-> d.url, c |-> ParsedOf(d.c) ]), !.kml = CAdd(@, d.url, n)], file |-> n, asked |-> d.asked ]
FetchData(s, base, target) ==
  LET l == Link(base, target) IN
  IF l = <<>> THEN [ s |-> s, ok |-> FALSE, data |-> "", asked |-> <<>> ]
  ELSE LET d == DoFetch(s, l[1], <<>>) IN [ s |-> d.s, ok |-> d.ok, data |-> IF d.ok THEN d.c.c ELSE "", asked |-> d.asked ]
\* ---- the guarantees of the design ----
KCOk(s) == /\ COk([cap |-> s.mem.cap, q |-> s.mem.q]) /\ COk(s.kmz) /\ COk(s.kml)
           /\ \A i \in 1..Len(s.kml.q) : s.files[s.kml.q[i][2]].url = s.kml.q[i][1]
=============================================================================
