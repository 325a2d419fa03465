------------------------------ MODULE MCKmlCache ------------------------------
(***************************************************************************)
(* All histories of up to N links followed over a small web with nested and *)
(* KML-less KMZ files, with caches of one and two entries.                  *)
(***************************************************************************)
EXTENDS KmlCache, Json, TLC
CONSTANT N, Caps
VARIABLES s, h
P(t) == "<Placemark id='" \o t \o "'/>"
F(u, c) == [ u |-> u, z |-> FALSE, c |-> c, e |-> <<>> ]
Z(u, e) == [ u |-> u, z |-> TRUE, c |-> "", e |-> e ]
Web == << F("http://h.example/d/m.kml", P("m")), F("http://h.example/d/x.kml", P("x")), F("http://h.example/bad.kml", "bad"),
          F("http://h.example/i.png", "image"),
          Z("http://h.example/d/k.kmz", << <<"i.png", "inner">>, <<"a/doc.kml", P("kd")>>, <<"b.kml", P("kb")>> >>),
          Z("http://h.example/d/e.kmz", << <<"i.png", "other">> >>) >>
Bases == {"http://h.example/d/m.kml", "http://h.example/d/k.kmz/a/doc.kml", "http://h.example/d/e.kmz/none.kml"}
Targets == {"x.kml", "k.kmz", "e.kmz", "../b.kml", "../i.png", "../x.kml", "/d/k.kmz/b.kml", "../k.kmz", "../bad.kml", "x.kml#s"}
Ops == { [ k |-> "kml", b |-> b, t |-> t ] : b \in Bases, t \in Targets } \cup { [ k |-> "data", b |-> b, t |-> t ] : b \in Bases, t \in {"../i.png", "i.png", "x.kml"} }
Do(z, o) == IF o.k = "kml" THEN FetchKml(z, o.b, o.t).s ELSE FetchData(z, o.b, o.t).s
Init == \E n \in Caps : s = KCInit(n, Web) /\ h = <<>>
Next == Len(h) < N /\ \E o \in Ops : s' = Do(s, o) /\ h' = Append(h, o)
View == <<s, h # <<>>, IF h = <<>> THEN <<>> ELSE h[Len(h)]>>
Inv == KCOk(s)
\* a KML file fetched is in the cache under its url: fetching it by that url again gives it, without the network
Again == [][ LET o == h'[Len(h')] r == FetchKml(s, o.b, o.t) IN
     o.k = "kml" /\ r.file > 0 => LET u == s'.files[r.file].url q == FetchKml(s', u, u) IN q.file = r.file /\ q.asked = <<>> ]_<<s, h>>
Emit == h # <<>> => PrintT("BEH " \o ToJson([ cap |-> s.mem.cap, ops |-> h ]))
=============================================================================
