----------------------------------- MODULE Build -----------------------------------
(***************************************************************************)
(* The elements the builders of kmlconvenience make, the values kept in a   *)
(* feature's ExtendedData, and simplified lines and circles.                *)
(***************************************************************************)
EXTENDS Bbox, TLC
BEl(n, a, c) == [ n |-> n, t |-> "", a |-> a, c |-> c ]
Modes == <<"clampToGround", "relativeToGround", "absolute">>
\* v is <<lat, lon>> or <<lat, lon, alt>>, or for a Vec3 <<lon, lat>> or <<lon, lat, alt>>
TupleText(v) == v[1] \o "," \o v[2] \o (IF Len(v) = 3 THEN "," \o v[3] ELSE "")
PointAt(v) == BEl("Point", <<>>, <<Leaf("coordinates", TupleText(v))>>)
LatLon(la, lo) == PointAt(<<lo, la>>)
Datum(n, v) == BEl("Data", IF n = "(none)" THEN <<>> ELSE <<<<"name", n>>>>, <<Leaf("value", v)>>)
View6(tag, last, a) == BEl(tag, <<>>, <<Leaf("longitude", a[2]), Leaf("latitude", a[1]), Leaf("altitude", a[3]), Leaf("heading", a[4]), Leaf("tilt", a[5]), Leaf(last, a[6]), Leaf("altitudeMode", Modes[a[7] + 1])>>)
FlyTo(d, views) == BEl("gx:FlyTo", <<>>, <<Leaf("gx:duration", d)>> \o views)
\* the value of attribute n in a list of names and values; the last counts
LastOf(q, n) == LET h == { i \in 1..(Len(q) \div 2) : q[2 * i - 1] = n } IN IF h = {} THEN <<>> ELSE <<q[2 * (CHOOSE i \in h : \A j \in h : j <= i)]>>
\* the nothing a builder gives
NoTree == BEl("none", <<>>, <<>>)
ViewOf(x) == SelectSeq(x.c, LAMBDA k : k.n \in {"Camera", "LookAt"})
\* a side of a box, the end of the world if it has none
Side(b, n) == IF One(b, n) = <<>> THEN (IF n \in {"north", "east"} THEN "180" ELSE "-180") ELSE TextOf(One(b, n)[1].c)
Built(fn, a, in) ==
  CASE fn = "animated" -> BEl("gx:AnimatedUpdate", <<>>, <<Leaf("gx:duration", a[3]), BEl("Update", <<>>, <<Leaf("targetHref", ""), BEl("Change", <<>>, <<BEl("Placemark", <<<<"targetId", a[1]>>>>, <<PointAt(a[2])>>)>>)>>)>>)
    [] fn = "polygon" -> BEl("Placemark", <<>>, <<BEl("Polygon", <<>>, <<BEl("outerBoundaryIs", <<>>, <<BEl("LinearRing", <<>>, <<Leaf("coordinates", Join([ i \in 1..Len(a[1]) |-> TupleText(a[1][i]) ], " "))>>)>>)>>)>>)
    [] fn = "camera" -> View6("Camera", "roll", a)
    [] fn = "lookat" -> View6("LookAt", "range", a)
    [] fn = "data" -> Datum(a[1], a[2])
    [] fn = "atts" -> IF LastOf(a[1], "lat") = <<>> \/ LastOf(a[1], "lon") = <<>> THEN NoTree ELSE LatLon(LastOf(a[1], "lat")[1], LastOf(a[1], "lon")[1])
    [] fn = "vec3" -> PointAt(a[1])
    [] fn = "latlon" -> LatLon(a[1], a[2])
    [] fn = "placemark" -> BEl("Placemark", <<>>, <<Leaf("name", a[1]), LatLon(a[2], a[3])>>)
    [] fn = "stamped" -> LET d == SubSeq(a[3], 1, 10) t == SubSeq(a[3], 12, 19) IN
         BEl("Placemark", <<>>, <<Leaf("name", t), BEl("TimeStamp", <<>>, <<Leaf("when", a[3])>>), Leaf("styleUrl", "#" \o a[4]),
                                  BEl("ExtendedData", <<>>, <<Datum("date", d), Datum("time", t)>>), LatLon(a[1], a[2])>>)
    [] fn = "region" -> BEl("Region", <<>>, <<BEl("LatLonAltBox", <<>>, <<Leaf("north", a[1]), Leaf("south", a[2]), Leaf("east", a[3]), Leaf("west", a[4])>>), BEl("Lod", <<>>, <<Leaf("minLodPixels", a[5]), Leaf("maxLodPixels", a[6])>>)>>)
    [] fn = "flyto" -> FlyTo(a[2], IF in.n \in {"Camera", "LookAt"} THEN <<in>> ELSE <<>>)
    [] fn = "flyfeature" -> IF in.n \notin Features \/ ViewOf(in) = <<>> THEN NoTree ELSE FlyTo(a[2], ViewOf(in))
    [] fn = "boxline" -> BEl("Placemark", <<>>, <<Leaf("name", a[2])>> \o (IF One(in, "LatLonAltBox") = <<>> THEN <<>> ELSE
         LET b == One(in, "LatLonAltBox")[1] n == Side(b, "north") s == Side(b, "south") e == Side(b, "east") w == Side(b, "west") IN
         <<BEl("LineString", <<>>, <<Leaf("tessellate", "1"), Leaf("coordinates", Join([ i \in 1..5 |-> TupleText(<<<<w, n>>, <<e, n>>, <<e, s>>, <<w, s>>, <<w, n>>>>[i]) ], " "))>>)>>))
    [] fn = "regionlink" -> BEl("NetworkLink", <<>>, <<in, BEl("Link", <<>>, <<Leaf("href", a[2]), Leaf("viewRefreshMode", "onRegion")>>)>>)
    [] fn = "regiondoc" -> BEl("Document", <<>>, <<in>>)
    [] fn = "child" -> NoTree
    [] fn = "wait" -> BEl("gx:Wait", <<>>, <<Leaf("gx:duration", a[1])>>)
\* the quadrant q (1 NW, 2 NE, 3 SW, 4 SE, in the order of quadrant_t) of a region
SideN(b, n) == NumOr(b, n, IF n \in {"north", "east"} THEN 180000 ELSE -180000)
Sides == {"north", "south", "east", "west"}
Sideless(x) == [x EXCEPT !.c = SelectSeq(x.c, LAMBDA k : k.n \notin Sides)]
IsChild(in, q, got) ==
  /\ got.n = "Region" /\ got.a = <<>>
  /\ One(got, "Lod") = One(in, "Lod")
  /\ \A i \in 1..Len(got.c) : got.c[i].n \in {"LatLonAltBox", "Lod"}
  /\ Len(One(got, "LatLonAltBox")) = Len(One(in, "LatLonAltBox"))
  /\ (One(in, "LatLonAltBox") # <<>> =>
       LET b == One(in, "LatLonAltBox")[1] g == One(got, "LatLonAltBox")[1]
           lat == SideN(b, "north") + SideN(b, "south") lon == SideN(b, "east") + SideN(b, "west")
       IN /\ Sideless(b) = Sideless(g)
          /\ (IF q \in {0, 1} THEN SideN(g, "north") = SideN(b, "north") /\ 2 * SideN(g, "south") = lat ELSE SideN(g, "south") = SideN(b, "south") /\ 2 * SideN(g, "north") = lat)
          /\ (IF q \in {0, 2} THEN SideN(g, "west") = SideN(b, "west") /\ 2 * SideN(g, "east") = lon ELSE SideN(g, "east") = SideN(b, "east") /\ 2 * SideN(g, "west") = lon))
\* the view computed for a feature that has none: north up and straight down on the middle of its extent
Whole(t) == NatOf(Split(t, 1, ".")[1], 0)
GoodLook(v, b) == /\ v.n = "LookAt" /\ v.a = <<>>
  /\ 2 * Num(v, "longitude") = b.e + b.w /\ 2 * Num(v, "latitude") = b.n + b.s /\ One(v, "longitude") # <<>> /\ One(v, "latitude") # <<>>
  /\ One(v, "altitudeMode") # <<>> /\ TextOf(One(v, "altitudeMode")[1].c) = "relativeToGround"
  /\ One(v, "range") # <<>> /\ LET q == TextOf(One(v, "range")[1].c) IN Whole(q) >= 1000 /\ ((b.n = b.s /\ b.e = b.w) => q = "1000")
  /\ \A i \in 1..Len(v.c) : v.c[i].n \in {"longitude", "latitude", "altitudeMode", "range"}
\* which points have an altitude, in document order
RECURSIVE AltFlags(_)
AltFlags(x) == IF x.n = "coordinates" THEN LET q == Tokens(TextOf(x.c), 1, {" "}) IN [ i \in 1..Len(q) |-> Len(Split(q[i], 1, ",")) = 3 ]
               ELSE Concat([ i \in 1..Len(x.c) |-> AltFlags(x.c[i]) ])
(* ---- values of ExtendedData: xd is <<>> or <<the sequence of <<name, value>>>> ---- *)
ScoreName == "kml.FeatureScore"
AddV(xd, n, v) == IF xd = <<>> THEN <<<<<<n, v>>>>>> ELSE <<Append(xd[1], <<n, v>>)>>
GetV(xd, n) == IF xd = <<>> THEN <<>> ELSE LET q == SelectSeq(xd[1], LAMBDA p : p[1] = n) IN IF q = <<>> THEN <<>> ELSE <<q[1][2]>>
\* the integer a text begins with
AtoI(s) == LET t == LTrim(s) k == IF t # "" /\ Ch(t, 1) \in {"+", "-"} THEN 2 ELSE 1 e == SkipIn(t, k, Digits) IN IF e = k THEN 0 ELSE IntOf(SubSeq(t, 1, e - 1))
XStep(xd, o) ==
  CASE o[1] = "add" -> AddV(xd, o[2], o[3]) [] o[1] = "set" -> AddV(<<>>, o[2], o[3]) [] o[1] = "score" -> AddV(<<>>, ScoreName, o[2])
    [] o[1] = "clear" -> <<>> [] OTHER -> xd
XTree(xd) == IF xd = <<>> THEN <<>> ELSE <<BEl("ExtendedData", <<>>, [ i \in 1..Len(xd[1]) |-> Datum(xd[1][i][1], xd[1][i][2]) ])>>
(* ---- lines: points are <<place, altitude or "">>; places are far apart ---- *)
AltOf(p) == IF p[2] = "" THEN 0 ELSE IntOf(p[2])
Abs0(n) == IF n < 0 THEN 0 - n ELSE n
Near(p, q, tol) == tol > 0 /\ p[1] = q[1] /\ Abs0(AltOf(p) - AltOf(q)) <= tol
Simplified(ps, tol) == LET keep == SelectSeq([ i \in 1..Len(ps) |-> i ], LAMBDA i : i = 1 \/ ~Near(ps[i - 1], ps[i], tol)) IN [ k \in 1..Len(keep) |-> ps[keep[k]] ]
=============================================================================
