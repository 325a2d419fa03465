---------------------------------- MODULE Bbox ----------------------------------
(***************************************************************************)
(* Boxes [n, s, e, w] over integers (a fixed fraction of a degree) and the  *)
(* extents of features.  None is the box of no point.                       *)
(***************************************************************************)
EXTENDS KmlDom
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
BoxOf(n, s, e, w) == [ n |-> n, s |-> s, e |-> e, w |-> w ]
None(lim) == BoxOf(0 - lim, lim, 0 - lim, lim)
IsNone(b) == b.n < b.s \/ b.e < b.w
AddLat(b, y) == [b EXCEPT !.n = Max(@, y), !.s = Min(@, y)]
AddLon(b, x) == [b EXCEPT !.e = Max(@, x), !.w = Min(@, x)]
AddPoint(b, y, x) == AddLon(AddLat(b, y), x)
AddBox(b, c) == IF IsNone(c) THEN b ELSE BoxOf(Max(b.n, c.n), Min(b.s, c.s), Max(b.e, c.e), Min(b.w, c.w))
Has(b, y, x) == b.s <= y /\ y <= b.n /\ b.w <= x /\ x <= b.e
Within(b, c) == b.n <= c.n /\ b.s >= c.s /\ b.e <= c.e /\ b.w >= c.w
\* the smallest quadrant of q, of at most d divisions, that contains b; the
\* northern and eastern ones first where several do
Quads(q) == LET y == (q.n + q.s) \div 2 x == (q.e + q.w) \div 2 IN
            << BoxOf(q.n, y, q.e, x), BoxOf(q.n, y, x, q.w), BoxOf(y, q.s, q.e, x), BoxOf(y, q.s, x, q.w) >>
RECURSIVE Align(_,_,_)
Align(b, q, d) == LET k == SelectSeq(Quads(q), LAMBDA c : Within(b, c)) IN IF d = 0 \/ k = <<>> THEN q ELSE Align(b, k[1], d - 1)
\* decimal text to thousandths
Milli(t) == LET c == CanonNum(t)
                neg == Ch(c, 1) = "-"
                u == IF neg THEN From(c, 2) ELSE c
                p == Split(u, 1, ".")
                f == IF Len(p) = 1 THEN "000" ELSE SubSeq(p[2] \o "000", 1, 3)
                v == NatOf(p[1], 0) * 1000 + NatOf(f, 0)
            IN IF neg THEN 0 - v ELSE v
\* the points <<lat, lon>> of a canonical element, in order
TuplePoint(t) == LET p == Split(t, 1, ",") IN <<Milli(p[2]), Milli(p[1])>>
CoordPoints(x) == LET c == SelectSeq(x.c, LAMBDA k : k.n = "coordinates") IN
   IF c = <<>> THEN <<>> ELSE LET ts == Tokens(TextOf(Last(c).c), 1, Ws) IN [ i \in 1..Len(ts) |-> TuplePoint(ts[i]) ]
One(x, n) == LET q == SelectSeq(x.c, LAMBDA k : k.n = n) IN IF q = <<>> THEN <<>> ELSE <<Last(q)>>
NumOr(x, n, d) == LET q == One(x, n) IN IF q = <<>> THEN d ELSE Milli(TextOf(q[1].c))
Num(x, n) == NumOr(x, n, 0)
Geometry == {"Point", "LineString", "LinearRing", "Polygon", "MultiGeometry", "Model", "gx:Track", "gx:MultiTrack"}
RECURSIVE Points(_)
Points(x) ==
  LET in(ts) == Concat([ i \in 1..Len(x.c) |-> IF x.c[i].n \in ts THEN Points(x.c[i]) ELSE <<>> ]) IN
  CASE x.n \in {"Point", "LineString", "LinearRing"} -> CoordPoints(x)
    [] x.n = "Polygon" -> LET o == One(x, "outerBoundaryIs") IN IF o = <<>> THEN <<>> ELSE LET l == One(o[1], "LinearRing") IN IF l = <<>> THEN <<>> ELSE CoordPoints(l[1])
    [] x.n = "Model" -> LET l == One(x, "Location") IN IF l = <<>> THEN <<>> ELSE <<<<Num(l[1], "latitude"), Num(l[1], "longitude")>>>>
    [] x.n = "MultiGeometry" -> in(Geometry)
    [] x.n = "Placemark" -> in(Geometry)
    [] x.n = "PhotoOverlay" -> in({"Point"})
    [] x.n \in {"Document", "Folder"} -> in(Features)
    [] OTHER -> <<>>
RECURSIVE AddAll(_,_)
AddAll(b, ps) == IF ps = <<>> THEN b ELSE AddAll(AddPoint(b, Head(ps)[1], Head(ps)[2]), Tail(ps))
=============================================================================
