------------------------------------ MODULE Gpx ------------------------------------
(***************************************************************************)
(* The track points of a GPX document, in document order: every trkpt that  *)
(* has numbers for lat and lon, with the ele and time found within it.      *)
(***************************************************************************)
EXTENDS KmlDom
AttrOf(x, n) == LET q == SelectSeq(x.a, LAMBDA p : p[1] = n) IN IF q = <<>> THEN <<>> ELSE <<q[1][2]>>
IsNumber(s) == LET i == IF s # "" /\ Ch(s, 1) \in {"-", "+"} THEN 2 ELSE 1
                   j == SkipIn(s, i, Digits)
                   k == IF j <= Len(s) /\ Ch(s, j) = "." THEN SkipIn(s, j + 1, Digits) ELSE j
               IN k > Len(s) /\ (j > i \/ k > j + 1)
HasPlace(x) == LET a == AttrOf(x, "lat") o == AttrOf(x, "lon") IN a # <<>> /\ o # <<>> /\ IsNumber(a[1]) /\ IsNumber(o[1])
RECURSIVE Found(_,_)
Found(x, n) == IF x.n = "#" THEN <<>> ELSE (IF x.n = n THEN <<x>> ELSE <<>>) \o Concat([ i \in 1..Len(x.c) |-> Found(x.c[i], n) ])
RECURSIVE AllText(_)
AllText(x) == IF x.n = "#" THEN x.t ELSE LET RECURSIVE J(_) J(i) == IF i > Len(x.c) THEN "" ELSE AllText(x.c[i]) \o J(i + 1) IN J(1)
\* the last ele of a point that is a number is its altitude, the last time its time
Altitude(x) == LET q == SelectSeq(Found(x, "ele"), LAMBDA e : IsNumber(Trim(AllText(e)))) IN IF q = <<>> THEN "-" ELSE CanonNum(Trim(AllText(q[Len(q)])))
When(x) == LET q == Found(x, "time") IN IF q = <<>> THEN "" ELSE AllText(q[Len(q)])
PointOf(x) == <<CanonNum(AttrOf(x, "lon")[1]), CanonNum(AttrOf(x, "lat")[1]), Altitude(x), When(x)>>
TrackPoints(doc) == LET q == SelectSeq(Found(doc, "trkpt"), HasPlace) IN [ i \in 1..Len(q) |-> PointOf(q[i]) ]
=============================================================================
