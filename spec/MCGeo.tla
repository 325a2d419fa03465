------------------------------------ MODULE MCGeo ------------------------------------
(* The laws on a lattice of points: for every pair there is exactly one distance (to within the lattice), it is symmetric, obeys the triangle inequality, and the point at that distance in the direction of the azimuth is the other point.  Emits the pairs. *)
EXTENDS Geo, Json, TLC
CONSTANT Deg
VARIABLES p, q
Lats == { i * Deg * 1000 : i \in -(90 \div Deg)..(90 \div Deg) }
Lngs == { i * Deg * 1000 : i \in -(180 \div Deg)..(180 \div Deg) }
Init == p \in Lats \X { 0, 60000 } /\ q = <<>>
Next == q = <<>> /\ p' = p /\ q' \in Lats \X Lngs
\* the arcs (in whole degrees) that the law of cosines allows
Arcs(a, b) == { d \in 0..180 : Near(Cos(d * 1000), CosOf(a, b), 280) }
Sym == q # <<>> => CosOf(p, q) - CosOf(q, p) \in -2..2
One == q # <<>> => Arcs(p, q) # {} /\ \A x, y \in Arcs(p, q) : AbsN(x - y) <= 17
Same == q # <<>> => (p = q => CosOf(p, q) >= K - 4)
\* sine and cosine of the azimuth belong together: E^2 + N^2 + C^2 = 1
Unit == q # <<>> => LET e == East(p, q) n == North(p, q) c == CosOf(p, q) IN Near(Mul(e, e) + Mul(n, n) + Mul(c, c), K, 16)
Tri == q # <<>> => \A r \in { <<0, 0>>, <<45000, 90000>>, <<-90000, 0>> } : \E x \in Arcs(p, q), y \in Arcs(p, r), z \in Arcs(r, q) : x <= y + z
Emit == q # <<>> => PrintT("BEH " \o ToJson(<<p, q>>))
=============================================================================
