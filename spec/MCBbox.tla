--------------------------------- MODULE MCBbox ---------------------------------
(* Design model: whatever the history of a box, it is the smallest box of the *)
(* points it was given, and the aligned box is the smallest quadrant around   *)
(* it.  Emits every history.                                                  *)
EXTENDS Bbox, Json
CONSTANT N
Vals == {-8, -1, 0, 5}
VARIABLES h, b, pts
Lim == 8
World == BoxOf(Lim, 0 - Lim, Lim, 0 - Lim)
Boxes == { BoxOf(3, 1, 4, 4), BoxOf(8, -8, 0, -5), BoxOf(-2, -2, -1, -7), None(Lim) }
Init == h = <<>> /\ b = None(Lim) /\ pts = {}
Next == /\ Len(h) < N
        /\ \/ \E y, x \in Vals : h' = Append(h, <<"pt", y, x>>) /\ b' = AddPoint(b, y, x) /\ pts' = pts \cup {<<y, x>>}
           \/ \E c \in Boxes : h' = Append(h, <<"box", c.n, c.s, c.e, c.w>>) /\ b' = AddBox(b, c)
                  /\ pts' = pts \cup (IF IsNone(c) THEN {} ELSE {<<c.n, c.e>>, <<c.s, c.w>>})
Ys == { p[1] : p \in pts }
Xs == { p[2] : p \in pts }
Smallest == IF pts = {} THEN IsNone(b) ELSE /\ \A p \in pts : Has(b, p[1], p[2])
                                            /\ b.n \in Ys /\ b.s \in Ys /\ b.e \in Xs /\ b.w \in Xs
\* all quadrants of up to d divisions
RECURSIVE AllQ(_,_)
AllQ(q, d) == {q} \cup (IF d = 0 THEN {} ELSE UNION { AllQ(Quads(q)[i], d - 1) : i \in 1..4 })
Aligned == pts # {} => LET a == Align(b, World, 3) IN a \in AllQ(World, 3) /\ Within(b, a) /\ \A q \in AllQ(World, 3) : Within(b, q) => ~(Within(q, a) /\ q # a)
Emit == Len(h) = N => PrintT("BEH " \o ToJson(h))
=============================================================================
