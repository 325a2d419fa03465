---------------------------------- MODULE JBbox ----------------------------------
(* Judges boxes (driver "bbox") and extents (driver "bounds").               *)
EXTENDS Bbox, TraceData
VARIABLES sc, pos, st, ok
Fields(b) == <<b.n, b.s, b.e, b.w>>
OfFields(f) == BoxOf(f[1], f[2], f[3], f[4])
StartB(r) == IF "lim" \in DOMAIN r THEN None(r.lim) ELSE Norm(r.doc, "")
StepOp(r, b, e) ==
  LET o == e.op
      t == CASE o[1] = "pt" -> AddPoint(b, o[2], o[3]) [] o[1] = "lat" -> AddLat(b, o[2]) [] o[1] = "lon" -> AddLon(b, o[2])
             [] o[1] = "box" -> AddBox(b, BoxOf(o[2], o[3], o[4], o[5])) [] o[1] = "new" -> BoxOf(o[2], o[3], o[4], o[5]) [] OTHER -> b
      w == { i \in 1..Len(r.pts) : e.has[i] # Has(t, r.pts[i][1], r.pts[i][2]) }
      v == { i \in 1..Len(r.boxes) : e.within[i] # Within(t, OfFields(r.boxes[i])) }
      world == BoxOf(r.lim, 0 - r.lim, r.lim, 0 - r.lim)
      node == IF Within(t, world) THEN Fields(Align(t, world, 25)) ELSE <<>>
      a == { d \in 1..Len(e.align) : e.align[d] # Fields(Align(t, OfFields(r.qt), d)) }
  IN [ s |-> t, bad |-> IF e.box # Fields(t) THEN <<"box", t, e>> ELSE IF "node" \in DOMAIN e /\ e.node # node THEN <<"node", node, e>> ELSE IF w # {} THEN <<"contains", w, e>> ELSE IF v # {} THEN <<"contained", v, e>>
         ELSE IF e.mid # <<t.n + t.s, t.e + t.w>> THEN <<"centre", t, e>> ELSE IF a # {} THEN <<"align", Fields(Align(t, OfFields(r.qt), CHOOSE d \in a : TRUE)), a, e>> ELSE <<>> ]
RECURSIVE Marked(_,_)
Marked(x, m) == IF x.n = "#" THEN {} ELSE (IF \E i \in 1..Len(x.a) : x.a[i] = <<"m", m>> THEN {x} ELSE {}) \cup UNION { Marked(x.c[i], m) : i \in 1..Len(x.c) }
Mid(b) == <<b.n + b.s, b.e + b.w>>
GG == INSTANCE Geo
\* the diagonal of such a box may be too short for the smallest range
Small(b) == b.n - b.s <= 9 /\ (b.e - b.w <= 9 \/ GG!Across((b.n + b.s) \div 2, b.e - b.w) < 11000)
StepE(r, s, e) ==
  LET x == CHOOSE x \in Marked(s, e.m) : TRUE
      ps == Points(x)
      any == ps # <<>>
      b == AddAll(None(180000), ps)
      b2 == AddAll(OfFields(r.start), ps)
      mid == IF any THEN Mid(b) ELSE <<>>
      first == IF any THEN <<2 * ps[1][1], 2 * ps[1][2]>> ELSE <<>>
  IN [ s |-> s, bad |->
       IF e.any # <<any, any>> THEN <<"any", ps, e>>
       ELSE IF e.box # Fields(b) THEN <<"extent", b, e>>
       ELSE IF e.more # Fields(b2) THEN <<"extended", b2, e>>
       ELSE IF e.mid # mid THEN <<"centre", mid, e>>
       ELSE IF "look" \in DOMAIN e /\ e.look.at # mid THEN <<"view", mid, e>>
       ELSE IF "look" \in DOMAIN e /\ any /\ (~e.look.ground \/ e.look.range < 1000 \/ (e.look.range > 1000 /\ ~GG!IsRange((b.n + b.s) \div 2, b.n - b.s, b.e - b.w, e.look.range)) \/ (e.look.range = 1000 /\ ~Small(b))) THEN <<"view range", e>>
       ELSE IF "first" \in DOMAIN e /\ e.first # first THEN <<"first", first, e>> ELSE <<>> ]
BoxMid(r, s, e) == [ s |-> s, bad |-> LET x == CHOOSE x \in Marked(s, e.m) : TRUE
                                       w == <<NumOr(x, "north", 180000) + NumOr(x, "south", -180000), NumOr(x, "east", 180000) + NumOr(x, "west", -180000)>> IN IF e.boxmid # w THEN <<"box centre", w, e>> ELSE <<>> ]
Step2(r, s, e) == IF "op" \in DOMAIN e THEN StepOp(r, s, e) ELSE IF "boxmid" \in DOMAIN e THEN BoxMid(r, s, e) ELSE StepE(r, s, e)
INSTANCE TraceJudge WITH Start <- StartB, Step <- Step2
=============================================================================
