-------------------------------- MODULE JEntity --------------------------------
(* Judges entities and balloons (driver "entity") and the expansion of       *)
(* texts (driver "expand").                                                  *)
EXTENDS Entities, TraceData
VARIABLES sc, pos, st, ok
StartE(r) == 0
RECURSIVE Marked(_,_)
Marked(x, m) == IF x.n = "#" THEN {} ELSE (IF AttrOf(x, "m") = <<TRUE, m>> THEN {x} ELSE {}) \cup UNION { Marked(x.c[i], m) : i \in 1..Len(x.c) }
Set(q) == { q[i] : i \in 1..Len(q) }
Feature(r, e) ==
  LET x == CHOOSE x \in Marked(Norm(r.doc, ""), e.m) : TRUE
      m == EntSet(EntList(r.doc, x))
      b == Balloon(r.doc, r.doc, x)
      w == { i \in 1..Len(r.ts) : Expand(r.ts[i], m, "$[", "]") # e.ex[i] }
  IN IF Set(e.map) # m THEN <<"entities", m, e.map>>
     ELSE IF e.rows # Rows(r.doc, x) THEN <<"rows", Rows(r.doc, x), e.rows>>
     ELSE IF w # {} THEN LET i == CHOOSE i \in w : TRUE IN <<"expanded", r.ts[i], Expand(r.ts[i], m, "$[", "]"), e.ex[i]>>
     ELSE IF e.balloon # b THEN <<"balloon", b, e.balloon>> ELSE <<>>
StepE(r, s, e) == [ s |-> 0, bad |->
  IF "m" \in DOMAIN e THEN Feature(r, e)
  ELSE LET w == Expand(e.t, Set(e.map), e.a, e.b) IN IF w # e.got THEN <<"expanded", w, e>> ELSE <<>> ]
INSTANCE TraceJudge WITH Start <- StartE, Step <- StepE
=============================================================================
