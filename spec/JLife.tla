---------------------------------- MODULE JLife ----------------------------------
(* Judges lifetimes (driver "life") and what is left behind by the scenarios   *)
(* of the other drivers (driver "leak").                                      *)
EXTENDS Life, TraceData
VARIABLES sc, pos, st, ok
Start0(r) == IF "ty" \in DOMAIN r THEN LInit(Len(r.ty)) ELSE <<>>
Alive(e) == { i \in 1..Len(e.alive) : e.alive[i] }
\* what is left grows with every run
Grows(l) == \E k \in 1..4 : \A i \in 1..Len(l) : l[i][k] > 0
IdOf(r, i) == IF i <= Len(r.ids) THEN r.ids[i] ELSE ""
StepL(r, s, e) ==
  IF e.k = "left" THEN [ s |-> s, bad |-> IF Grows(e.left) THEN <<"left behind", e.left>> ELSE <<>> ]
  ELSE IF e.k = "end" THEN [ s |-> s, bad |-> IF Alive(e) # {} THEN <<"never deleted", Alive(e)>> ELSE <<>> ]
  ELSE LET ids == [ i \in 1..(Len(s.t.par) + Len(e.nodes)) |-> IdOf(r, i) ]
           find == e.k = "find"
           o == IF find THEN [ s |-> IF e.res > 0 THEN [s EXCEPT !.held = @ \cup {e.res}] ELSE s, res |-> e.res ] ELSE LifeStep(s, e, ids, e.nodes, e.res = 1)
           t == o.s
       IN [ s |-> t, bad |->
            IF o.res # e.res \/ (find /\ e.res > 0 /\ e.res \notin May(s)) THEN <<"returned", o.res, e.res>>
            ELSE IF Must(t) \ Alive(e) # {} THEN <<"deleted too early", Must(t) \ Alive(e), e.k>>
            ELSE IF Alive(e) \ May(t) # {} THEN <<"not deleted", Alive(e) \ May(t), e.k>> ELSE <<>> ]
INSTANCE TraceJudge WITH Start <- Start0, Step <- StepL
=============================================================================
