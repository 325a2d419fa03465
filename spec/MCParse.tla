------------------------------- MODULE MCParse -------------------------------
(* All token sequences and refusals within the bounds; each complete one is *)
(* emitted and driven through the real parser.                              *)
EXTENDS KmlParse, Json
CONSTANTS Tags, N, NObs, PlanIdx, MaxPlan
VARIABLES toks, plan, p
vars == <<toks, plan, p>>
T(k, s) == [k |-> k, s |-> s]
Alphabet == { T("o", t) : t \in Tags } \cup { T("e", t) : t \in Tags } \cup { T("c", ""), T("t", "x"), T("x", "zzz") }
OnePlan == { [o |-> o, k |-> k, i |-> i] : o \in 1..NObs, k \in {"new","end","add"}, i \in PlanIdx }
Plans == IF MaxPlan = 0 THEN { <<>> } ELSE { <<>> } \cup { <<a>> : a \in OnePlan } \cup (IF MaxPlan = 1 THEN {} ELSE { <<a, b>> : a \in OnePlan, b \in OnePlan })
Init == toks = <<>> /\ plan \in Plans /\ p = PInit
Live == Len(toks) < N /\ p.st = "run"
Next == /\ Live
        /\ \E tok \in Alphabet : toks' = Append(toks, tok) /\ p' = Feed(p, tok, plan, NObs)
        /\ UNCHANGED plan
\* simulation: the plan is chosen at random
TypeOK == p.st \in {"run", "stopped", "bad", "done"} /\ p.cnt <= Len(toks)
\* every element is announced to an observer before its end, and ended before it is added
\* (an element whose opening was refused by an earlier observer was not announced to later ones)
Ordered == \A j \in 1..Len(p.log) : p.log[j].k = "new" \/ Refused(plan, NObs, "new", p.log[j].i) \/
   \E h \in 1..(j-1) : p.log[h].i = p.log[j].i /\ p.log[h].o = p.log[j].o /\ p.log[h].k = "new"
\* without refusals every known element but the root is ended and added exactly once per observer
Whole == (p.st = "done" /\ plan = <<>>) =>
   \A i \in 1..p.cnt : \A o \in 1..NObs :
      LET cnt(k) == Cardinality({ j \in 1..Len(p.log) : p.log[j].i = i /\ p.log[j].o = o /\ p.log[j].k = k })
      IN cnt("new") = 1 /\ cnt("end") = (IF i = 1 THEN 0 ELSE 1) /\ cnt("add") = (IF i = 1 THEN 0 ELSE 1)
\* the delivered document is a fixed point of delivery
Canonical == p.st = "done" /\ p.root.n \notin SimpleTags => Norm(Result(p), "") = Result(p)
Emit == (~Live /\ toks # <<>>) => PrintT("BEH " \o ToJson([toks |-> toks, plan |-> plan]))
=============================================================================
