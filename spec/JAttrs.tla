---------------------------------- MODULE JAttrs ----------------------------------
(* Judges histories of attribute lists (driver "attrs"). *)
EXTENDS Attrs, TraceData
VARIABLES sc, pos, st, ok
Start0(r) == <<<<>>, <<>>, <<>>>>
Pairs(a) == { <<n, a[n]>> : n \in DOMAIN a }
SetOfSeq(q) == { q[i] : i \in 1..Len(q) }
StepA(r, s, e) ==
  LET o == AStep(s, e.op) t == o.s IN
  [ s |-> t, bad |->
    IF e.ok # o.ok THEN <<"result", o.ok, e>>
    ELSE IF e.op[1] = "key" THEN (IF e.ok = (\E n \in DOMAIN s[e.op[2] + 1] : n = e.val /\ s[e.op[2] + 1][n] = e.op[3]) THEN <<>> ELSE <<"key", e>>)
    ELSE IF e.val # o.val THEN <<"value", o.val, e>>
    ELSE IF e.op[1] = "xmlns" /\ (LET p == SplitOut(s[e.op[2] + 1], "xmlns") IN
         \/ SetOfSeq(e.nst) # KnownNs \/ Len(e.nst) # Cardinality(KnownNs)
         \/ (e.ok /\ (SetOfSeq(e.nsp) # Pairs(p) \/ \E i \in 1..Len(e.nsk) : LET q == e.nsk[i] IN
               \/ q[2] # (IF q[1] \in DOMAIN p THEN p[q[1]] ELSE "")
               \/ (IF \E n \in DOMAIN p : p[n] = q[1] THEN ~(q[3] \in DOMAIN p /\ p[q[3]] = q[1]) ELSE q[3] # "")))) THEN <<"namespaces", e.op, e.nsp, e.nsk, e.nst>>
    ELSE IF \E i \in 1..3 : Len(e.lists[i]) # Cardinality(DOMAIN t[i]) \/ SetOfSeq(e.lists[i]) # Pairs(t[i]) THEN <<"lists", t, e>>
    ELSE IF ~e.same THEN <<"names or size", e>>
    ELSE IF r.xml /\ \E i \in 1..3 : SetOfSeq(e.docs[i]) # Pairs(t[i]) THEN <<"written", t, e>>
    ELSE <<>> ]
INSTANCE TraceJudge WITH Start <- Start0, Step <- StepA
=============================================================================
