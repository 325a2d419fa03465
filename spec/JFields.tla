---------------------------------- MODULE JFields ----------------------------------
(* Judges histories of field accessors (driver "fields"). *)
EXTENDS Fields, TraceData
VARIABLES sc, pos, st, ok
Start0(r) == <<<<>>, <<>>>>
Show(e, w) == e.seen[w]
StepF(r, s, e) ==
  LET o == e.op
      w == o[2] + 1
      t == CASE o[1] = "set" -> [s EXCEPT ![w] = SetF(@, o[3], o[4])] [] o[1] = "clear" -> [s EXCEPT ![w] = ClearF(@, o[3])]
             \* whether a copy has a field that was set to nothing is left open
             [] o[1] = "copy" -> [s EXCEPT ![w] = [ f \in { g \in DOMAIN @ : @[g] # "" \/ \E i \in 1..Len(e.seen[w]) : e.seen[w][i][1] = g /\ e.seen[w][i][2] } |-> @[f] ]]
             [] OTHER -> s
      wrong(x) == { i \in 1..Len(e.seen[x]) : LET q == e.seen[x][i] IN q[2] # (q[1] \in DOMAIN t[x]) \/ q[3] # Value(r.ty, t[x], q[1]) }
      d(x) == e.docs[x]
      baddoc(x) == d(x).n # ShownTag(r.ty) \/ { d(x).a[i] : i \in 1..Len(d(x).a) } # DocAttrs(r.ty, t[x]) \/ Clean(d(x), FALSE).c # DocKids(r.ty, t[x])
  IN [ s |-> t, bad |->
       IF ~e.done THEN <<"not done", o>>
       ELSE IF \E x \in 1..2 : { e.seen[x][i][1] : i \in 1..Len(e.seen[x]) } # FieldNames(r.ty) THEN <<"fields", FieldNames(r.ty)>>
       ELSE IF \E x \in 1..2 : wrong(x) # {} THEN LET x == CHOOSE y \in 1..2 : wrong(y) # {} IN <<"value", o, x, e.seen[x][CHOOSE i \in wrong(x) : TRUE]>>
       ELSE IF \E x \in 1..2 : baddoc(x) THEN LET x == CHOOSE y \in 1..2 : baddoc(y) IN <<"written", o, d(x), DocAttrs(r.ty, t[x]), DocKids(r.ty, t[x])>>
       ELSE <<>> ]
INSTANCE TraceJudge WITH Start <- Start0, Step <- StepF
=============================================================================
