-------------------------------- MODULE JMerge --------------------------------
(* Judges merging (driver "merge"). *)
EXTENDS Merge, TraceData
VARIABLES sc, pos, st, ok
StartM(r) == 0
StepM(r, s, e) ==
  LET src == Norm(e.src, "")
      tgt == Norm(e.tgt, "")
      ty == TypeOf(tgt.n, "")
      want == IF r.how \in {"elements", "fields"} THEN MergeInto(src, tgt, ty, r.how = "elements") ELSE SetForm(tgt)
      got == SetForm(Clean(e.raw, FALSE))
  IN [ s |-> 0, bad |->
     IF ~e.ok THEN <<"not parsed">>
     ELSE IF got # want THEN <<r.how, want, got>>
     ELSE IF ~e.srckept THEN <<"source changed">> ELSE IF ~e.disjoint THEN <<"shared element">>
     ELSE IF ~e.indep THEN <<"later change of the source shows in the target">> ELSE <<>> ]
INSTANCE TraceJudge WITH Start <- StartM, Step <- StepM
=============================================================================
