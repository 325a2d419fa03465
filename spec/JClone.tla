-------------------------------- MODULE JClone --------------------------------
(* Judges cloning (driver "clone"). *)
EXTENDS Merge, TraceData
VARIABLES sc, pos, st, ok
StartK(r) == 0
StepK(r, s, e) == [ s |-> 0, bad |->
  IF ~e.ok THEN <<"not parsed">>
  ELSE IF ~e.type THEN <<"type">>
  ELSE IF e.in.n \notin SimpleTags /\ Clean(e.raw, FALSE) # CloneOf(Norm(e.in, "")) THEN <<"clone", CloneOf(Norm(e.in, "")), Clean(e.raw, FALSE)>>
  ELSE IF ~e.same THEN <<"serialization differs">> ELSE IF ~e.kept THEN <<"original changed">>
  ELSE IF ~e.noparent THEN <<"clone has a parent">> ELSE IF ~e.disjoint THEN <<"shared element">>
  ELSE IF ~e.parts THEN <<"clone of a part">> ELSE IF ~e.parents THEN <<"parents within the clone">>
  ELSE IF ~e.indep1 THEN <<"change of the original shows in the clone">> ELSE IF ~e.indep2 THEN <<"change of the clone shows in the original">>
  ELSE IF ~e.outlives THEN <<"clone does not outlive the original">> ELSE <<>> ]
INSTANCE TraceJudge WITH Start <- StartK, Step <- StepK
=============================================================================
