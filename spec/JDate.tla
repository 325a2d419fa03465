---------------------------------- MODULE JDate ----------------------------------
(* Judges dates (driver "date"). *)
EXTENDS Civil, TraceData
VARIABLES sc, pos, st, ok
Start0(r) == <<>>
StepD(r, s, e) ==
  LET t == e.text good == WellFormed(t) /\ InRange(t) IN
  [ s |-> s, bad |->
    IF good /\ ~e.ok THEN <<"refused", t>>
    ELSE IF ~good /\ e.ok THEN <<"accepted", t>>
    ELSE IF ~good THEN (IF e.tot = <<0, 0>> THEN <<>> ELSE <<"time of no date", e>>)
    ELSE IF e.t # TimeOf(t) \/ e.tot # TimeOf(t) THEN <<"time", TimeOf(t), e>>
    ELSE IF e.out # <<SubSeq(t, 1, 10), SubSeq(t, 12, 19), t>> THEN <<"written", e>> ELSE <<>> ]
INSTANCE TraceJudge WITH Start <- Start0, Step <- StepD
=============================================================================
