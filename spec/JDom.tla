--------------------------------- MODULE JDom ---------------------------------
(* Judges executions of parse and serialize (driver handler "dom"). *)
EXTENDS OldSchema, TraceData
VARIABLES sc, pos, st, ok
StartDom(r) == 0
StepDom(r, s, e) ==
  LET in == e.in
      good == in.n # "!malformed" /\ Known(in.n) /\ Depth(in) <= MaxDepth
      want == Norm(IF r.old THEN Old(in) ELSE in, "")
      isField == in.n \in SimpleTags
  IN [ s |-> 0, bad |->
       IF e.ok # good THEN <<"accept", good, e.ok>>
       ELSE IF ~e.ok THEN (IF e.err THEN <<>> ELSE <<"no error text">>)
       ELSE IF isField THEN <<>>
       ELSE IF e.pretty.n = "!malformed" \/ e.raw.n = "!malformed" THEN <<"malformed output">>
       ELSE IF Clean(e.raw, FALSE) # want THEN <<"raw", want, Clean(e.raw, FALSE)>>
       ELSE IF Clean(e.pretty, TRUE) # Blanked(want) THEN <<"pretty", Blanked(want), Clean(e.pretty, TRUE)>>
       ELSE IF ~e.again /\ ~r.old THEN <<"second round trip differs">>
       ELSE <<>> ]
INSTANCE TraceJudge WITH Start <- StartDom, Step <- StepDom
=============================================================================
