------------------------------ MODULE TraceJudge ------------------------------
(***************************************************************************)
(* Trace validation.  A trace is a recorded execution: a start record and  *)
(* a sequence ev of events, each holding the arguments and the observed    *)
(* results of one call of the real code.  Start gives the specification's  *)
(* state before the first event, Step the specification's next state and   *)
(* the list of disagreements with what was observed.  There is one initial *)
(* state per trace; a disagreement is printed and ends that trace only.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, TraceData
CONSTANTS Start(_), Step(_,_,_)
VARIABLES sc, pos, st, ok
Init == sc \in 1..Len(Trace) /\ pos = 0 /\ st = Start(Trace[sc]) /\ ok = TRUE
Next == /\ ok /\ pos < Len(Trace[sc].ev)
        /\ sc' = sc /\ pos' = pos + 1
        /\ LET r == Step(Trace[sc], st, Trace[sc].ev[pos + 1]) IN
             IF r.bad = <<>> THEN st' = r.s /\ ok' = TRUE
             ELSE PrintT("REJECT " \o ToJson(<<Trace[sc].id, pos + 1, r.bad>>)) /\ st' = st /\ ok' = FALSE
=============================================================================
