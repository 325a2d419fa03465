--------------------------------- MODULE JParse -------------------------------
(***************************************************************************)
(* Judges parses: the scenario's tokens and refusals are run through the   *)
(* parser state machine and compared with what the real parser delivered.  *)
(* ev: one entry per way of feeding the same document (as one string, in    *)
(* pieces, from a stream); all of them must agree with the machine.         *)
(* cut: the number of tokens the source delivered before it ended or failed *)
(***************************************************************************)
EXTENDS KmlParse, TraceData
VARIABLES sc, pos, st, ok
StartParse(r) == FeedAll(PInit, r.toks, 1, r.plan, r.nobs)
StepParse(r, p, e) ==
  LET good == Accepted(p) /\ ~e.fault IN
  [ s |-> p, bad |->
     IF e.ok # good THEN <<"accept", e.how, good, e.ok>>
     ELSE IF e.shown # good THEN <<"success reported", e.how, good, e.shown>>
     ELSE IF ~e.ok /\ ~e.err THEN <<"no error text", e.how>>
     ELSE IF e.ok /\ e.err THEN <<"error text on success", e.how>>
     ELSE IF e.fault /\ e.nobs = r.nobs /\ ~(Len(e.log) <= Len(p.log) /\ SubSeq(p.log, 1, Len(e.log)) = e.log) THEN <<"callbacks before the fault", e.how, p.log, e.log>>
     ELSE IF ~e.fault /\ e.nobs = r.nobs /\ e.log # p.log THEN <<"callbacks", e.how, p.log, e.log>>
     ELSE IF e.ok /\ p.root.n \notin SimpleTags /\ Clean(e.raw, FALSE) # Result(p) THEN <<"document", e.how, Result(p), Clean(e.raw, FALSE)>>
     ELSE <<>> ]
INSTANCE TraceJudge WITH Start <- StartParse, Step <- StepParse
=============================================================================
