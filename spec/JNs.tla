------------------------------------ MODULE JNs ------------------------------------
(* Judges namespace-aware parsing (driver "nsparse"): e.in is the document with *)
(* the prefixes that the specification names elements with.                    *)
EXTENDS KmlDom, TraceData
VARIABLES sc, pos, st, ok
Start0(r) == <<>>
StepN(r, s, e) ==
  LET good == e.in.n # "!malformed" IN
  [ s |-> s, bad |-> IF e.ok # good THEN <<"accepted", e.ok>> ELSE IF ~good THEN (IF e.err THEN <<>> ELSE <<"no error">>)
                     ELSE IF Clean(e.raw, FALSE) # Norm(e.in, "") THEN <<"document", Norm(e.in, ""), Clean(e.raw, FALSE)>> ELSE <<>> ]
INSTANCE TraceJudge WITH Start <- Start0, Step <- StepN
=============================================================================
