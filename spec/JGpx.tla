------------------------------------ MODULE JGpx ------------------------------------
(* Judges track points (driver "gpx"). *)
EXTENDS Gpx, TraceData
VARIABLES sc, pos, st, ok
Start0(r) == <<>>
StepG(r, s, e) ==
  LET good == e.doc.n # "!malformed"
      w == IF good THEN TrackPoints(e.doc) ELSE <<>>
      got == [ i \in 1..Len(e.out) |-> <<CanonNum(e.out[i][1]), CanonNum(e.out[i][2]), IF e.out[i][3] = "-" THEN "-" ELSE CanonNum(e.out[i][3]), e.out[i][4]>> ]
  IN [ s |-> s, bad |-> IF e.ok # good THEN <<"accepted", e.ok>> ELSE IF good /\ got # w THEN <<"points", w, got>> ELSE <<>> ]
INSTANCE TraceJudge WITH Start <- Start0, Step <- StepG
=============================================================================
