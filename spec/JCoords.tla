-------------------------------- MODULE JCoords --------------------------------
(* Judges coordinate parsing (driver handler "coords"). *)
EXTENDS Coords, KmlDom, TraceData
VARIABLES sc, pos, st, ok
StartC(r) == 0
Exp(r) == IF r.what = "coordinates" THEN Points(r.txt[1]) ELSE [ i \in 1..Len(r.txt) |-> Triple(r.txt[i]) ]
OutPts(x, what) == IF what = "coordinates" THEN Points(TextOf(x.c[1].c)) ELSE [ i \in 1..Len(x.c) |-> Triple(TextOf(x.c[i].c)) ]
StepC(r, s, e) ==
  [ s |-> 0, bad |->
    IF ~e.ok THEN <<"not parsed">>
    ELSE IF e.n # r.n THEN <<"number of points", r.n, e.n>>
    ELSE IF ~e.exact THEN <<"a number differs", e.pts>>
    ELSE IF ~e.same /\ ~r.nort THEN <<"points change over a round trip">>
    ELSE IF r.brief THEN <<>>
    ELSE LET w == Exp(r) IN
      IF ~r.api /\ e.pts # w THEN <<"points", w, e.pts>>
      ELSE IF e.n > 0 /\ ~r.wide /\ OutPts(e.raw, r.what) # e.pts THEN <<"raw output", e.pts, e.raw>>
      ELSE IF e.n > 0 /\ ~r.wide /\ OutPts(Clean(e.pretty, TRUE), r.what) # e.pts THEN <<"pretty output", e.pts, e.pretty>>
      ELSE <<>> ]
INSTANCE TraceJudge WITH Start <- StartC, Step <- StepC
=============================================================================
