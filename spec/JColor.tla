---------------------------------- MODULE JColor ----------------------------------
(* Judges histories of a colour (driver "color"). *)
EXTENDS Colors, TraceData
VARIABLES sc, pos, st, ok
Start0(r) == <<255, 255, 255, 255>>
StepC(r, s, e) ==
  LET c == CStep(s, e.op) IN
  [ s |-> c, bad |->
    IF e.c # c THEN <<"colour", c, e>>
    ELSE IF e.texts # <<TextOfColor(c), TextOfColor(Swap(c))>> THEN <<"text", e>>
    ELSE IF e.words # <<c, Swap(c)>> THEN <<"words", e>>
    ELSE IF e.cmp # <<c = s, c # s, Less(c, s), Less(s, c)>> THEN <<"comparison", s, e>> ELSE <<>> ]
INSTANCE TraceJudge WITH Start <- Start0, Step <- StepC
=============================================================================
