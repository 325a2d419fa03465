-------------------------------- MODULE JUpdate --------------------------------
(* Judges histories of updates (driver "update"). *)
EXTENDS Update, TraceData
VARIABLES sc, pos, st, ok
StartU(r) == UInit(Norm(r.in, ""))
StepU(r, s, e) ==
  LET t == Process(s, Norm(e.u, ""), e.usemap, r.map)
      got == SetForm(Clean(e.doc, FALSE))
  IN [ s |-> t, bad |->
       IF got # SetForm(t.doc) THEN <<"document", SetForm(t.doc), got>>
       ELSE IF ~e.kept THEN <<"the update was changed">>
       ELSE IF ~e.disjoint THEN <<"the update is shared with the document">> ELSE <<>> ]
INSTANCE TraceJudge WITH Start <- StartU, Step <- StepU
=============================================================================
