-------------------------------- MODULE JStyle --------------------------------
(* Judges style resolution (driver "resolve").  One event per feature and   *)
(* state.                                                                    *)
EXTENDS Styles, TraceData
VARIABLES sc, pos, st, ok
StartS(r) == 0
RECURSIVE Marked(_,_)
Marked(x, m) == IF x.n = "#" THEN {} ELSE (IF AttrOf(x, "m") = <<TRUE, m>> THEN {x} ELSE {}) \cup UNION { Marked(x.c[i], m) : i \in 1..Len(x.c) }
StepS(r, s, e) ==
  LET fs == Marked(Norm(r.web[1].doc, ""), e.m)
      x == CHOOSE x \in fs : TRUE
      want == SetForm(Resolve(r.web, 1, r.remote, x, e.key))
      got == SetForm(Clean(e.style, FALSE))
  IN [ s |-> 0, bad |->
       IF fs = {} THEN <<"unknown feature">>
       ELSE IF got # want THEN <<"style", want, got>>
       ELSE IF ~e.kept THEN <<"document changed">> ELSE IF ~e.disjoint THEN <<"style shared with the document">>
       ELSE IF ~e.noparent THEN <<"style has a parent">> ELSE IF ~e.agree THEN <<"ways to resolve disagree">> ELSE <<>> ]
INSTANCE TraceJudge WITH Start <- StartS, Step <- StepS
=============================================================================
