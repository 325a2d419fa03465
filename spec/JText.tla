--------------------------------- MODULE JText --------------------------------
(***************************************************************************)
(* Judges serialization of text: the string s was put into element ty, in  *)
(* its field fld, its attribute at, or as its own text.  An XML reader of  *)
(* the output must see exactly that one-value tree, and so must the        *)
(* library's own reader.                                                   *)
(***************************************************************************)
EXTENDS KmlDom, TraceData
VARIABLES sc, pos, st, ok
Want(e) == [ n |-> e.ty, t |-> "", a |-> IF e.at = "" THEN <<>> ELSE << <<e.at, e.s>> >>,
             c |-> IF e.fld # "" THEN << Leaf(e.fld, e.s) >> ELSE IF e.at = "" /\ e.s # "" THEN << TextNode(e.s) >> ELSE <<>> ]
StartText(r) == 0
StepText(r, s, e) ==
  LET w == Want(e)
      blankText == e.fld = "" /\ e.at = "" /\ IsBlank(e.s)   \* the pretty printer may lay out a blank text
  IN [ s |-> 0, bad |->
       IF ~e.ok THEN <<"not created">>
       ELSE IF e.raw.n = "!malformed" \/ e.pretty.n = "!malformed" THEN <<"malformed output">>
       ELSE IF Clean(e.raw, FALSE) # w THEN <<"raw", w, e.raw>>
       ELSE IF Clean(e.pretty, TRUE) # Blanked(w) THEN <<"pretty", Blanked(w), e.pretty>>
       ELSE IF e.get # e.s THEN <<"getter", e.s, e.get>>
       ELSE IF e.back # e.s THEN <<"read back from raw", e.s, e.back>>
       ELSE IF e.backp # e.s /\ ~blankText THEN <<"read back from pretty", e.s, e.backp>>
       ELSE <<>> ]
INSTANCE TraceJudge WITH Start <- StartText, Step <- StepText
=============================================================================
