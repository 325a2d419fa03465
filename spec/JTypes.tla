---------------------------------- MODULE JTypes ----------------------------------
(* Judges the type table (driver "types") and the types of the elements of    *)
(* parsed documents (driver "typesof").                                       *)
EXTENDS Types, TraceData
VARIABLES sc, pos, st, ok
S(q) == Range(q)
Vals(e) == IF e.n \in EnumTags THEN EnumTable[EnumOf(e.n)] ELSE <<>>
\* position 1 of the list is the value of -1
EnumOk(e) == LET v == Vals(e) IN
  /\ Len(e.enums) = 13
  /\ \A i \in 1..13 : e.enums[i] = (IF i > 1 /\ i - 1 <= Len(v) THEN v[i - 1] ELSE "")
  /\ e.ids = [ i \in 1..Len(v) |-> i - 1 ]
  /\ e.bad
Of(ty, e) == IF S(e.isa) # IsAs(ty) THEN <<"isa", ty, e.isa>> ELSE IF S(e.casts) # Casts(ty) THEN <<"casts", ty, e.casts>>
             ELSE IF e.visit # Visits(ty) \/ ~e.same THEN <<"visit", ty, e.visit>> ELSE <<>>
Tag(ty) == IF ty = "IconStyleIcon" THEN "Icon" ELSE ty
Fresh(ty) == "<" \o Tag(ty) \o (IF ty \in {"Snippet", "linkSnippet"} THEN "></" \o Tag(ty) \o ">" ELSE "/>")
Row(e) ==
  IF ~EnumOk(e) THEN <<"enum", e.n, e.enums, e.ids>>
  ELSE IF e.n \in All THEN
    IF e.kind # 1 \/ ~e.made \/ e.type # e.n THEN <<"made", e>>
    ELSE IF Of(e.n, e) # <<>> THEN Of(e.n, e)
    ELSE IF e.tag # Tag(e.n) \/ e.backname # Tag(e.n) \/ e.named # Tag(e.n) \/ e.parsed # Tag(e.n) THEN <<"names", e>>
    ELSE IF e.own # e.n \/ e.own_text # Fresh(e.n) THEN <<"factory function", e>>
    ELSE IF e.fresh_text # Fresh(e.n) THEN <<"fresh", e>> ELSE <<>>
  ELSE IF e.n = "" THEN IF e.made \/ e.named # "" \/ e.parsed # "" THEN <<"not a type", e>> ELSE <<>>
  ELSE IF e.n \notin AbstractTags \cup SimpleTags THEN <<"unknown name", e>>
  ELSE IF e.made \/ e.named # "" \/ e.isa # <<>> \/ e.casts # <<>> THEN <<"made", e>>
  ELSE IF e.backname # e.n \/ e.tag # e.n THEN <<"names", e>>
  ELSE IF e.parsed # (IF e.n \in AbstractTags THEN "" ELSE e.n) THEN <<"parsed", e>>
  ELSE IF e.kind # (IF e.n \in AbstractTags THEN 1 ELSE 0) THEN <<"kind", e>> ELSE <<>>
\* e.ty of an element of a document is its tag; an icon of an icon style has a type of its own
Elem(e) == LET ty == IF e.tag = "Icon" /\ e.parent = "IconStyle" /\ ~e.misplaced THEN "IconStyleIcon" ELSE e.tag IN
  IF e.ty # ty THEN <<"type", e>> ELSE Of(ty, e)
Missing(r) == (All \cup AbstractTags \cup SimpleTags) \ S(r.names)
StepT(r, s, e) == [ s |-> 0, bad |-> IF "names" \in DOMAIN r /\ Missing(r) # {} THEN <<"missing types", Missing(r)>> ELSE IF "kind" \in DOMAIN e THEN Row(e) ELSE Elem(e) ]
Init0(r) == 0
INSTANCE TraceJudge WITH Start <- Init0, Step <- StepT
=============================================================================
