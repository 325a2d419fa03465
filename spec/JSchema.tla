------------------------------- MODULE JSchema -------------------------------
(* Judges schemas by name and their instances (driver "oldschema").          *)
EXTENDS SchemaUse, TraceData
VARIABLES sc, pos, st, ok
StartS(r) == {}
StepS(r, s, e) ==
  IF e.k = "doc" THEN
    LET x == Old(e.in)
        ss == Schemas(x)
        ns == SchemaNames(ss)
        got == { e.names[i][1] : i \in 1..Len(e.names) }
        wrong == { i \in 1..Len(e.names) : e.names[i][1] \in ns /\ Clean(e.names[i][2], FALSE) # Norm(SchemaOf(ss, e.names[i][1]), "Document") }
        want == Norm(Converted(x, ns, TRUE), "")
    IN [ s |-> ns, bad |-> IF ~e.ok THEN <<"not parsed">> ELSE IF got # ns THEN <<"names", ns, got>>
           ELSE IF wrong # {} THEN <<"schema", e.names[CHOOSE i \in wrong : TRUE]>>
           ELSE IF Clean(e.raw, FALSE) # want THEN <<"converted", want, Clean(e.raw, FALSE)>> ELSE <<>> ]
  ELSE
    LET is == e.in.n \in s IN
    [ s |-> s, bad |-> IF e.null THEN <<"nowhere to store">> ELSE IF e.in.n = "!malformed" THEN <<>>
        ELSE IF e.ok # is \/ e.placemark # is THEN <<"instance", is, e>>
        ELSE IF ~is THEN (IF e.kept THEN <<>> ELSE <<"output changed", e>>)
        ELSE IF e.out # AsPlacemark(e.in) THEN <<"text", e>>
        ELSE IF Clean(e.raw, FALSE) # Norm(AsPlacemark(e.in), "") THEN <<"placemark", e>> ELSE <<>> ]
INSTANCE TraceJudge WITH Start <- StartS, Step <- StepS
=============================================================================
