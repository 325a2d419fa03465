------------------------------ MODULE DumpSchema ------------------------------
(* Writes the vocabulary of KmlSchema as JSON for the scenario generator. *)
EXTENDS KmlSchema, Json, IOUtils
VARIABLE done
Rec == [ types |-> [ i \in 1..Len(TypeTable) |->
           [ n |-> TypeTable[i][1], obj |-> TypeTable[i][1] \in Objects,
             attrs |-> [ j \in 1..Len(OwnAttrs(TypeTable[i][1])) |->
                <<OwnAttrs(TypeTable[i][1])[j], AttrKind(TypeTable[i][1], OwnAttrs(TypeTable[i][1])[j])>> ],
             slots |-> Slots(TypeTable[i][1]) ] ],
         enums |-> [ k \in EnumKinds |-> EnumTable[k] ], simple |-> SimpleTags, text |-> TextTypes ]
Init == done = JsonSerialize(IOEnv.OUT, <<Rec>>)
Next == UNCHANGED done
=============================================================================
