---------------------------------- MODULE MCColor ----------------------------------
(* Every short history of the bytes of a colour; its text reads back. *)
EXTENDS Colors, Json
CONSTANT N
B == {0, 10, 255}
VARIABLES c, h
Init == c = <<255, 255, 255, 255>> /\ h = <<>>
Ops == { <<k, v>> : k \in {"a", "b", "g", "r"}, v \in B } \cup { <<"argb", <<1, 35, 69, 103>>>>, <<"text", "#0a1B2c3D">>, <<"text", " f">>, <<"abgr", <<254, 220, 186, 152>>>> }
Next == Len(h) < N /\ \E o \in Ops : c' = CStep(c, o) /\ h' = Append(h, o)
View == c
ReadsBack == OfText(TextOfColor(c)) = c /\ Swap(Swap(c)) = c /\ OfText(TextOfColor(Swap(c))) = Swap(c)
Emit == h # <<>> => PrintT("BEH " \o ToJson(h))
=============================================================================
