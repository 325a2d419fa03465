------------------------------------ MODULE MCStrs ------------------------------------
(* Every short text over a few characters: laws of the helpers.  Emits the texts. *)
EXTENDS Strs, Json
CONSTANT N
VARIABLE t
Chars == {"-", ".", "1", "0", " ", "a", "A"}
Init == t = ""
Next == Len(t) < N /\ \E c \in Chars : t' = t \o c
Seps == {"a", ".", "-.", "aa", "", "1"}
JoinBack == \A p \in Seps : Join(Pieces(t, p), p) = t /\ \A i \in 1..Len(Pieces(t, p)) : p = "" \/ ~Contains(Pieces(t, p)[i], p)
Suffix == \A p \in Seps : Ends(t \o p, p) <=> (p # "")
Case == SameText(t, LowerS(t))
Num == Numeric(t) => WholeOf(t) \in -1111..1111
Ident == Expand(t, <<>>, "$[", "]") = t /\ Expand("$[k]" \o t, <<<<"k", t>>>>, "$[", "]") = t \o t
Emit == PrintT("BEH " \o ToJson(<<t>>))
=============================================================================
