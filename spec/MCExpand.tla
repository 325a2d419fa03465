------------------------------- MODULE MCExpand -------------------------------
(* Design model: a text is a sequence of references and plain pieces; each    *)
(* is expanded on its own, whatever stands next to it and whatever the values *)
(* hold.                                                                      *)
EXTENDS Entities
CONSTANT N
VARIABLES parts, m
Vals == {"", "1", "$[a]", "$[b]", "long value"}
Pieces == {"$[a]", "$[b]", "$[z]", "t", "]", " "}
Init == parts = <<>> /\ m \in { {<<"a", v>>, <<"b", w>>} : v \in Vals, w \in Vals } \cup { {<<"a", v>>} : v \in Vals } \cup {{}}
Next == Len(parts) < N /\ \E p \in Pieces : parts' = Append(parts, p) /\ m' = m
One(p) == LET h == { e \in m : p = "$[" \o e[1] \o "]" } IN IF h = {} THEN p ELSE (CHOOSE e \in h : TRUE)[2]
Independent == Expand(Join(parts, ""), m, "$[", "]") = Join([ i \in 1..Len(parts) |-> One(parts[i]) ], "")
=============================================================================
