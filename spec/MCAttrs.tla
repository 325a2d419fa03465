---------------------------------- MODULE MCAttrs ----------------------------------
(* Every short history of three attribute lists. *)
EXTENDS Attrs, Json
CONSTANT N
Names == {"a", "p:a", "p:"}
Vals == {"1", "x"}
VARIABLES s, h
Ops == { <<"set", w, n, "str", v>> : w \in 0..1, n \in Names, v \in Vals } \cup { <<"cut", w, n, "str">> : w \in 0..1, n \in Names } \cup { <<"merge", w, 1 - w>> : w \in 0..1 }
       \cup { <<"clone", w, 1 - w>> : w \in 0..1 } \cup { <<"split", w, "p", 2>> : w \in 0..1 } \cup { <<"merge", 0, 2>>, <<"createv", 1, <<"a", "1", "a", "x", "p:a">>>> }
Init == s = <<<<>>, <<>>, <<>>>> /\ h = <<>>
Next == Len(h) < N /\ \E o \in Ops : s' = AStep(s, o).s /\ h' = Append(h, o)
View == s
\* a split loses nothing: the rest and the split out part, prefixed again, are the list
SplitExact == \A w \in 1..3 : LET k == Keep(s[w], "p") q == SplitOut(s[w], "p") IN s[w] = [ n \in DOMAIN k \cup { "p:" \o x : x \in DOMAIN q } |-> IF n \in DOMAIN k THEN k[n] ELSE q[Strip(n, "p")] ]
MergeWins == \A w, v \in 1..3 : LET m == s[v] @@ s[w] IN DOMAIN m = DOMAIN s[v] \cup DOMAIN s[w] /\ \A n \in DOMAIN s[v] : m[n] = s[v][n]
Emit == h # <<>> => PrintT("BEH " \o ToJson(h))
=============================================================================
