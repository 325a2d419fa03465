-------------------------------- MODULE MCPack --------------------------------
(***************************************************************************)
(* Every link of up to N segments over a few names, dot segments and both   *)
(* separators, packed from a directory with files of the same names above   *)
(* it.  Whatever the link, what is packed is a file below the base.         *)
(***************************************************************************)
EXTENDS Kmz, Json, TLC
CONSTANT N
VARIABLES l, n
Files == << <<"i.png", "I">>, <<"a/i.png", "AI">>, <<"a/b/i.png", "ABI">> >>
Init == l = "" /\ n = 0
Next == n < N /\ n' = n + 1 /\ \E g \in {"a", "b", "..", ".", "i.png"}, s \in (IF n = 0 THEN {"", "/"} ELSE {"/", "\\"}) : l' = l \o s \o g
P == Pack(Files, "K", <<l>>)
Inv == /\ P.z[1] = <<"doc.kml", "K">> /\ Len(P.z) <= 2
       /\ \A i \in 2..Len(P.z) : /\ CanAdd(P.z[i][1]) /\ \E j \in DOMAIN Files : Files[j] = P.z[i]
                                 /\ ".." \notin { SplitAll(P.z[i][1], 1, "")[k] : k \in 1..Len(SplitAll(P.z[i][1], 1, "")) }
       /\ P.errors = (IF Len(P.z) = 2 THEN 0 ELSE 1)
       /\ Pack(Files, "K", <<l, l>>).z = P.z
Emit == n > 0 => PrintT("BEH " \o ToJson(l))
=============================================================================
