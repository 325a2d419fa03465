---------------------------------- MODULE MCLife ----------------------------------
(* Every history of a small pool: attaching, removing, dropping and taking     *)
(* references, making and dropping a file.  What is reachable is never given   *)
(* up, what is not is gone for good, and nothing that is gone is used.         *)
EXTENDS Life, Json, IOUtils
CONSTANT N
Pools == [ a |-> [ ty |-> <<"Folder", "Folder", "Placemark", "Point">>, ids |-> <<"", "f", "x", "">> ],
           b |-> [ ty |-> <<"Document", "Style", "IconStyle", "Placemark">>, ids |-> <<"d", "s", "", "x">> ],
           c |-> [ ty |-> <<"Placemark", "Region", "Lod", "LatLonAltBox">>, ids |-> <<"", "x", "", "">> ] ]
Pool == Pools[IOEnv.POOL]
ty == Pool.ty
ids == Pool.ids
n == Len(ty)
VARIABLES s, h
ApiSlots(t) == { x \in { Slots(t)[i] : i \in 1..Len(Slots(t)) } : x.k \in {"e", "m"} /\ \E c \in 1..n : ty[c] \in x.ts }
Op(k, p, sl, c, i, id) == [ k |-> k, p |-> p, slot |-> sl.n, multi |-> sl.k = "m", c |-> c, i |-> i, id |-> id ]
Plain(k, p) == [ k |-> k, p |-> p, slot |-> "", multi |-> FALSE, c |-> 0, i |-> 0, id |-> "" ]
HasDel(p, sl) == sl.k = "m" /\ ty[p] \in {"Document", "Folder"} /\ sl.n \in {"Feature", "Schema", "StyleSelector"}
OpsOf(p) == UNION { { Op(IF sl.k = "m" THEN "add" ELSE "set", p, sl, c, 0, "") : c \in { x \in s.held : ty[x] \in sl.ts /\ x \notin Above(s.t, p) } }
                    \cup (IF sl.k = "e" THEN {Op("clear", p, sl, 0, 0, "")} ELSE {})
                    \cup { Op("hold", p, sl, 0, i, "") : i \in 0..(Len(Kids(s.t, p, sl.n)) - 1) }
                    \cup (IF HasDel(p, sl) THEN { Op("delat", p, sl, 0, i, "") : i \in 0..(Len(Kids(s.t, p, sl.n)) - 1) } ELSE {})
                  : sl \in ApiSlots(ty[p]) }
Ops == UNION { OpsOf(p) : p \in s.held } \cup { Plain("drop", p) : p \in s.held }
       \cup (IF Len(s.files) = 0 THEN { Plain("file", p) : p \in s.held } ELSE {})
       \cup (IF Len(s.files) = 1 /\ s.files[1].root # 0 THEN { Plain("dropfile", 1), Plain("root", 1) } ELSE {})
Init == s = LInit(n) /\ h = <<>>
Next == Len(h) < N /\ \E o \in Ops : LET t == LifeStep(s, o, ids, <<>>, TRUE).s IN t # s /\ s' = [t EXCEPT !.dead = (1..n) \ May(t)] /\ h' = Append(h, o)
View == s
\* an element that is gone is neither held, nor in the tree of one that is not
Inv == /\ s.dead \cap Must(s) = {} /\ Must(s) \subseteq May(s) /\ OnePlace(s.t) /\ Rooted(s.t)
GoneForGood == [][s.dead \subseteq s'.dead]_<<s, h>>
Emit == Len(h) >= 1 => PrintT("BEH " \o ToJson([ ty |-> ty, ids |-> ids, h |-> h ]))
Spec == Init /\ [][Next]_<<s, h>>
=============================================================================
