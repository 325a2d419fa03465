-------------------------------- MODULE MCTree --------------------------------
(* Every reachable arrangement of a small pool of elements, each with the   *)
(* history that led to it and the operations to try next (printed; the      *)
(* conformance check runs each history followed by each operation).         *)
EXTENDS KmlTree, Json, IOUtils
CONSTANT N
Pools == [ a |-> [ ty |-> <<"kml", "Document", "Folder", "Placemark", "Placemark", "Style">>, ids |-> <<"", "d", "f", "x", "x", "s">> ],
           b |-> [ ty |-> <<"Document", "Style", "StyleMap", "Schema", "Schema", "Placemark">>, ids |-> <<"", "s", "s", "", "q", "p">> ],
           c |-> [ ty |-> <<"Placemark", "Placemark", "Point", "LineString", "MultiGeometry", "coordinates">>, ids |-> <<"", "", "", "", "", "">> ],
           d |-> [ ty |-> <<"Folder", "Folder", "Placemark", "Placemark", "Placemark">>, ids |-> <<"", "", "x", "y", "x">> ],
           e |-> [ ty |-> <<"Region", "Region", "Lod", "Lod", "LatLonAltBox", "Folder">>, ids |-> <<"", "", "", "l", "", "">> ],
           f |-> [ ty |-> <<"Folder", "Placemark", "Placemark">>, ids |-> <<"", "x", "y">> ] ]
Pool == Pools[IOEnv.POOL]
ty == Pool.ty
ids == Pool.ids
n == Len(ty)
VARIABLES s, h
CoordSlot == [k |-> "e", n |-> "coordinates", v |-> "", ts |-> {"coordinates"}]
ApiSlots(t) == IF t = "coordinates" THEN {} ELSE
   { x \in { Slots(t)[i] : i \in 1..Len(Slots(t)) } : x.k \in {"e", "m"} } \cup (IF t \in {"Point", "LineString", "LinearRing", "gx:LatLonQuad"} THEN {CoordSlot} ELSE {})
Op(k, p, sl, c, i, id) == [ k |-> k, p |-> p, slot |-> sl.n, multi |-> sl.k = "m", c |-> c, i |-> i, id |-> id ]
HasDel(sl) == sl.k = "m" /\ sl.n \in {"Feature", "Schema", "StyleSelector"}
Useful(sl) == \E c \in 1..n : ty[c] \in sl.ts
OpsOf(p) == UNION { { Op(IF sl.k = "m" THEN "add" ELSE "set", p, sl, c, 0, "") : c \in { x \in 1..n : ty[x] \in sl.ts /\ x \notin Above(s, p) } }
                    \cup (IF sl.k = "e" THEN {Op("clear", p, sl, 0, 0, ""), Op("null", p, sl, 0, 0, "")} ELSE {Op("null", p, sl, 0, 0, "")})
                    \cup (IF HasDel(sl) THEN { Op("delat", p, sl, 0, i, "") : i \in 0..Len(Kids(s, p, sl.n)) } ELSE {})
                    \cup (IF HasDel(sl) /\ sl.n = "Feature" THEN { Op("delid", p, sl, 0, 0, id) : id \in {"x", "f", "", "zz"} } ELSE {})
                  : sl \in { z \in ApiSlots(ty[p]) : Useful(z) } }
FileOps == IF IOEnv.POOL # "f" THEN {} ELSE { Op("file", p, CoordSlot, 0, i, "") : p \in 1..n, i \in 0..2 }
Ops == FileOps \cup UNION { OpsOf(p) : p \in 1..n }
Init == s = TInit(n) /\ h = <<>>
Next == Len(h) < N /\ \E o \in Ops : s' = TreeStep(s, o, ids).s /\ s' # s /\ h' = Append(h, o)
View == s
Inv == OnePlace(s) /\ Agree(s) /\ Rooted(s)
Emit == PrintT("BEH " \o ToJson([ ty |-> ty, ids |-> ids, h |-> h, noop |-> { o \in Ops : TreeStep(s, o, ids).s = s }, next |-> { o \in Ops : TreeStep(s, o, ids).s # s } ]))
Spec == Init /\ [][Next]_<<s, h>>
=============================================================================
