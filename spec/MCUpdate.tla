------------------------------- MODULE MCUpdate -------------------------------
(***************************************************************************)
(* All short histories of update operations on a small file, with the      *)
(* guarantees of the design: every operation touches only its target's     *)
(* subtree or the list of its container.  Each history is printed for       *)
(* replay.                                                                  *)
(***************************************************************************)
EXTENDS Update, Json
CONSTANT N
VARIABLES s, h
El(n, m, id, c) == [ n |-> n, t |-> "", a |-> (IF id = "" THEN <<>> ELSE <<<<"id", id>>>>) \o (IF m = "" THEN <<>> ELSE <<<<"m", m>>>>), c |-> c ]
Doc == El("kml", "r", "", << El("Document", "1", "d", << El("Folder", "2", "f", <<El("Placemark", "3", "p", << Leaf("name", "P") >>)>>), El("Placemark", "4", "q", << >>) >>) >>)
Tg(n, id, c) == [ n |-> n, t |-> "", a |-> IF id = "" THEN <<>> ELSE <<<<"targetId", id>>>>, c |-> c ]
Op(k, x) == [ n |-> k, t |-> "", a |-> <<>>, c |-> <<x>> ]
TIds == {"d", "f", "p", "q", "zz", ""}
AllOps == { Op("Create", Tg("Folder", id, <<El("Placemark", "", nid, <<>>)>>)) : id \in {"d", "f", "p", ""}, nid \in {"p", "n"} }
     \cup { Op("Change", Tg("Placemark", id, <<Leaf("name", "N")>>)) : id \in TIds \ {"d"} }
     \cup { Op("Delete", Tg("Placemark", id, <<>>)) : id \in TIds }
Init == s = UInit(Doc) /\ h = <<>>
Next == Len(h) < N /\ \E o \in AllOps : s' = Ops(s, <<o>>, FALSE, <<>>) /\ h' = Append(h, o)
\* what the file knows never changes; marked elements never appear anew; a mark is never there twice
Marks(x) == { v.m : v \in { Nodes(x, "")[i] : i \in 1..Len(Nodes(x, "")) } } \ {""}
Safe == [][ s'.known = s.known /\ Marks(s'.doc) \subseteq Marks(s.doc) /\ (Len(Nodes(s'.doc, "")) - Len(Nodes(s.doc, ""))) <= 1 ]_<<s, h>>
Inv == s.doc.n = "kml" /\ Cardinality(Marks(s.doc)) = Len(SelectSeq(Nodes(s.doc, ""), LAMBDA v : v.m # ""))
Emit == Len(h) = N => PrintT("BEH " \o ToJson([ doc |-> Doc, h |-> h ]))
=============================================================================
