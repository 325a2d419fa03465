------------------------------- MODULE KmlTree -------------------------------
(***************************************************************************)
(* Element trees under the API.  Elements are 1..n with types ty[i] and ids *)
(* ids[i] ("" for none).  A state has, per element, the parent that accepted *)
(* it (0 for none; never given up again) and, per parent and slot, the      *)
(* children now there, in order.  An element is in at most one file (0 for  *)
(* none), for good, and accepts only children in the same file.             *)
(***************************************************************************)
EXTENDS KmlDom
TInit(n) == [ par |-> [ i \in 1..n |-> 0 ], kids |-> << >>, file |-> [ i \in 1..n |-> 0 ] ]
Kids(s, p, sl) == IF <<p, sl>> \in DOMAIN s.kids THEN s.kids[<<p, sl>>] ELSE <<>>
PutKids(s, p, sl, q) == [s EXCEPT !.kids = IF q = <<>> THEN [ x \in DOMAIN s.kids \ {<<p, sl>>} |-> s.kids[x] ] ELSE (<<p, sl>> :> q) @@ s.kids]
Free(s, c, p) == s.par[c] = 0 /\ s.file[c] = s.file[p]
RemoveAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
IndexId(q, ids, id) == LET h == { i \in 1..Len(q) : ids[q[i]] = id /\ id # "" } IN IF h = {} THEN 0 ELSE CHOOSE i \in h : \A j \in h : i <= j
\* op: [k, p, slot, c, i, id].  The outcome: new state and returned element (0: none).
Same(s) == [ s |-> s, res |-> 0 ]
TreeStep(s, op, ids) ==
  LET q == Kids(s, op.p, op.slot) IN
  CASE op.k = "set" -> IF Free(s, op.c, op.p) THEN [ s |-> PutKids([s EXCEPT !.par[op.c] = op.p], op.p, op.slot, <<op.c>>), res |-> 0 ] ELSE Same(s)
    [] op.k = "add" -> IF Free(s, op.c, op.p) THEN [ s |-> PutKids([s EXCEPT !.par[op.c] = op.p], op.p, op.slot, Append(q, op.c)), res |-> 0 ] ELSE Same(s)
    [] op.k = "file" -> IF s.file[op.p] = 0 /\ op.i # 0 THEN [ s |-> [s EXCEPT !.file[op.p] = op.i], res |-> 1 ] ELSE Same(s)
    [] op.k = "clear" -> [ s |-> PutKids(s, op.p, op.slot, <<>>), res |-> 0 ]
    [] op.k = "null" -> IF op.multi THEN Same(s) ELSE [ s |-> PutKids(s, op.p, op.slot, <<>>), res |-> 0 ]
    [] op.k = "delat" -> IF op.i < Len(q) THEN [ s |-> PutKids(s, op.p, op.slot, RemoveAt(q, op.i + 1)), res |-> q[op.i + 1] ] ELSE Same(s)
    [] op.k = "delid" -> LET i == IndexId(q, ids, op.id) IN
         IF i = 0 THEN Same(s) ELSE [ s |-> PutKids(s, op.p, op.slot, RemoveAt(q, i)), res |-> q[i] ]
\* c may go under p: p is not below (or equal to) c
RECURSIVE Above(_,_)
Above(s, p) == IF p = 0 THEN {} ELSE {p} \cup Above(s, s.par[p])
Attached(s) == UNION { { s.kids[x][i] : i \in 1..Len(s.kids[x]) } : x \in DOMAIN s.kids }
KidSet(s) == { <<x[1], x[2], s.kids[x]>> : x \in DOMAIN s.kids }
\* the document of element i when all simple values are unset
CTag(t) == IF t = "IconStyleIcon" THEN "Icon" ELSE t
RECURSIVE TreeOf(_,_,_,_)
SlotNames(t) == [ i \in 1..Len(Slots(t)) |-> Slots(t)[i].n ]
TreeOf(s, ty, ids, i) ==
  LET sl == IF ty[i] = "coordinates" THEN <<>> ELSE SlotNames(ty[i]) IN
  [ n |-> CTag(ty[i]), t |-> "", a |-> IF ids[i] = "" THEN <<>> ELSE <<<<"id", ids[i]>>>>,
    c |-> Concat([ k \in 1..Len(sl) |-> LET q == Kids(s, i, sl[k]) IN [ j \in 1..Len(q) |-> TreeOf(s, ty, ids, q[j]) ] ]) ]
\* Invariants of the design (an element may join a file after its parent did)
OnePlace(s) == \A x, y \in DOMAIN s.kids : \A i \in 1..Len(s.kids[x]), j \in 1..Len(s.kids[y]) : s.kids[x][i] = s.kids[y][j] => x = y /\ i = j
Agree(s) == \A x \in DOMAIN s.kids : \A i \in 1..Len(s.kids[x]) : s.par[s.kids[x][i]] = x[1]
Rooted(s) == \A i \in DOMAIN s.par : i \notin Above(s, s.par[i])
=============================================================================
