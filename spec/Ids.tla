---------------------------------- MODULE Ids ----------------------------------
(***************************************************************************)
(* Ids of a document.  Nodes(x) is the list of the recognised structured   *)
(* elements of a tree, parents before children, each with its type, its     *)
(* own mark "m", its id and the tag of its parent.                          *)
(***************************************************************************)
EXTENDS KmlDom
AttrOf(x, k) == LET h == { i \in 1..Len(x.a) : x.a[i][1] = k } IN IF h = {} THEN <<FALSE, "">> ELSE <<TRUE, x.a[CHOOSE i \in h : TRUE][2]>>
IsObj(ty) == ty \in Objects \/ ty = "IconStyleIcon"
RECURSIVE Nodes(_,_), NodesOf(_,_)
Nodes(x, parent) ==
  IF x.n = "#" \/ x.n \in SimpleTags \/ ~Known(x.n) THEN <<>>
  ELSE LET ty == TypeOf(x.n, parent) id == AttrOf(x, "id") IN
       <<[ ty |-> ty, m |-> AttrOf(x, "m")[2], has |-> IsObj(ty) /\ id[1], id |-> id[2], par |-> parent ]>> \o NodesOf(x.c, ty)
NodesOf(cs, ty) == IF cs = <<>> THEN <<>> ELSE Nodes(Head(cs), ty) \o NodesOf(Tail(cs), ty)
Named(x) == SelectSeq(Nodes(x, ""), LAMBDA v : v.has)
Shared(x) == SelectSeq(Nodes(x, ""), LAMBDA v : v.has /\ v.ty \in StyleSelectors /\ v.par = "Document")
\* the last one with the id wins; "" for none
LastOf(q, id) == LET h == { i \in 1..Len(q) : q[i].id = id } IN IF h = {} THEN "" ELSE q[CHOOSE i \in h : \A j \in h : j <= i].m
IdsIn(q) == { q[i].id : i \in 1..Len(q) }
MapOf(q) == { <<id, LastOf(q, id)>> : id \in IdsIn(q) }
\* those displaced by a later one, in the order of displacement
Displaced(q) == LET later(i) == { j \in 1..Len(q) : j > i /\ q[j].id = q[i].id }
                    nxt(i) == CHOOSE j \in later(i) : \A k \in later(i) : j <= k
                    from(j) == { i \in 1..Len(q) : later(i) # {} /\ nxt(i) = j }
                IN Concat([ j \in 1..Len(q) |-> IF from(j) = {} THEN <<>> ELSE <<q[CHOOSE i \in from(j) : TRUE].m>> ])
HasDup(x) == Cardinality(IdsIn(Named(x))) # Len(Named(x))
\* the tree with the id of every object in the set of marks changed
RECURSIVE WithIds(_,_,_,_)
WithIds(x, parent, ms, f) ==
  IF x.n = "#" \/ x.n \in SimpleTags \/ ~Known(x.n) THEN x
  ELSE LET ty == TypeOf(x.n, parent)
           mine == IsObj(ty) /\ AttrOf(x, "id")[1] /\ AttrOf(x, "m")[2] \in ms
           id == AttrOf(x, "id")[2]
           as == IF ~mine THEN x.a ELSE IF id \in DOMAIN f THEN [ i \in 1..Len(x.a) |-> IF x.a[i][1] = "id" THEN <<"id", f[id]>> ELSE x.a[i] ]
                 ELSE SelectSeq(x.a, LAMBDA kv : kv[1] # "id")
       IN [x EXCEPT !.a = as, !.c = [ i \in 1..Len(x.c) |-> WithIds(x.c[i], ty, ms, f) ]]
=============================================================================
