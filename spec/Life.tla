----------------------------------- MODULE Life -----------------------------------
(***************************************************************************)
(* Lifetimes.  To the tree of KmlTree comes who holds what: smart pointers  *)
(* of the user (one per element, and any number of copies), and files, which hold their root  *)
(* and may hold what they indexed when they were made.  A child does not    *)
(* hold its parent.  What nobody holds is deleted, at once.                 *)
(***************************************************************************)
EXTENDS KmlTree
LInit(n) == [ t |-> TInit(n), held |-> 1..n, more |-> <<>>, files |-> <<>>, dead |-> {} ]
KidsOf(t, X) == UNION { { t.kids[x][i] : i \in 1..Len(t.kids[x]) } : x \in { y \in DOMAIN t.kids : y[1] \in X } }
RECURSIVE Down(_,_)
Down(t, X) == LET Y == X \cup KidsOf(t, X) IN IF Y = X THEN X ELSE Down(t, Y)
More(s, p) == IF p \in DOMAIN s.more THEN s.more[p] ELSE 0
SetMore(s, p, n) == [s EXCEPT !.more = [ x \in DOMAIN s.more \cup {p} |-> IF x = p THEN n ELSE s.more[x] ]]
Must(s) == Down(s.t, s.held \cup { x \in DOMAIN s.more : s.more[x] > 0 } \cup ({ s.files[i].root : i \in 1..Len(s.files) } \ {0}))
May(s) == Down(s.t, Must(s) \cup UNION { s.files[i].seen : i \in 1..Len(s.files) })
\* a parsed or cloned tree, given as nodes <<index, parent, slot>> in document order
RECURSIVE Graft(_,_)
Graft(t, ns) == IF ns = <<>> THEN t ELSE LET q == ns[1] IN
  Graft(LET u == [t EXCEPT !.par = Append(@, q[2])] IN IF q[2] = 0 THEN u ELSE PutKids(u, q[2], q[3], Append(Kids(u, q[2], q[3]), q[1])), Tail(ns))
NoFile == [ root |-> 0, seen |-> {} ]
\* ns: the nodes made by the operation; made: did it make a file
LifeStep(s, op, ids, ns, made) ==
  CASE op.k = "skip" -> [ s |-> s, res |-> 0 ]
    [] op.k = "drop" -> [ s |-> [s EXCEPT !.held = @ \ {op.p}], res |-> 0 ]
    [] op.k = "many" -> [ s |-> SetMore(s, op.p, More(s, op.p) + op.i), res |-> 0 ]
    [] op.k = "fewer" -> [ s |-> SetMore(s, op.p, IF More(s, op.p) < op.i THEN More(s, op.p) ELSE op.i), res |-> 0 ]
    [] op.k = "hold" -> LET q == Kids(s.t, op.p, op.slot) IN IF op.i < Len(q) THEN [ s |-> [s EXCEPT !.held = @ \cup {q[op.i + 1]}], res |-> q[op.i + 1] ] ELSE [ s |-> s, res |-> 0 ]
    [] op.k \in {"parse", "clone"} -> [ s |-> [s EXCEPT !.t = Graft(@, ns), !.held = IF ns = <<>> THEN @ ELSE @ \cup {ns[1][1]}], res |-> 0 ]
    [] op.k = "file" -> [ s |-> [s EXCEPT !.files = Append(@, IF made THEN [ root |-> op.p, seen |-> Down(s.t, {op.p}) ] ELSE NoFile)], res |-> IF made THEN 1 ELSE 0 ]
    [] op.k = "filetext" -> [ s |-> [s EXCEPT !.t = Graft(@, ns), !.files = Append(@, IF made /\ ns # <<>> THEN [ root |-> ns[1][1], seen |-> { ns[i][1] : i \in 1..Len(ns) } ] ELSE NoFile)], res |-> IF made THEN 1 ELSE 0 ]
    [] op.k = "dropfile" -> [ s |-> [s EXCEPT !.files[op.p] = NoFile], res |-> 0 ]
    [] op.k = "root" -> LET r == s.files[op.p].root IN [ s |-> [s EXCEPT !.held = @ \cup ({r} \ {0})], res |-> r ]
    [] OTHER -> LET o == TreeStep(s.t, op, ids) IN [ s |-> [s EXCEPT !.t = o.s], res |-> o.res ]
=============================================================================
