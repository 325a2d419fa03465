------------------------------- MODULE NetCache -------------------------------
(***************************************************************************)
(* The fetch cache.  A cache is [cap, q]: its size limit and its entries    *)
(* <<url, item>>, oldest first.  Items are numbered in the order in which   *)
(* they were made; 0 is none.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences
CEmpty(cap) == [ cap |-> cap, q |-> <<>> ]
CLook(c, u) == LET i == { i \in 1..Len(c.q) : c.q[i][1] = u } IN IF i = {} THEN 0 ELSE c.q[CHOOSE j \in i : TRUE][2]
CDelete(c, u) == [c EXCEPT !.q = SelectSeq(@, LAMBDA e : e[1] # u)]
CRemoveOldest(c) == IF c.q = <<>> THEN c ELSE [c EXCEPT !.q = Tail(@)]
\* saving is refused, and changes nothing, if the key is present or nothing may be kept
CanSave(c, u) == c.cap > 0 /\ CLook(c, u) = 0
CSave(c, u, item) == IF ~CanSave(c, u) THEN c ELSE
  [c EXCEPT !.q = Append(IF Len(@) >= c.cap THEN Tail(@) ELSE @, <<u, item>>)]
\* the guarantees of the design
COk(c) == Len(c.q) <= c.cap /\ \A i, j \in 1..Len(c.q) : i # j => c.q[i][1] # c.q[j][1]
(***************************************************************************)
(* A client's history: s = [c, made, net]; net maps each url to "ok", "bad" *)
(* (the data is not an item) or "down".  An operation gives the next state, *)
(* what it returns, and the urls it asks the network for.                   *)
(***************************************************************************)
NOp(s, o) ==
  LET u == o.u IN
  CASE o.k = "lookup" -> [ s |-> s, ret |-> CLook(s.c, u), asked |-> <<>> ]
    [] o.k = "fetch" -> IF CLook(s.c, u) # 0 THEN [ s |-> s, ret |-> CLook(s.c, u), asked |-> <<>> ]
                        ELSE IF s.net[u] = "ok" THEN LET i == s.made + 1 IN [ s |-> [s EXCEPT !.made = i, !.c = CSave(@, u, i)], ret |-> i, asked |-> <<u>> ]
                        ELSE [ s |-> s, ret |-> 0, asked |-> <<u>> ]
    [] o.k = "save" -> LET i == s.made + 1 IN [ s |-> [s EXCEPT !.made = i, !.c = CSave(@, u, i)], ret |-> IF CanSave(s.c, u) THEN 1 ELSE 0, asked |-> <<>> ]
    [] o.k = "delete" -> [ s |-> [s EXCEPT !.c = CDelete(@, u)], ret |-> IF CLook(s.c, u) # 0 THEN 1 ELSE 0, asked |-> <<>> ]
    [] o.k = "oldest" -> [ s |-> [s EXCEPT !.c = CRemoveOldest(@)], ret |-> IF s.c.q # <<>> THEN 1 ELSE 0, asked |-> <<>> ]
    [] o.k = "net" -> [ s |-> [s EXCEPT !.net = [@ EXCEPT ![u] = o.v]], ret |-> 0, asked |-> <<>> ]
=============================================================================
