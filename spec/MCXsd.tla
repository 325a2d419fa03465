------------------------------------ MODULE MCXsd ------------------------------------
(* Every schema of up to three types over every choice of kind and base (own, each other's, unknown, another prefix's, none), walked base by base. *)
EXTENDS Xsd
CONSTANTS Names
VARIABLES g, cur, path, fin
TName == CHOOSE q \in [1..Cardinality(Names) -> Names] : \A i, j \in 1..Cardinality(Names) : q[i] = q[j] => i = j
BaseNames == {"", "k:zz", "o:A"} \cup { "k:" \o n : n \in Names }
Mk(n, k, b) == [ name |-> n, kind |-> k, base |-> b, seq |-> <<>>, enum |-> <<>> ]
EOf(n) == [ name |-> n, ref |-> FALSE, type |-> "k:" \o n, def |-> "", abs |-> n = "B", sub |-> "" ]
Init == /\ \E ks \in [1..Cardinality(Names) -> {"complex", "simple"}], bs \in [1..Cardinality(Names) -> BaseNames], ok \in BOOLEAN :
             g = [ els |-> [ i \in 1..Cardinality(Names) |-> EOf(TName[i]) ], types |-> [ i \in 1..Cardinality(Names) |-> Mk(TName[i], ks[i], bs[i]) ], ok |-> ok, ns |-> "n", px |-> "k" ]
        /\ \E i \in 1..Len(g.types) : g.types[i].kind = "complex" /\ cur = g.types[i] /\ path = <<g.types[i]>>
        /\ fin = "no"
Walk == /\ fin = "no" /\ UNCHANGED g
        /\ LET b == BaseOf(g, cur) IN
           IF cur.base = "" THEN fin' = "top" /\ UNCHANGED <<cur, path>>
           ELSE IF b = <<>> THEN fin' = "lost" /\ UNCHANGED <<cur, path>>
           ELSE IF \E i \in 1..Len(path) : path[i] = b[1] THEN fin' = "cycle" /\ UNCHANGED <<cur, path>>
           ELSE cur' = b[1] /\ path' = Append(path, b[1]) /\ UNCHANGED fin
Next == Walk
Spec == Init /\ [][Next]_<<g, cur, path, fin>> /\ WF_<<g, cur, path, fin>>(Walk)
Ends == <>(fin # "no")
Short == Len(path) <= Cardinality(Names)
Agrees == fin # "no" => Bases(g, path[1]) = <<fin = "top", Tail(path)>>
Cx == { g.types[i] : i \in { j \in 1..Len(g.types) : g.types[j].kind = "complex" } }
Order == g.ok => \A a, b, c \in Cx : IsOf(g, a, a) /\ (IsOf(g, a, b) /\ IsOf(g, b, c) => IsOf(g, a, c))
Kinds == Bag(Abstracts(g)) \cap (Bag(OfKind(g, {"complex"})) \cup Bag(OfKind(g, {"simple", "primitive"}))) = {} /\ Bag(OfKind(g, {"complex"})) \cap Bag(OfKind(g, {"simple", "primitive"})) = {}
Derived == \A a \in Cx : \A e \in Bag(OfType(g, a)) : g.ok /\ IsOf(g, ElType(g, e)[1], a)
=============================================================================
