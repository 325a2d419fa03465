------------------------------ MODULE MCNetCache ------------------------------
(***************************************************************************)
(* All states of a cache over three urls that are reached within N          *)
(* operations, up to the numbering of items.  One history is printed for    *)
(* every state and every operation that leads to it.                        *)
(***************************************************************************)
EXTENDS NetCache, Json, TLC
CONSTANTS N, Urls, Caps
VARIABLES s, h, last
Ops == { [ k |-> k, u |-> u, v |-> "" ] : k \in {"lookup", "fetch", "save", "delete"}, u \in Urls }
  \cup { [ k |-> "oldest", u |-> "", v |-> "" ] } \cup { [ k |-> "net", u |-> u, v |-> v ] : u \in Urls, v \in {"ok", "bad", "down"} }
Init == \E n \in Caps : s = [ c |-> CEmpty(n), made |-> 0, net |-> [ u \in Urls |-> "ok" ] ] /\ h = <<>> /\ last = <<>>
Next == Len(h) < N /\ \E o \in Ops : s' = NOp(s, o).s /\ h' = Append(h, o) /\ last' = <<o.k, o.u, o.v>>
\* items by age of entry, not number
View == <<s.c.cap, [ i \in 1..Len(s.c.q) |-> s.c.q[i][1] ], s.net, last>>
Inv == COk(s.c) /\ \A i, j \in 1..Len(s.c.q) : i < j => s.c.q[i][2] < s.c.q[j][2]    \* first in, first out
\* an entry present is returned and fetched no more; nothing is evicted while there is room
Calm == [][ LET o == h'[Len(h')] IN
     /\ (o.k \in {"fetch", "lookup"} /\ CLook(s.c, o.u) # 0) => s'.c = s.c
     /\ (o.k \in {"fetch", "save"} /\ Len(s.c.q) < s.c.cap) => \A i \in 1..Len(s.c.q) : CLook(s'.c, s.c.q[i][1]) = s.c.q[i][2]
     /\ (o.k = "fetch" /\ s.net[o.u] # "ok") => s'.c = s.c
     /\ Len(s.c.q) - Len(s'.c.q) <= 1 ]_<<s, h>>
Emit == h # <<>> => PrintT("BEH " \o ToJson([ cap |-> s.c.cap, ops |-> h ]))
=============================================================================
