------------------------------- MODULE JNetCache -------------------------------
(* Judges histories of the fetch cache (driver "netcache"). *)
EXTENDS NetCache, TraceData, TLC
VARIABLES sc, pos, st, ok
StartN(r) == [ c |-> CEmpty(r.cap), made |-> 0, net |-> [ i \in { r.urls[j] : j \in 1..Len(r.urls) } |-> "ok" ] ]
StepN(r, s, e) ==
  LET n == NOp(s, e.o)
      have == [ i \in 1..Len(r.urls) |-> CLook(n.s.c, r.urls[i]) ]
  IN [ s |-> n.s, bad |->
       IF e.ret # n.ret THEN <<"result", n.ret, e.ret>>
       ELSE IF e.asked # n.asked THEN <<"network", n.asked, e.asked>>
       ELSE IF e.size # Len(n.s.c.q) THEN <<"size", Len(n.s.c.q), e.size>>
       ELSE IF e.have # have THEN <<"contents", have, e.have>> ELSE IF ~e.live THEN <<"item lost">> ELSE <<>> ]
INSTANCE TraceJudge WITH Start <- StartN, Step <- StepN
=============================================================================
