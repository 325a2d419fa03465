------------------------------- MODULE JKmlCache -------------------------------
(* Judges histories of links followed through the caches (driver "kmlcache"). *)
EXTENDS KmlCache, TraceData, TLC
VARIABLES sc, pos, st, ok
StartK(r) == KCInit(r.cap, r.net)
StepK(r, s, e) ==
  LET o == e.o
      nf == Len(s.files)
      \* a link or icon of the file number f of those made so far; only what has an href is followed
      own == o.k \in {"link", "icon"}
      goes == ~own \/ (nf > 0 /\ o.shape = 2)
      base == IF own THEN s.files[((o.f - 1) % nf) + 1].url ELSE o.b
  IN
  IF own /\ ~e.hrefs THEN [ s |-> s, bad |-> <<"href", e>> ]
  ELSE IF own /\ ~goes THEN [ s |-> s, bad |-> IF (IF o.k = "link" THEN e.file = 0 ELSE ~e.ok) /\ e.asked = <<>> THEN <<>> ELSE <<"nothing to follow", e>> ]
  ELSE IF o.k = "net" THEN [ s |-> [s EXCEPT !.net = Append(SelectSeq(@, LAMBDA x : x.u # o.n.u), o.n)], bad |-> <<>> ]
  ELSE IF o.k = "down" THEN [ s |-> [s EXCEPT !.net = SelectSeq(@, LAMBDA x : x.u # o.u)], bad |-> <<>> ]
  ELSE IF o.k \in {"kml", "link"} THEN
    LET n == FetchKml(s, base, o.t) f == n.s.files IN
    [ s |-> n.s, bad |-> IF e.file # n.file THEN <<"file", n.file, IF n.file > 0 THEN f[n.file] ELSE "none", e>>
        ELSE IF n.file > 0 /\ (e.url # f[n.file].url \/ e.c # f[n.file].c) THEN <<"content", f[n.file], e>>
        ELSE IF ~e.cache THEN <<"cache", e>>
        ELSE IF e.asked # n.asked THEN <<"network", n.asked, e>> ELSE <<>> ]
  ELSE LET n == FetchData(s, base, o.t) IN
    [ s |-> n.s, bad |-> IF e.ok # n.ok \/ e.data # n.data THEN <<"data", n.ok, n.data, e>> ELSE IF e.asked # n.asked THEN <<"network", n.asked, e>> ELSE <<>> ]
INSTANCE TraceJudge WITH Start <- StartK, Step <- StepK
=============================================================================
