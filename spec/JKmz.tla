--------------------------------- MODULE JKmz ---------------------------------
(* Judges KMZ archives written, read and damaged (driver "kmz").            *)
(* One event: the archive built from r.add, then what reading it shows.     *)
EXTENDS Kmz, TraceData, TLC
VARIABLES sc, pos, st, ok
StartZ(r) == <<>>
BadRead(z, r, e, how) ==
  IF e.open # KOpens(z) THEN <<how, "open", e.open>>
  ELSE IF ~e.open THEN <<>>
  ELSE IF e.list # <<"before">> \o KList(z) THEN <<how, "list", KList(z), e.list>>
  ELSE IF ~e.max0 \/ ~e.max THEN <<how, "limit", e.max0, e.max>>
  ELSE IF e.asfile # KFile(z) THEN <<how, "as a file", KFile(z), e.asfile>>
  ELSE IF \E i \in DOMAIN r.ask : e.has[i] # (First(z, LAMBDA m : m = r.ask[i]) > 0) \/ e.can[i] # KRead(z, r.ask[i], r.max)[1] THEN <<how, "asked without output", r.ask, e.has, e.can>>
  ELSE LET w == { i \in DOMAIN r.ask : e.read[i] # KRead(z, r.ask[i], r.max) } IN
       IF w # {} THEN LET i == CHOOSE j \in w : TRUE IN <<how, "read", r.ask[i], KRead(z, r.ask[i], r.max), e.read[i]>>
       ELSE IF e.kml # KDefault(z, r.max) THEN <<how, "default", KDefault(z, r.max), e.kml>>
       ELSE IF e.find # KFind(z, r.ext) THEN <<how, "find", KFind(z, r.ext), e.find>>
       ELSE IF <<e.links, e.missing>> # KLinks(z, r.max) THEN <<how, "links", KLinks(z, r.max), e.links, e.missing>>
       ELSE IF ~e.same THEN <<how, "bytes">> ELSE <<>>
\* of a damaged archive, what can be read is the content of an entry of the archive
BadDamaged(z, r, e) ==
  LET all == { z[i][2] : i \in DOMAIN z }
      w == { i \in DOMAIN e.got : e.got[i][1] /\ e.got[i][2] \notin all }
  IN IF w # {} THEN <<"wrong bytes", e.got[CHOOSE j \in w : TRUE]>>
     ELSE IF e.asfile[1] /\ e.asfile[2] \notin all THEN <<"wrong file", e.asfile>>
     ELSE IF e.kml[1] /\ e.kml[2] \notin all THEN <<"wrong bytes", e.kml>>
     ELSE IF \E i \in DOMAIN e.got : ~e.got[i][1] /\ e.got[i][2] # "keep" THEN <<"failed read changed the output">> ELSE <<>>
StepZ(r, s, e) ==
  CASE e.k = "add" -> [ s |-> KAdd(s, e.n, e.d, e.size, e.links), bad |-> IF e.ok # CanAdd(e.n) THEN <<"add", e.n, e.ok>> ELSE <<>> ]
    [] e.k = "file" -> [ s |-> s, bad |-> BadRead(s, r, e, "file") ]
    [] e.k = "string" -> [ s |-> s, bad |-> BadRead(s, r, e, "string") ]
    [] e.k = "other" -> [ s |-> s, bad |-> IF KOpens(s) /\ e.z # [ i \in DOMAIN s |-> <<s[i][1], s[i][2]>> ] THEN <<"another reader", e.z>> ELSE <<>> ]
    [] e.k = "damaged" -> [ s |-> s, bad |-> BadDamaged(s, r, e) ]
INSTANCE TraceJudge WITH Start <- StartZ, Step <- StepZ
=============================================================================
