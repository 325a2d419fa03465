--------------------------------- MODULE JPack ---------------------------------
(* Judges the packing of linked files into a KMZ (driver "pack").           *)
EXTENDS Kmz, TraceData, TLC
VARIABLES sc, pos, st, ok
StartP(r) == <<>>
\* any: links whose packing is not fixed; what is packed is still a file below the base, under its own name
Loose(r, e) ==
  LET w == { i \in DOMAIN e.z : i > 1 /\ (~CanAdd(e.z[i][1]) \/ FileAt(r.files, RemoveDots(Slash(e.z[i][1]))) = 0
                 \/ r.files[FileAt(r.files, RemoveDots(Slash(e.z[i][1])))][2] # e.z[i][2]) }
  IN IF e.z = <<>> \/ e.z[1] # <<"doc.kml", e.kml>> THEN <<"document">>
     ELSE IF w # {} THEN <<"not a file below the base", e.z[CHOOSE i \in w : TRUE]>>
     ELSE IF \E i, j \in DOMAIN e.z : i # j /\ e.z[i][1] = e.z[j][1] THEN <<"twice">> ELSE <<>>
StepP(r, s, e) ==
  LET p == Pack(r.files, e.kml, IF r.mode = "list" THEN r.links ELSE Relative(r.links)) IN
  [ s |-> s, bad |->
    IF ~r.iskml THEN (IF e.ok \/ e.z # <<>> THEN <<"packed nothing", e.ok>> ELSE <<>>)
    ELSE IF ~e.ok THEN <<"failed">>
    ELSE IF r.loose THEN Loose(r, e)
    ELSE IF e.z # p.z THEN <<"entries", p.z, e.z>>
    ELSE IF r.mode = "list" /\ e.errors # p.errors THEN <<"errors", p.errors, e.errors>> ELSE <<>> ]
INSTANCE TraceJudge WITH Start <- StartP, Step <- StepP
=============================================================================
