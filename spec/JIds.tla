---------------------------------- MODULE JIds ---------------------------------
(* Judges id and shared-style lookups (driver "ids"). *)
EXTENDS Ids, TraceData
VARIABLES sc, pos, st, ok
StartI(r) == 0
Remap(r) == [ k \in { r.remap[i][1] : i \in 1..Len(r.remap) } |-> r.remap[CHOOSE i \in 1..Len(r.remap) : r.remap[i][1] = k][2] ]
StepI(r, s, e) ==
  LET norm == Norm(e.in, "")
      \* a parse sees the text, an import the tree
      seen == IF e.mode = "parse" THEN e.in ELSE norm
      q == Named(seen)
      h == Shared(seen)
      nq == Named(norm)
      live == { LastOf(nq, id) : id \in IdsIn(nq) }
      f == Remap(r)
      okw == e.mode # "import" \/ ~HasDup(norm)
      wobj == { i \in 1..Len(e.obj) : e.obj[i][2] # LastOf(q, e.obj[i][1]) }
      wsh == { i \in 1..Len(e.shared) : e.shared[i][2] # LastOf(h, e.shared[i][1]) }
      setof(z) == { <<z[i][1], z[i][2]>> : i \in 1..Len(z) }
  IN [ s |-> 0, bad |->
    IF ~e.parsed THEN <<"not parsed">>
    ELSE IF e.ok # okw THEN <<"created", okw, e.ok>>
    ELSE IF ~e.kept THEN <<"changed by import">>
    ELSE IF ~e.root THEN <<"root">>
    ELSE IF e.ok /\ wobj # {} THEN <<"object", [ i \in wobj |-> <<e.obj[i], LastOf(q, e.obj[i][1])>> ]>>
    ELSE IF e.ok /\ wsh # {} THEN <<"shared style", [ i \in wsh |-> <<e.shared[i], LastOf(h, e.shared[i][1])>> ]>>
    ELSE IF e.ok /\ e.nshared # Cardinality(IdsIn(h)) THEN <<"number of shared styles", Cardinality(IdsIn(h)), e.nshared>>
    ELSE IF setof(e.map) # MapOf(nq) THEN <<"map of ids", MapOf(nq), setof(e.map)>>
    ELSE IF e.dups # Displaced(nq) THEN <<"duplicates", Displaced(nq), e.dups>>
    ELSE IF e.cleared # Cardinality({ id \in IdsIn(nq) : id \notin DOMAIN f }) THEN <<"cleared", e.cleared>>
    ELSE IF { p[1] : p \in setof(e.outmap) } # { f[id] : id \in IdsIn(nq) \cap DOMAIN f } THEN <<"remapped ids", setof(e.outmap)>>
    ELSE IF \E p \in setof(e.outmap) : ~\E id \in IdsIn(nq) \cap DOMAIN f : f[id] = p[1] /\ LastOf(nq, id) = p[2] THEN <<"remapped objects", setof(e.outmap)>>
    ELSE IF Clean(e.remapped, FALSE) # WithIds(norm, "", live, f) THEN <<"remapped document", WithIds(norm, "", live, f), Clean(e.remapped, FALSE)>>
    ELSE IF ~e.sameroot THEN <<"ClearIds result">>
    ELSE IF Clean(e.noids, FALSE) # WithIds(norm, "", { nq[i].m : i \in 1..Len(nq) }, << >>) THEN <<"cleared document", Clean(e.noids, FALSE)>>
    ELSE <<>> ]
INSTANCE TraceJudge WITH Start <- StartI, Step <- StepI
=============================================================================
