--------------------------------- MODULE JTree ---------------------------------
(* Judges histories of attaching and removing elements (driver "tree"). *)
EXTENDS KmlTree, TraceData
VARIABLES sc, pos, st, ok
StartT(r) == TInit(Len(r.ty))
Obs(e) == { <<e.kids[i][1], e.kids[i][2], e.kids[i][3]>> : i \in 1..Len(e.kids) }
StepT(r, s, e) ==
  LET o == TreeStep(s, e, r.ids)
      t == o.s
      at == Attached(t)
      wrongpar == { i \in 1..Len(r.ty) : (i \in at \/ t.par[i] = 0) /\ e.par[i] # t.par[i] }
      wrongdoc == { i \in 1..Len(e.docs) : t.par[i] = 0 /\ r.ty[i] # "coordinates" /\ Clean(e.docs[i], FALSE) # TreeOf(t, r.ty, r.ids, i) }
  IN [ s |-> t, bad |->
       IF e.res # o.res THEN <<"returned", o.res, e.res>>
       ELSE IF Obs(e) # KidSet(t) THEN <<"children", KidSet(t), Obs(e)>>
       ELSE IF wrongpar # {} THEN <<"parents", t.par, e.par>>
       ELSE IF e.file # t.file THEN <<"files", t.file, e.file>>
       ELSE IF e.same # [ i \in 1..Len(r.ty) |-> [ j \in 1..Len(r.ty) |-> t.file[i] = t.file[j] ] ] THEN <<"same file", t.file, e.same>>
       ELSE IF wrongdoc # {} THEN <<"document", [ i \in wrongdoc |-> <<TreeOf(t, r.ty, r.ids, i), e.docs[i]>> ]>>
       ELSE <<>> ]
INSTANCE TraceJudge WITH Start <- StartT, Step <- StepT
=============================================================================
