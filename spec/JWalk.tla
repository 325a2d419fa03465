---------------------------------- MODULE JWalk ----------------------------------
(* Judges traversals and searches (driver "walk").                           *)
EXTENDS Walk, TraceData
VARIABLES sc, pos, st, ok
Init0(r) == 0
L(q) == [ i \in 1..Len(q) |-> q[i].l ]
StepW(r, s, e) ==
  LET n == Norm(e.in, "")
      rf == RootFeature(n)
      b == Below(n, n.n)
      wby == { i \in 1..Len(e.by) : e.by[i][2] # L(SelectSeq(b, LAMBDA v : e.by[i][1] \in IsAs(v.ty))) }
      kids == SelectSeq(n.c, Structured)
      wk == [ i \in 1..Len(kids) |-> Label(kids[i], ParLabel(n, n.n, kids[i])) ]
      ls == LinksOf(e.in)
      starts == Starts(e.in, e.in.n)
      tally == { e.tally[i] : i \in 1..Len(e.tally) }
      wt == { <<ty, Cardinality({ i \in 1..Len(starts) : starts[i].ty = ty })>> : ty \in { starts[i].ty : i \in 1..Len(starts) } }
      col == Collected(e.in, r.base)
  IN [ s |-> 0, bad |->
    IF ~e.parsed THEN <<"not parsed">>
    ELSE IF e.root # (IF rf = <<>> THEN "" ELSE Label(rf[1], "")) THEN <<"root feature", e.root>>
    ELSE IF e.feats # (IF rf = <<>> THEN <<>> ELSE Feats(rf[1])) THEN <<"features", e.feats>>
    ELSE IF wby # {} THEN <<"by type", [ i \in wby |-> <<e.by[i], L(SelectSeq(b, LAMBDA v : e.by[i][1] \in IsAs(v.ty)))>> ]>>
    ELSE IF e.kids # wk THEN <<"children", wk, e.kids>>
    ELSE IF e.all # L(b) THEN <<"all below", L(b), e.all>>
    ELSE IF e.counts # <<Len(wk), Len(b), Len(b), Len(wk)>> THEN <<"counts", e.counts>>
    ELSE IF ~VisitOk(n, e.pre, FALSE) THEN <<"preorder", VNodes(n, n.n, ""), e.pre>>
    ELSE IF ~VisitOk(n, e.post, TRUE) THEN <<"postorder", VNodes(n, n.n, ""), e.post>>
    ELSE IF ~e.linksok \/ e.links # ls THEN <<"links", ls, e.links>>
    ELSE IF e.rel # SelectSeq(ls, Relative) THEN <<"relative links", SelectSeq(ls, Relative), e.rel>>
    ELSE IF ~e.lpok \/ e.lp # L(SelectSeq(starts, LAMBDA v : v.ty \in LinkParents)) THEN <<"link parents", e.lp>>
    ELSE IF tally # wt THEN <<"tally", wt, tally>>
    ELSE IF e.list # col \/ e.nlist # Len(col) \/ e.saved # Len(col) THEN <<"collected", col, e.list>>
    ELSE IF { e.styles[i] : i \in 1..Len(e.styles) } # LastWins(SharedOf(e.in)) THEN <<"shared styles", LastWins(SharedOf(e.in)), e.styles>>
    ELSE <<>> ]
INSTANCE TraceJudge WITH Start <- Init0, Step <- StepW
=============================================================================
