---------------------------------- MODULE Region ----------------------------------
(***************************************************************************)
(* Feature lists and their division into a hierarchy of regions.  A        *)
(* feature is [m, y, x, s, on]: mark, position, score, has a position.     *)
(***************************************************************************)
EXTENDS Bbox
At(b, f) == f.on /\ Has(b, f.y, f.x)
(* ---- lists ---- *)
RECURSIVE Insert(_,_)      \* highest score first, equal ones in order
Insert(f, l) == IF l = <<>> THEN <<f>> ELSE IF f.s > l[1].s THEN <<f>> \o l ELSE <<l[1]>> \o Insert(f, Tail(l))
RECURSIVE SortInto(_,_)
SortInto(done, l) == IF l = <<>> THEN done ELSE SortInto(Insert(l[1], done), Tail(l))
Sorted(l) == SortInto(<<>>, l)
\* the first max features in the box (0: all), and the others
Hits(l, b, max) == LET h == SelectSeq([ i \in 1..Len(l) |-> i ], LAMBDA i : At(b, l[i])) IN IF max = 0 \/ Len(h) <= max THEN h ELSE SubSeq(h, 1, max)
Out(l, b, max) == LET h == Hits(l, b, max) IN [ i \in 1..Len(h) |-> l[h[i]] ]
Rest(l, b, max) == LET h == Hits(l, b, max) IN LET k == SelectSeq([ i \in 1..Len(l) |-> i ], LAMBDA i : \A j \in 1..Len(h) : h[j] # i) IN [ i \in 1..Len(k) |-> l[k[i]] ]
RECURSIVE Extent(_,_)
Extent(l, b) == IF l = <<>> THEN b ELSE Extent(Tail(l), IF l[1].on THEN AddPoint(b, l[1].y, l[1].x) ELSE b)
(* ---- the hierarchy ---- *)
\* the children of a region, in the order they are visited: NW NE SW SE
Kids4(q) == LET c == Quads(q) IN <<c[2], c[1], c[4], c[3]>>
Digit == <<"0", "1", "2", "3">>
\* one visit: the remaining list, the files written so far, and the id of the file if any
RECURSIVE Visit(_,_,_,_), Children(_,_,_,_,_,_)
Children(S, q, id, max, i, ids) == IF i > 4 THEN [ s |-> S, ids |-> ids ]
  ELSE LET v == Visit(S, Kids4(q)[i], id \o Digit[i], max) IN Children(v.s, q, id, max, i + 1, IF v.any THEN Append(ids, id \o Digit[i]) ELSE ids)
Visit(S, q, id, max) ==
  LET o == Out(S.list, q, max) IN
  IF o = <<>> THEN [ s |-> S, any |-> FALSE ]
  ELSE LET c == Children([S EXCEPT !.list = Rest(@, q, max)], q, id, max, 1, <<>>)
       IN [ s |-> [c.s EXCEPT !.files = Append(@, [ id |-> id, box |-> q, feats |-> o, kids |-> c.ids ])], any |-> TRUE ]
Regionated(l, q, max) == Visit([ list |-> l, files |-> <<>> ], q, "q0", max).s
(* ---- what any division has to satisfy, given as files [name, id, box, feats, links] ---- *)
Span(h) == { h[i] : i \in 1..Len(h) }
=============================================================================
