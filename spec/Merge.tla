-------------------------------- MODULE Merge --------------------------------
(***************************************************************************)
(* Cloning and merging of documents in canonical form (see Norm).           *)
(***************************************************************************)
EXTENDS KmlDom
CloneOf(x) == x
\* attributes as a set: the source's value wins
AttrSet(as) == { as[i] : i \in 1..Len(as) }
MergeAttrs(s, t) == AttrSet(s) \cup { p \in AttrSet(t) : \A q \in AttrSet(s) : q[1] # p[1] }
RECURSIVE SetForm(_)
SetForm(x) == IF x.n = "#" THEN x ELSE [ n |-> x.n, a |-> AttrSet(x.a), c |-> [ i \in 1..Len(x.c) |-> SetForm(x.c[i]) ] ]
Of(x, ts) == SelectSeq(x.c, LAMBDA k : k.n \in ts)
\* merges s into t (both canonical); deep: with complex children.  The result
\* has attribute sets.  Children of s that t has no slot for follow t's own
\* misplaced ones: complex children first, then fields.
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
RECURSIVE MergeInto(_,_,_,_), MergeAll(_,_,_)
RECURSIVE SeqForm(_)
SeqForm(x) == IF x.n = "#" THEN x ELSE [ n |-> x.n, t |-> "", a |-> SeqOf(x.a), c |-> [ i \in 1..Len(x.c) |-> SeqForm(x.c[i]) ] ]
MergeAll(q, t, ty) == IF q = <<>> THEN SetForm(t) ELSE MergeAll(Tail(q), SeqForm(MergeInto(Head(q), t, TypeOf(t.n, ty), TRUE)), ty)
MergeSlot(sl, s, t, ty, deep) ==
  LET a == Of(s, sl.ts)
      b == Of(t, sl.ts)
      plain(q) == [ i \in 1..Len(q) |-> SetForm(q[i]) ]
      simple == sl.k \in {"f", "F"} /\ sl.n # "coordinates"
  IN IF a = <<>> \/ (~deep /\ ~simple) THEN plain(b)
     ELSE CASE sl.k = "f" -> plain(a)
            [] sl.k = "F" -> plain(b \o a)
            [] sl.k = "m" -> plain(b \o a)
            [] sl.k = "e" -> IF b # <<>> /\ b[1].n = a[1].n THEN <<MergeInto(a[1], b[1], TypeOf(a[1].n, ty), deep)>> ELSE plain(a)
MergeInto(s, t, ty, deep) ==
  LET sls == Slots(ty)
      legal == SlotTags[ty]
      texts == SelectSeq(s.c, LAMBDA k : k.n = "#")
      text == IF ty \in TextTypes THEN (IF s.n = t.n THEN texts ELSE SelectSeq(t.c, LAMBDA k : k.n = "#")) ELSE <<>>
      mis == SelectSeq(t.c, LAMBDA k : k.n # "#" /\ Known(k.n) /\ k.n \notin legal)
      unk == SelectSeq(t.c, LAMBDA k : k.n # "#" /\ ~Known(k.n))
      sm == SelectSeq(s.c, LAMBDA k : k.n # "#" /\ Known(k.n) /\ k.n \notin legal)
      cx == SelectSeq(sm, LAMBDA k : k.n \notin SimpleTags \/ k.n = "coordinates")
      sf == SelectSeq(sm, LAMBDA k : k.n \in SimpleTags /\ k.n # "coordinates")
      \* a misplaced complex child is merged with the first of its kind
      first(q, n) == LET h == { i \in 1..Len(q) : q[i].n = n } IN IF h = {} THEN 0 ELSE CHOOSE i \in h : \A j \in h : i <= j
      fresh == SelectSeq(cx, LAMBDA k : first(mis, k.n) = 0)
      \* (each in turn: several of one kind go to the same place)
      into(i) == SelectSeq(cx, LAMBDA k : first(mis, k.n) = i)
      old == [ i \in 1..Len(mis) |-> IF deep THEN MergeAll(into(i), mis[i], ty) ELSE SetForm(mis[i]) ]
  IN [ n |-> t.n, a |-> MergeAttrs(s.a, t.a),
       c |-> text \o Concat([ i \in 1..Len(sls) |-> MergeSlot(sls[i], s, t, ty, deep) ])
             \o old \o (IF deep THEN [ i \in 1..Len(fresh) |-> SetForm(fresh[i]) ] ELSE <<>>)
             \o [ i \in 1..Len(sf) |-> SetForm(sf[i]) ]
             \o [ i \in 1..Len(unk) |-> SetForm(unk[i]) ] ]
=============================================================================
