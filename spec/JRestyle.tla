------------------------------- MODULE JRestyle -------------------------------
(***************************************************************************)
(* Judges inlining and splitting of styles (driver "restyle").  The event   *)
(* holds the document before and after as an XML reader sees them.  What a  *)
(* document looks like is the resolved style of every feature in both       *)
(* states; everything else of the document is its skeleton.                 *)
(***************************************************************************)
EXTENDS Styles, TraceData
VARIABLES sc, pos, st, ok
StartR(r) == 0
SetOfS(q) == { q[i] : i \in 1..Len(q) }
RECURSIVE NoIds(_)
NoIds(x) == IF x.n = "#" THEN x ELSE [x EXCEPT !.a = SelectSeq(@, LAMBDA a : a[1] # "id"), !.c = [ i \in 1..Len(@) |-> NoIds(@[i]) ]]
MarkOf(x) == AttrOf(x, "m")[2]
IsF(x) == x.n \in Features /\ AttrOf(x, "m")[1]
\* the features of a canonical document outside updates, in order
RECURSIVE Feats(_)
Feats(x) == IF x.n = "#" \/ x.n = "Update" THEN <<>> ELSE (IF IsF(x) THEN <<x>> ELSE <<>>) \o Concat([ i \in 1..Len(x.c) |-> Feats(x.c[i]) ])
\* the document without the styles of its features and, outside updates, shared styles
RECURSIVE Skel(_)
Skel(x) == IF x.n = "#" \/ x.n = "Update" THEN x
           ELSE [x EXCEPT !.c = LET q == IF IsF(x) THEN SelectSeq(@, LAMBDA k : ~(k.n \in StyleSelectors /\ (x.n # "Document" \/ AttrOf(k, "id")[1])) /\ (x.n = "Document" \/ k.n # "styleUrl")) ELSE @
                                IN [ i \in 1..Len(q) |-> Skel(q[i]) ]]
Look(doc, x, key) == SetForm(NoIds(Resolve(<<[ url |-> "", doc |-> doc ]>>, 1, FALSE, x, key)))
RECURSIVE DocsOf(_)
DocsOf(x) == IF x.n = "#" \/ x.n = "Update" THEN <<>> ELSE (IF x.n = "Document" THEN <<x>> ELSE <<>>) \o Concat([ i \in 1..Len(x.c) |-> DocsOf(x.c[i]) ])
SharedIds(doc) == LET q == SharedEls(doc, "") IN [ i \in 1..Len(q) |-> AttrOf(q[i], "id")[2] ]
Local(u) == PathPart(u) = ""
Has(x, ns) == \E i \in 1..Len(x.c) : x.c[i].n \in ns
Kid(x, ns) == ChildOf(x, ns)
\* what must have become of each feature: b before, a after
\* inlined: a reference to a shared style that precedes it is gone; any other is as it was
Inlined(bd, ad, b, a) ==
  LET u == FieldOf(b, "styleUrl") IN
  IF b.n = "Document" THEN a.c = a.c
  ELSE IF u # "" /\ Local(u) /\ SharedStyle(bd, FragPart(u)) # <<>> THEN ~Has(a, {"styleUrl"}) /\ Has(a, StyleSelectors)
  ELSE Kid(a, {"styleUrl"}) = Kid(b, {"styleUrl"}) /\ Kid(a, StyleSelectors) = Kid(b, StyleSelectors)
\* split: the style is shared under an id of its own; it may stay if an id of the form _n is taken
Same(b, a) == Kid(a, {"styleUrl"}) = Kid(b, {"styleUrl"}) /\ Kid(a, StyleSelectors) = Kid(b, StyleSelectors)
Moved(bd, ad, b, a) ==
    LET u == FieldOf(a, "styleUrl") id == FragPart(u) IN
    /\ ~Has(a, StyleSelectors) /\ Local(u) /\ id # ""
    /\ id \notin SetOfS(SharedIds(bd)) /\ Cardinality({ i \in 1..Len(SharedIds(ad)) : SharedIds(ad)[i] = id }) = 1
    /\ LET s == SharedStyle(ad, id) IN s # <<>> /\ s[1].n = Kid(b, StyleSelectors)[1].n
SplitOut(bd, ad, b, a) ==
  IF b.n = "Document" THEN TRUE
  ELSE IF ~Has(b, {"styleUrl"}) /\ Has(b, StyleSelectors) THEN Moved(bd, ad, b, a) \/ (Same(b, a) /\ \E id \in SetOfS(SharedIds(bd)) : IsPrefix("_", id))
  ELSE Same(b, a)
StepR(r, s, e) ==
  LET bd == r.before
      nb == Norm(bd, "") na == Norm(e.after, "")
      fb == Feats(nb) fa == Feats(na)
      K == {"normal", "highlight"}
  IN [ s |-> 0, bad |->
       IF ~e.ok THEN <<"refused">>
       ELSE IF [ i \in 1..Len(fb) |-> <<fb[i].n, MarkOf(fb[i])>> ] # [ i \in 1..Len(fa) |-> <<fa[i].n, MarkOf(fa[i])>> ] THEN <<"features">>
       ELSE IF SetForm(Skel(nb)) # SetForm(Skel(na)) THEN <<"other content", Skel(nb), Skel(na)>>
       ELSE IF r.look /\ \E i \in 1..Len(fb), k \in K : fb[i].n # "Document" /\ Look(bd, fb[i], k) # Look(e.after, fa[i], k)
         THEN LET i == CHOOSE i \in 1..Len(fb) : fb[i].n # "Document" /\ \E k \in K : Look(bd, fb[i], k) # Look(e.after, fa[i], k) IN
              <<"appearance", MarkOf(fb[i]), [ k \in K |-> Look(bd, fb[i], k) ], [ k \in K |-> Look(e.after, fa[i], k) ]>>
       ELSE IF r.look /\ e.op = "inline" /\ \E i \in 1..Len(fb) : ~Inlined(bd, e.after, fb[i], fa[i]) THEN <<"inlined">>
       ELSE IF r.look /\ e.op = "inline" /\ \E d \in SetOfS(DocsOf(na)) : \E i \in 1..Len(d.c) : d.c[i].n \in StyleSelectors /\ AttrOf(d.c[i], "id")[1] THEN <<"shared style left">>
       ELSE IF e.op = "split" /\ \E i \in 1..Len(fb) : ~SplitOut(bd, e.after, fb[i], fa[i]) THEN <<"split", MarkOf(fb[CHOOSE i \in 1..Len(fb) : ~SplitOut(bd, e.after, fb[i], fa[i])])>>
       ELSE <<>> ]
INSTANCE TraceJudge WITH Start <- StartR, Step <- StepR
=============================================================================
