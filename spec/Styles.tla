-------------------------------- MODULE Styles --------------------------------
(***************************************************************************)
(* Style resolution.  A web is a sequence of [url, doc] with the documents  *)
(* as read; a resolution is a state [st, left]: the style built so far and  *)
(* the number of references that may still be followed.                     *)
(***************************************************************************)
EXTENDS Ids, Merge
MaxHops == 5
\* the shared styles of a document as read, in document order
RECURSIVE SharedEls(_,_)
SharedEls(x, parent) ==
  IF x.n = "#" \/ x.n \in SimpleTags \/ ~Known(x.n) THEN <<>>
  ELSE (IF x.n \in StyleSelectors /\ parent = "Document" /\ AttrOf(x, "id")[1] THEN <<Norm(x, parent)>> ELSE <<>>)
       \o Concat([ i \in 1..Len(x.c) |-> SharedEls(x.c[i], x.n) ])
SharedStyle(doc, id) == LET q == SelectSeq(SharedEls(doc, ""), LAMBDA y : AttrOf(y, "id")[2] = id) IN IF q = <<>> THEN <<>> ELSE <<Last(q)>>
FieldOf(x, n) == LET q == SelectSeq(x.c, LAMBDA k : k.n = n) IN IF q = <<>> THEN "" ELSE TextOf(Last(q).c)
ChildOf(x, ts) == LET q == SelectSeq(x.c, LAMBDA k : k.n \in ts) IN IF q = <<>> THEN <<>> ELSE <<Last(q)>>
\* references: [path]#id
PathPart(u) == SubSeq(u, 1, SkipOut(u, 1, {"#"}) - 1)
FragPart(u) == LET i == SkipOut(u, 1, {"#"}) IN IF i > Len(u) THEN "" ELSE From(u, i + 1)
RECURSIVE DirOf(_)
DirOf(u) == IF u = "" \/ Ch(u, Len(u)) = "/" THEN u ELSE DirOf(SubSeq(u, 1, Len(u) - 1))
Against(base, p) == IF Contains(p, "://") THEN p ELSE DirOf(base) \o p
Empty == [ n |-> "Style", t |-> "", a |-> <<>>, c |-> <<>> ]
KeyOf(p) == IF FieldOf(p, "key") = "" THEN "normal" ELSE FieldOf(p, "key")
\* file: index in the web; remote: whether other files can be reached
RECURSIVE RUrl(_,_,_,_,_,_), RSel(_,_,_,_,_,_), RPairs(_,_,_,_,_,_)
RUrl(r, web, f, remote, url, key) ==
  LET s == [r EXCEPT !.left = @ - 1]
      p == PathPart(url)
      id == FragPart(url)
      g == IF p = "" THEN f ELSE LET h == { i \in 1..Len(web) : web[i].url = Against(web[f].url, p) } IN IF h = {} \/ ~remote THEN 0 ELSE CHOOSE i \in h : TRUE
      q == IF g = 0 THEN <<>> ELSE SharedStyle(web[g].doc, id)
  IN IF s.left < 0 \/ id = "" \/ q = <<>> THEN s ELSE RSel(s, web, g, remote, q[1], key)
RSel(r, web, f, remote, x, key) ==
  IF x.n = "Style" THEN [r EXCEPT !.st = SeqForm(MergeInto(x, @, "Style", TRUE))]
  ELSE RPairs(r, web, f, remote, SelectSeq(x.c, LAMBDA k : k.n = "Pair" /\ KeyOf(k) = key), key)
RPairs(r, web, f, remote, ps, key) == IF ps = <<>> THEN r ELSE
  RPairs(LET u == RUrl(r, web, f, remote, FieldOf(Head(ps), "styleUrl"), key) i == ChildOf(Head(ps), StyleSelectors) IN
         IF i = <<>> THEN u ELSE RSel(u, web, f, remote, i[1], key), web, f, remote, Tail(ps), key)
\* the style of a feature (a canonical element of file f) in a state
ResolveHops(web, f, remote, x, key, hops) ==
  LET u == RUrl([ st |-> Empty, left |-> hops ], web, f, remote, FieldOf(x, "styleUrl"), key)
      i == IF x.n = "Document" THEN <<>> ELSE ChildOf(x, StyleSelectors)
  IN (IF i = <<>> THEN u ELSE RSel(u, web, f, remote, i[1], key)).st
Resolve(web, f, remote, x, key) == ResolveHops(web, f, remote, x, key, MaxHops)
=============================================================================
