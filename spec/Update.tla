-------------------------------- MODULE Update --------------------------------
(***************************************************************************)
(* Processing updates.  The state is the file's document (canonical tree,  *)
(* every element carrying a mark "m" of its own) and what the file knew     *)
(* when it was loaded: for every id the mark of the object and the mark and *)
(* tag of the element holding it.                                           *)
(***************************************************************************)
EXTENDS Ids, Merge
\* path to the element with mark m: <<TRUE, child indices>>
RECURSIVE PathTo(_,_)
PathTo(x, m) ==
  IF x.n = "#" THEN <<FALSE, <<>>>> ELSE IF AttrOf(x, "m") = <<TRUE, m>> THEN <<TRUE, <<>>>>
  ELSE LET h == { i \in 1..Len(x.c) : PathTo(x.c[i], m)[1] } IN
       IF h = {} THEN <<FALSE, <<>>>> ELSE LET i == CHOOSE i \in h : \A j \in h : i <= j IN <<TRUE, <<i>> \o PathTo(x.c[i], m)[2]>>
RECURSIVE GetAt(_,_), PutAt(_,_,_)
GetAt(x, p) == IF p = <<>> THEN x ELSE GetAt(x.c[Head(p)], Tail(p))
PutAt(x, p, y) == IF p = <<>> THEN y ELSE [x EXCEPT !.c[Head(p)] = PutAt(@, Tail(p), y)]
TypeAt(x, p) == IF p = <<>> THEN x.n ELSE TypeOf(GetAt(x, p).n, GetAt(x, SubSeq(p, 1, Len(p) - 1)).n)
RECURSIVE Holders(_,_)     \* <<id, mark, mark of the holder, tag of the holder>> of every object with an id
Holders(x, ty) == LET me == AttrOf(x, "m")[2] IN
  UNION { LET k == x.c[i] kt == TypeOf(k.n, ty) IN
          IF k.n = "#" \/ k.n \in SimpleTags \/ ~Known(k.n) THEN {} ELSE
          (IF IsObj(kt) /\ AttrOf(k, "id")[1] THEN {<<AttrOf(k, "id")[2], AttrOf(k, "m")[2], me, x.n>>} ELSE {}) \cup Holders(k, kt) : i \in 1..Len(x.c) }
RootHolder(x) == IF IsObj(x.n) /\ AttrOf(x, "id")[1] THEN {<<AttrOf(x, "id")[2], AttrOf(x, "m")[2], "", "">>} ELSE {}
UInit(doc) == [ doc |-> doc, known |-> RootHolder(doc) \cup Holders(doc, doc.n) ]
\* ids are unique
Entry(s, id) == LET h == { k \in s.known : k[1] = id } IN IF h = {} THEN <<"", "", "", "">> ELSE CHOOSE k \in h : TRUE
\* the id an operation's target id stands for: <<found, id>>; map = <<>> when none is used
Target(x, usemap, map) ==
  LET t == AttrOf(x, "targetId") h == { i \in 1..Len(map) : map[i][1] = t[2] } IN
  IF ~t[1] THEN <<FALSE, "">> ELSE IF ~usemap THEN t ELSE IF h = {} THEN <<FALSE, "">> ELSE <<TRUE, map[CHOOSE i \in h : TRUE][2]>>
Without(as, k) == SelectSeq(as, LAMBDA kv : kv[1] # k)
\* features go after the features already there (and before misplaced or unknown content)
AddFeatures(c, fs) ==
  LET legal == SlotTags[c.n]
      front == SelectSeq(c.c, LAMBDA k : k.n \in legal)
      back == SelectSeq(c.c, LAMBDA k : k.n \notin legal)
  IN [c EXCEPT !.c = front \o fs \o back]
ChangeOne(s, x, um, mp) ==
  LET t == Target(x, um, mp)
      p == PathTo(s.doc, Entry(s, t[2])[2])
      old == GetAt(s.doc, p[2])
      new == SeqForm(MergeInto(x, old, TypeAt(s.doc, p[2]), TRUE))
  IN IF ~t[1] \/ Entry(s, t[2])[2] = "" \/ ~p[1] THEN s
     ELSE [s EXCEPT !.doc = PutAt(@, p[2], [new EXCEPT !.a = Without(@, "targetId")])]
CreateOne(s, x, um, mp) ==
  LET t == Target(x, um, mp)
      p == PathTo(s.doc, Entry(s, t[2])[2])
      fs == SelectSeq(x.c, LAMBDA k : k.n \in Features)
  IN IF ~t[1] \/ Entry(s, t[2])[2] = "" \/ ~p[1] THEN s
     ELSE LET c == GetAt(s.doc, p[2]) IN IF c.n \notin Containers THEN s ELSE [s EXCEPT !.doc = PutAt(@, p[2], AddFeatures(c, fs))]
DeleteOne(s, x, um, mp) ==
  LET t == Target(x, um, mp)
      k == Entry(s, t[2])
      p == PathTo(s.doc, k[3])           \* the element holding it
      h == GetAt(s.doc, p[2])
      hit == { i \in 1..Len(h.c) : h.c[i].n \in Features /\ (h.n = "kml" \/ AttrOf(h.c[i], "id") = <<TRUE, t[2]>>) }
  IN IF ~t[1] \/ k[2] = "" \/ k[3] = "" \/ ~p[1] \/ h.n \notin Containers \cup {"kml"} \/ hit = {} THEN s
     ELSE LET i == CHOOSE i \in hit : \A j \in hit : i <= j IN [s EXCEPT !.doc = PutAt(@, p[2], [h EXCEPT !.c = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))])]
One(s, op, x, um, mp) == CASE op = "Create" -> CreateOne(s, x, um, mp) [] op = "Change" -> ChangeOne(s, x, um, mp) [] OTHER -> DeleteOne(s, x, um, mp)
RECURSIVE Each(_,_,_,_,_), Ops(_,_,_,_)
Each(s, op, xs, um, mp) == IF xs = <<>> THEN s ELSE Each(One(s, op, Head(xs), um, mp), op, Tail(xs), um, mp)
Ops(s, os, um, mp) == IF os = <<>> THEN s
   ELSE LET o == Head(os) IN Ops(Each(s, o.n, SelectSeq(o.c, LAMBDA k : k.n \in SlotTags[o.n]), um, mp), Tail(os), um, mp)
Process(s, u, um, mp) == Ops(s, SelectSeq(u.c, LAMBDA k : k.n \in {"Create", "Change", "Delete"}), um, mp)
=============================================================================
