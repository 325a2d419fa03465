---------------------------------- MODULE Walk ----------------------------------
(***************************************************************************)
(* Traversals of a document: what each visits and in which order.  A node  *)
(* is named by its mark "m", a node without one by its tag and its parent. *)
(***************************************************************************)
EXTENDS Types, Ids, Uri
Label(x, pl) == IF AttrOf(x, "m")[1] THEN AttrOf(x, "m")[2] ELSE x.n \o "@" \o pl
\* a misplaced element does not know its parent
ParLabel(x, ty, k) == IF k.n \in SlotTags[ty] THEN Label(x, "") ELSE ""
Structured(x) == x.n # "#" /\ (x.n \in Complex \/ x.n = "coordinates")
(* ---- features ---- *)
Kids(x, ts) == SelectSeq(x.c, LAMBDA k : k.n \in ts)
RECURSIVE Feats(_)
Feats(x) == <<Label(x, "")>> \o (IF x.n \in Containers THEN LET f == Kids(x, Features) IN Concat([ i \in 1..Len(f) |-> Feats(f[i]) ]) ELSE <<>>)
RootFeature(n) == IF n.n = "kml" /\ Kids(n, Features) # <<>> THEN Kids(n, Features) ELSE IF n.n \in Features THEN <<n>> ELSE <<>>
(* ---- every structured element below, in serialization order ---- *)
RECURSIVE Below(_,_)
Below(x, ty) == Concat([ i \in 1..Len(x.c) |-> LET k == x.c[i] IN
  IF ~Structured(k) THEN <<>> ELSE <<[ ty |-> TypeOf(k.n, ty), l |-> Label(k, ParLabel(x, ty, k)) ]>> \o (IF k.n = "coordinates" THEN <<>> ELSE Below(k, TypeOf(k.n, ty))) ])
(* ---- visitor drivers: the elements in child slots ---- *)
Visited(x, ty) == SelectSeq(x.c, LAMBDA k : Structured(k) /\ k.n \in SlotTags[ty] /\ Pre(k.n, 4) \notin {"atom", "xal:"})
RECURSIVE VNodes(_,_,_)    \* the labels of a subtree
VNodes(x, ty, pl) == LET l == Label(x, pl) IN {l} \cup (IF x.n = "coordinates" \/ Pre(x.n, 4) \in {"atom", "xal:"} THEN {} ELSE LET v == Visited(x, ty) IN UNION { VNodes(v[i], TypeOf(v[i].n, ty), l) : i \in 1..Len(v) })
PosOf(q, l) == CHOOSE i \in 1..Len(q) : q[i] = l
\* the subtree is an interval that starts (or ends) with its root, and so on below
RECURSIVE Orderly(_,_,_,_,_)
Orderly(x, ty, pl, q, post) ==
  LET l == Label(x, pl)
      ps == { PosOf(q, k) : k \in VNodes(x, ty, pl) }
      p == PosOf(q, l)
      v == IF x.n = "coordinates" \/ Pre(x.n, 4) \in {"atom", "xal:"} THEN <<>> ELSE Visited(x, ty)
      n == Cardinality(ps)
      first(i) == PosOf(q, Label(v[i], l))
      slotof(i) == CHOOSE j \in 1..Len(Slots(ty)) : v[i].n \in Slots(ty)[j].ts
  IN /\ \A i \in ps : IF post THEN i <= p /\ i > p - n ELSE i >= p /\ i < p + n
     /\ \A i, j \in 1..Len(v) : (i < j /\ slotof(i) = slotof(j)) => first(i) < first(j)
     /\ \A i \in 1..Len(v) : Orderly(v[i], TypeOf(v[i].n, ty), l, q, post)
VisitOk(x, q, post) == LET s == VNodes(x, x.n, "") IN Len(q) = Cardinality(s) /\ { q[i] : i \in 1..Len(q) } = s /\ Orderly(x, x.n, "", q, post)
(* ---- the text as the parser sees it ---- *)
KnownKids(x) == SelectSeq(x.c, LAMBDA k : k.n # "#" /\ Known(k.n))
RECURSIVE LinksOf(_)
LinksOf(x) == LET ks == KnownKids(x) IN Concat([ i \in 1..Len(ks) |-> LET k == ks[i] IN
  CASE k.n \in {"href", "styleUrl"} -> <<TextOf(k.c)>>
    [] k.n = "targetHref" -> IF x.n = "Alias" THEN <<TextOf(k.c)>> ELSE <<>>
    [] k.n \in Complex -> LinksOf(k) \o (IF k.n = "SchemaData" /\ AttrOf(k, "schemaUrl")[1] THEN <<AttrOf(k, "schemaUrl")[2]>> ELSE <<>>)
    [] OTHER -> <<>> ])
Relative(h) == LET p == HrefParts(h) IN p.scheme = "" /\ p.net = "" /\ p.path # ""
LinkParents == {"PhotoOverlay", "GroundOverlay", "ScreenOverlay", "ItemIcon", "IconStyle", "NetworkLink", "Model"}
RECURSIVE Starts(_,_)      \* every recognised element, in the order of start tags
Starts(x, ty) == <<[ ty |-> ty, l |-> Label(x, "") ]>> \o (IF x.n \notin Complex THEN <<>> ELSE LET ks == KnownKids(x) IN Concat([ i \in 1..Len(ks) |-> Starts(ks[i], TypeOf(ks[i].n, ty)) ]))
(* ---- collecting features while parsing ---- *)
StyleUrlOf(x) == LET s == Kids(x, {"styleUrl"}) IN IF s = <<>> THEN <<>> ELSE <<TextOf(Last(s).c)>>
Rebased(b, u) == IF u = <<>> THEN "-" ELSE IF b # "" /\ Len(u[1]) > 1 /\ Ch(u[1], 1) = "#" THEN b \o u[1] ELSE u[1]
RECURSIVE Collected(_,_)
Collected(x, b) == IF x.n = "Update" \/ x.n \notin Complex THEN <<>> ELSE LET ks == KnownKids(x) IN Concat([ i \in 1..Len(ks) |-> LET k == ks[i] IN
  Collected(k, b) \o (IF k.n \in Features \ Containers THEN <<<<Label(k, ""), Rebased(b, StyleUrlOf(k))>>>> ELSE <<>>) ])
RECURSIVE SharedOf(_)
SharedOf(x) == IF x.n = "Update" \/ x.n \notin Complex THEN <<>> ELSE LET ks == KnownKids(x) IN Concat([ i \in 1..Len(ks) |-> LET k == ks[i] IN
  SharedOf(k) \o (IF x.n = "Document" /\ k.n \in StyleSelectors /\ AttrOf(k, "id")[1] THEN <<<<AttrOf(k, "id")[2], Label(k, "")>>>> ELSE <<>>) ])
LastWins(q) == { q[i] : i \in { j \in 1..Len(q) : \A k \in 1..Len(q) : q[k][1] = q[j][1] => k <= j } }
=============================================================================
