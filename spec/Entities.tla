------------------------------- MODULE Entities -------------------------------
(***************************************************************************)
(* Entities of a feature, their expansion, and the balloon of a feature.    *)
(* x is a canonical feature element of the canonical document doc.          *)
(***************************************************************************)
EXTENDS Styles
Has(x, n) == \E i \in 1..Len(x.c) : x.c[i].n = n
Sub(x, n) == SelectSeq(x.c, LAMBDA k : k.n = n)
\* the objects with an id, in document order, as elements
RECURSIVE ObjEls(_,_)
ObjEls(x, parent) ==
  IF x.n = "#" \/ x.n \in SimpleTags \/ ~Known(x.n) THEN <<>>
  ELSE (IF IsObj(TypeOf(x.n, parent)) /\ AttrOf(x, "id")[1] THEN <<x>> ELSE <<>>)
       \o Concat([ i \in 1..Len(x.c) |-> ObjEls(x.c[i], TypeOf(x.n, parent)) ])
SchemaOf(doc, sd) ==
  LET u == AttrOf(sd, "schemaUrl")[2]
      q == SelectSeq(ObjEls(doc, ""), LAMBDA y : AttrOf(y, "id")[2] = FragPart(u))
  IN IF ~Contains(u, "#") \/ q = <<>> \/ Last(q).n # "Schema" THEN <<>> ELSE <<Norm(Last(q), "")>>
\* <<key, value>> pairs in order; a later one replaces an earlier one
AttrEnt(x, k) == IF AttrOf(x, k)[1] THEN <<<<k, AttrOf(x, k)[2]>>>> ELSE <<>>
FieldEnt(x, n) == IF Has(x, n) THEN <<<<n, TextOf(Last(Sub(x, n)).c)>>>> ELSE <<>>
NameOf(x) == AttrOf(x, "name")[2]
Named2(q) == SelectSeq(q, LAMBDA y : AttrOf(y, "name")[1])
Ext(x) == IF Has(x, "ExtendedData") THEN Last(Sub(x, "ExtendedData")) ELSE [ n |-> "ExtendedData", t |-> "", a |-> <<>>, c |-> <<>> ]
DataEnt(d) == <<<<NameOf(d), FieldOf(d, "value")>>>> \o (IF Has(d, "displayName") THEN <<<<NameOf(d) \o "/displayName", FieldOf(d, "displayName")>>>> ELSE <<>>)
SchemaEnt(doc, sd) ==
  LET s == SchemaOf(doc, sd)
      p == IF s = <<>> THEN "" ELSE NameOf(s[1])
      fs == IF s = <<>> THEN <<>> ELSE SelectSeq(Named2(Sub(s[1], "SimpleField")), LAMBDA f : Has(f, "displayName"))
      ds == Named2(Sub(sd, "SimpleData"))
  IN [ i \in 1..Len(fs) |-> <<p \o "/" \o NameOf(fs[i]) \o "/displayName", FieldOf(fs[i], "displayName")>> ]
     \o [ i \in 1..Len(ds) |-> <<p \o "/" \o NameOf(ds[i]), TextOf(ds[i].c)>> ]
EntList(doc, x) ==
  LET da == Named2(Sub(Ext(x), "Data")) sd == Sub(Ext(x), "SchemaData") IN
  AttrEnt(x, "id") \o AttrEnt(x, "targetId") \o FieldEnt(x, "name") \o FieldEnt(x, "address") \o FieldEnt(x, "Snippet") \o FieldEnt(x, "description")
  \o Concat([ i \in 1..Len(da) |-> DataEnt(da[i]) ]) \o Concat([ i \in 1..Len(sd) |-> SchemaEnt(doc, sd[i]) ])
EntSet(l) == { l[i] : i \in { i \in 1..Len(l) : \A j \in i+1..Len(l) : l[j][1] # l[i][1] } }
\* every occurrence of a reference to a known entity, from left to right
RECURSIVE Expand(_,_,_,_)
Expand(t, m, a, b) ==
  LET p == Find(t, a, 1)
      h == { e \in m : IsPrefix(a \o e[1] \o b, From(t, p)) }
  IN IF p = 0 THEN t
     ELSE IF h = {} THEN SubSeq(t, 1, p) \o Expand(From(t, p + 1), m, a, b)
     ELSE LET e == CHOOSE e \in h : TRUE IN SubSeq(t, 1, p - 1) \o e[2] \o Expand(From(t, p + Len(a) + Len(e[1]) + Len(b)), m, a, b)
\* the rows of the table of a default balloon
DataRow(d) == <<IF Has(d, "displayName") THEN FieldOf(d, "displayName") ELSE NameOf(d), FieldOf(d, "value")>>
SimpleRow(s, d) ==
  LET fs == IF s = <<>> THEN <<>> ELSE SelectSeq(Named2(Sub(s[1], "SimpleField")), LAMBDA f : NameOf(f) = NameOf(d))
      f == Last(fs)
  IN <<IF fs = <<>> THEN NameOf(d) ELSE NameOf(s[1]) \o ":" \o (IF Has(f, "displayName") THEN FieldOf(f, "displayName") ELSE NameOf(f)), TextOf(d.c)>>
Rows(doc, x) ==
  LET da == Named2(Sub(Ext(x), "Data")) sd == Sub(Ext(x), "SchemaData")
      row(d) == LET s == SchemaOf(doc, d) ss == Sub(d, "SimpleData") IN [ i \in 1..Len(ss) |-> SimpleRow(s, ss[i]) ]
  IN [ i \in 1..Len(da) |-> DataRow(da[i]) ] \o Concat([ i \in 1..Len(sd) |-> row(sd[i]) ])
Balloon(raw, doc, x) ==
  LET m == EntSet(EntList(raw, x))
      st == Resolve(<<[url |-> "", doc |-> raw]>>, 1, FALSE, x, "normal")
      bs == Sub(st, "BalloonStyle")
      rows == Rows(raw, x)
  IN IF bs # <<>> /\ Has(Last(bs), "text") THEN Expand(FieldOf(Last(bs), "text"), m, "$[", "]")
     ELSE (IF Has(x, "name") THEN "<h3>" \o FieldOf(x, "name") \o "</h3><br/><br/>" ELSE "")
          \o (IF Has(x, "description") THEN Expand(FieldOf(x, "description"), m, "$[", "]") ELSE "")
          \o (IF Has(x, "ExtendedData") THEN "\n<table border=\"1\">\n" \o Join([ i \in 1..Len(rows) |-> "<tr><td>" \o rows[i][1] \o "</td><td>" \o rows[i][2] \o "</tr>\n" ], "") \o "</table>\n" ELSE "")
=============================================================================
