------------------------------------ MODULE Xsd ------------------------------------
(***************************************************************************)
(* XML Schema files: the global elements and types of a schema document (a   *)
(* tree as read) and what can be asked of them.  An element is [name, ref,   *)
(* type, def, abs, sub], a type [name, kind, base, seq, enum].  Types without *)
(* a name (those written inside an element or attribute) are nobody's, and   *)
(* so is what they hold.                                                     *)
(***************************************************************************)
EXTENDS Text, FiniteSets
XsAttr(x, k) == LET q == SelectSeq(x.a, LAMBDA p : p[1] = k) IN IF q = <<>> THEN <<FALSE, "">> ELSE <<TRUE, q[1][2]>>
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))
XsElem(x) == LET n == XsAttr(x, "name") f == XsAttr(x, "ref") IN
  IF n[1] THEN <<[ name |-> n[2], ref |-> FALSE, type |-> XsAttr(x, "type")[2], def |-> XsAttr(x, "default")[2], abs |-> XsAttr(x, "abstract")[2] \in {"true", "1"}, sub |-> XsAttr(x, "substitutionGroup")[2] ]>>
  ELSE IF f[1] THEN <<[ name |-> f[2], ref |-> TRUE, type |-> "", def |-> "", abs |-> FALSE, sub |-> "" ]>> ELSE <<>>
XsTypeTags == {"complexType", "simpleType"}
\* everything inside a type that is not inside another type
RECURSIVE Inside(_)
Inside(x) == Flat([ i \in 1..Len(x.c) |-> IF x.c[i].n \in XsTypeTags THEN <<>> ELSE <<x.c[i]>> \o Inside(x.c[i]) ])
Pick(q, n) == SelectSeq(q, LAMBDA k : k.n = n)
LastBase(q) == LET h == SelectSeq(q, LAMBDA k : XsAttr(k, "base")[1]) IN IF h = <<>> THEN "" ELSE XsAttr(h[Len(h)], "base")[2]
XsType(x) == LET q == Inside(x) IN
  IF ~XsAttr(x, "name")[1] THEN <<>>
  ELSE IF x.n = "complexType" THEN <<[ name |-> XsAttr(x, "name")[2], kind |-> "complex", base |-> LastBase(Pick(q, "extension")), seq |-> Flat([ i \in 1..Len(Pick(q, "element")) |-> XsElem(Pick(q, "element")[i]) ]), enum |-> <<>> ]>>
  ELSE <<[ name |-> XsAttr(x, "name")[2], kind |-> "simple", base |-> LastBase(Pick(q, "restriction")), seq |-> <<>>,
           enum |-> Flat([ i \in 1..Len(Pick(q, "enumeration")) |-> LET v == XsAttr(Pick(q, "enumeration")[i], "value") IN IF v[1] THEN <<v[2]>> ELSE <<>> ]) ]>>
\* the last of each name
LastOnes(q) == SelectSeq([ i \in 1..Len(q) |-> IF \E j \in (i + 1)..Len(q) : q[j].name = q[i].name THEN <<>> ELSE <<q[i]>> ], LAMBDA k : k # <<>>)
Only(q) == [ i \in 1..Len(q) |-> q[i][1] ]
Global(doc) == LET s == doc.n = "schema" ns == XsAttr(doc, "targetNamespace")
                   px == SelectSeq(doc.a, LAMBDA p : IsPrefix("xmlns:", p[1]) /\ p[2] = ns[2]) IN
  [ els |-> IF s THEN Only(LastOnes(Flat([ i \in 1..Len(doc.c) |-> IF doc.c[i].n = "element" THEN XsElem(doc.c[i]) ELSE <<>> ]))) ELSE <<>>,
    types |-> IF s THEN Only(LastOnes(Flat([ i \in 1..Len(doc.c) |-> IF doc.c[i].n \in XsTypeTags THEN XsType(doc.c[i]) ELSE <<>> ]))) ELSE <<>>,
    ok |-> s /\ ns[2] # "" /\ px # <<>>, ns |-> ns[2], px |-> IF px = <<>> THEN "" ELSE From(px[1][1], 7) ]
ByName(q, n) == SelectSeq(q, LAMBDA k : k.name = n)
LocalName(g, s) == IF g.ok /\ IsPrefix(g.px \o ":", s) /\ Len(s) > Len(g.px) + 1 THEN <<From(s, Len(g.px) + 2)>> ELSE <<>>
RefTo(g, s) == LET l == LocalName(g, s) IN IF l = <<>> THEN <<>> ELSE ByName(g.els, l[1])
TypeNamed(g, s) == LET l == LocalName(g, s) IN IF l = <<>> THEN <<>> ELSE ByName(g.types, l[1])
Prims == {"string", "boolean", "decimal", "float", "double", "duration", "dateTime", "time", "date", "gYearMonth", "gYear", "gMonthDay", "gDay", "gMonth", "hexBinary", "base64Binary", "anyURI", "NOTATION", "integer", "long", "int"}
ElType(g, e) == IF e.type = "" THEN <<>> ELSE IF e.type \in Prims THEN <<[ name |-> e.type, kind |-> "primitive", base |-> "xsd:primitive", seq |-> <<>>, enum |-> <<>> ]>> ELSE TypeNamed(g, e.type)
KidsOf(g, t) == Flat([ i \in 1..Len(t.seq) |-> IF t.seq[i].ref THEN RefTo(g, t.seq[i].name) ELSE <<t.seq[i]>> ])
BaseOf(g, t) == LET q == TypeNamed(g, t.base) IN IF q = <<>> \/ q[1].kind # "complex" THEN <<>> ELSE q
\* the bases of a type and whether the last of them has none
RECURSIVE Hier(_,_,_)
Hier(g, t, seen) == IF t.base = "" THEN <<TRUE, seen>>
  ELSE LET b == BaseOf(g, t) IN IF b = <<>> \/ \E i \in 1..Len(seen) : seen[i] = b[1] THEN <<FALSE, seen>> ELSE Hier(g, b[1], Append(seen, b[1]))
Bases(g, t) == LET h == Hier(g, t, <<t>>) IN <<h[1], Tail(h[2])>>
IsOf(g, t, f) == t = f \/ (g.ok /\ \E i \in 1..Len(Bases(g, t)[2]) : Bases(g, t)[2][i] = f)
OfType(g, f) == SelectSeq(g.els, LAMBDA e : LET t == ElType(g, e) IN t # <<>> /\ t[1].kind = "complex" /\ g.ok /\ IsOf(g, t[1], f))
OfKind(g, k) == SelectSeq(g.els, LAMBDA e : ~e.abs /\ LET t == ElType(g, e) IN t # <<>> /\ t[1].kind \in k)
Abstracts(g) == SelectSeq(g.els, LAMBDA e : e.abs)
Bag(q) == { q[i] : i \in 1..Len(q) }
SameBag(q, w) == Len(q) = Len(w) /\ Bag(q) = Bag(w)
=============================================================================
