------------------------------------ MODULE JXsd ------------------------------------
(* Judges schema queries (driver "xsd"). *)
EXTENDS Xsd, TraceData
VARIABLES sc, pos, st, ok
Start0(r) == Global(r.doc)
Aliases(q) == Flat([ i \in 1..Len(q) |-> IF Len(q[i]) = 3 /\ q[i][1] = "alias" THEN <<[ name |-> q[i][2], to |-> q[i][3] ]>> ELSE <<>> ])
AliasOf(q, n) == LET h == ByName(Aliases(q), n) IN IF h = <<>> THEN "" ELSE h[Len(h)].to
El(e) == [ name |-> e.name, ref |-> e.ref, type |-> e.type, def |-> e.def, abs |-> e.abs, sub |-> e.sub ]
Els(q) == [ i \in 1..Len(q) |-> El(q[i]) ]
Ty(t) == [ name |-> t.name, kind |-> t.kind, base |-> t.base, seq |-> Els(t.seq), enum |-> t.enum ]
Tys(q) == [ i \in 1..Len(q) |-> Ty(q[i]) ]
StepX(r, g, e) ==
  LET same(w, q) == IF SameBag(w, q) THEN <<>> ELSE <<e.q, w, q>>
      exact(w, q) == IF w = q THEN <<>> ELSE <<e.q, w, q>>
      t == IF e.q \in {"base", "hier", "oftype"} THEN ByName(g.types, e.n) ELSE <<>>
      c == t # <<>> /\ t[1].kind = "complex"
      el == IF e.q \in {"element", "children"} THEN ByName(g.els, e.n) ELSE <<>>
  IN [ s |-> g, bad |-> IF r.doc.n # "schema" /\ e.q # "parse" THEN <<>> ELSE \* another document: nothing is promised but an answer
  CASE e.q = "parse" -> IF e.ok # (r.doc.n # "!malformed") THEN <<"parsed", e.ok>> ELSE <<>>
    [] e.q = "schema" -> exact(<<IF g.ok THEN g.ns ELSE "", IF g.ok THEN g.px ELSE "">>, e.v)
    [] e.q = "elements" -> same(g.els, Els(e.els))
    [] e.q = "types" -> same(g.types, Tys(e.types))
    [] e.q = "element" -> exact(<<el, IF el = <<>> THEN <<>> ELSE ElType(g, el[1])>>, <<Els(e.els), Tys(e.types)>>)
    [] e.q = "children" -> exact(LET y == IF el = <<>> THEN <<>> ELSE ElType(g, el[1]) IN IF y = <<>> \/ y[1].kind # "complex" THEN <<>> ELSE KidsOf(g, y[1]), Els(e.els))
    [] e.q = "type" -> exact(ByName(g.types, e.n), Tys(e.types))
    [] e.q = "ref" -> exact(RefTo(g, e.n), Els(e.els))
    [] e.q = "alias" -> exact(AliasOf(r.xst, e.n), e.v)
    [] e.q = "base" -> exact(IF c THEN BaseOf(g, t[1]) ELSE <<>>, Tys(e.types))
    [] e.q = "hier" -> IF ~c THEN <<>> ELSE exact(IF g.ok THEN Bases(g, t[1]) ELSE <<FALSE, <<>>>>, <<e.ok, Tys(e.types)>>)
    [] e.q = "oftype" -> same(IF c THEN OfType(g, t[1]) ELSE <<>>, Els(e.els))
    [] e.q = "ids" -> LET a == Abstracts(g) k == OfKind(g, {"complex"}) m == OfKind(g, {"simple", "primitive"}) w == Els(e.els) n == Len(a) IN
         IF e.v # <<n, n + Len(k)>> \/ Len(w) # n + Len(k) + Len(m) THEN <<e.q, n, Len(k), Len(m), e.v, Len(w)>>
         ELSE IF ~SameBag(a, SubSeq(w, 1, n)) \/ ~SameBag(k, SubSeq(w, n + 1, n + Len(k))) \/ ~SameBag(m, SubSeq(w, n + Len(k) + 1, Len(w))) THEN <<e.q, w>> ELSE <<>> ]
INSTANCE TraceJudge WITH Start <- Start0, Step <- StepX
=============================================================================
