------------------------------ MODULE OldSchema ------------------------------
(***************************************************************************)
(* Old-style schemas: <Schema name="F" parent="Placemark"> declares that    *)
(* later elements named F are Placemarks, and that unknown elements named   *)
(* like one of its SimpleFields hold values that the next such Placemark    *)
(* carries as SimpleData.  Old(x) is the document x as it is then read.     *)
(* The reading state: nm the declared name, fl the declared fields, pd the  *)
(* values not yet handed to a Placemark.                                    *)
(***************************************************************************)
EXTENDS KmlDom
AttrOf(x, k) == LET h == SelectSeq(x.a, LAMBDA p : p[1] = k) IN IF h = <<>> THEN <<>> ELSE <<h[1][2]>>
Elem(n, a, c) == [ n |-> n, t |-> "", a |-> a, c |-> c ]
SetAttr(as, k, v) == SelectSeq(as, LAMBDA p : p[1] = k /\ FALSE) \o
   (IF \E i \in 1..Len(as) : as[i][1] = k THEN [ i \in 1..Len(as) |-> IF as[i][1] = k THEN <<k, v>> ELSE as[i] ]
    ELSE <<<<k, v>>>> \o as)   \* "id" sorts before the other attributes used
InSeq(v, q) == \E i \in 1..Len(q) : q[i] = v
RECURSIVE OldEl(_,_), OldKids(_,_,_,_)
OldKids(cs, i, st, acc) ==
  IF i > Len(cs) THEN [ c |-> acc, st |-> st ]
  ELSE IF ~IsElem(cs[i]) THEN OldKids(cs, i + 1, st, Append(acc, cs[i]))
  ELSE IF (cs[i].n = st.nm /\ st.nm # "") \/ Known(cs[i].n) THEN
    LET r == OldEl(cs[i], st) IN OldKids(cs, i + 1, r.st, Append(acc, r.x))
  ELSE IF InSeq(cs[i].n, st.fl) THEN
    OldKids(cs, i + 1, [st EXCEPT !.pd = Append(@, Elem("SimpleData", <<<<"name", cs[i].n>>>>, LET t == FlatAll(cs[i].c) IN IF t = "" THEN <<>> ELSE <<TextNode(t)>>))], acc)
  ELSE OldKids(cs, i + 1, st, Append(acc, cs[i]))
OldEl(x, st) ==
  LET st1 == IF x.n = "Schema" /\ AttrOf(x, "parent") # <<>> /\ AttrOf(x, "name") # <<>> THEN [st EXCEPT !.nm = AttrOf(x, "name")[1]] ELSE st
      isF == st1.nm # "" /\ x.n = st1.nm
      in == IF x.n = "description" /\ ~isF THEN [ c |-> x.c, st |-> st1 ] ELSE OldKids(x.c, 1, st1, <<>>)
      s2 == in.st
  IN IF s2.nm # "" /\ x.n = "Schema" /\ ~isF THEN
        LET fs == SelectSeq(in.c, LAMBDA k : k.n = "SimpleField" /\ AttrOf(k, "name") # <<>>) IN
        [ x |-> Elem(x.n, SetAttr(x.a, "id", s2.nm \o "_id"), in.c),
          st |-> [s2 EXCEPT !.fl = @ \o [ i \in 1..Len(fs) |-> AttrOf(fs[i], "name")[1] ]] ]
     ELSE IF isF /\ x.n = s2.nm THEN
        [ x |-> Elem("Placemark", x.a, Append(in.c, Elem("ExtendedData", <<>>, <<Elem("SchemaData", <<<<"schemaUrl", s2.nm \o "_id">>>>, s2.pd)>>))),
          st |-> [s2 EXCEPT !.pd = <<>>] ]
     ELSE [ x |-> Elem(IF isF THEN "Placemark" ELSE x.n, x.a, in.c), st |-> s2 ]
Old(x) == OldEl(x, [ nm |-> "", fl |-> <<>>, pd |-> <<>> ]).x
=============================================================================
