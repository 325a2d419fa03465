------------------------------ MODULE SchemaUse ------------------------------
(***************************************************************************)
(* Schemas by name, and elements that are instances of a schema by their    *)
(* name.  Such an element stands for a Placemark with its attributes and    *)
(* content.                                                                 *)
(***************************************************************************)
EXTENDS OldSchema
Inner(x) == IF x.n \in SimpleTags THEN <<>> ELSE SelectSeq(x.c, LAMBDA k : IsElem(k) /\ Known(k.n))
RECURSIVE Schemas(_)   \* the named schemas of the documents within x, in order
Schemas(x) == LET ks == Inner(x) IN
  Concat([ i \in 1..Len(ks) |-> Schemas(ks[i]) \o (IF x.n = "Document" /\ ks[i].n = "Schema" /\ AttrOf(ks[i], "name") # <<>> THEN <<ks[i]>> ELSE <<>>) ])
SchemaNames(ss) == { AttrOf(ss[i], "name")[1] : i \in 1..Len(ss) }
SchemaOf(ss, n) == LET q == SelectSeq(ss, LAMBDA s : AttrOf(s, "name")[1] = n) IN q[Len(q)]
AsPlacemark(u) == Elem("Placemark", u.a, u.c)
\* x with a Placemark for every instance found in a container below the root
RECURSIVE Converted(_,_,_)
Converted(x, ns, root) ==
  IF x.n = "#" \/ ~Known(x.n) \/ x.n \in SimpleTags THEN x
  ELSE LET inst == SelectSeq(x.c, LAMBDA k : IsElem(k) /\ ~Known(k.n) /\ k.n \in ns) IN
    Elem(x.n, x.a, [ i \in 1..Len(x.c) |-> Converted(x.c[i], ns, FALSE) ]
                   \o (IF ~root /\ x.n \in {"Folder", "Document"} THEN [ i \in 1..Len(inst) |-> AsPlacemark(inst[i]) ] ELSE <<>>))
=============================================================================
