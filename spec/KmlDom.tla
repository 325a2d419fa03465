-------------------------------- MODULE KmlDom --------------------------------
(***************************************************************************)
(* What parsing a document means.  A document is a tree of nodes           *)
(*   [n |-> tag, t |-> text, a |-> <<<<name,value>>,...>>, c |-> children] *)
(* with n = "#" for character data.  Norm maps any input tree to the tree  *)
(* the library must present (and serialize) for it.                        *)
(***************************************************************************)
EXTENDS KmlSchema, Text

TextNode(s) == [n |-> "#", t |-> s, a |-> <<>>, c |-> <<>>]
Leaf(n, s) == [n |-> n, t |-> "", a |-> <<>>, c |-> IF s = "" THEN <<>> ELSE <<TextNode(s)>>]
IsElem(x) == x.n # "#"
RECURSIVE TextOf(_)     \* the element's own character data
TextOf(cs) == IF cs = <<>> THEN "" ELSE (IF Head(cs).n = "#" THEN Head(cs).t ELSE "") \o TextOf(Tail(cs))
RECURSIVE FlatMarkup(_), FlatAll(_), FlatAttrs(_)  \* markup inside a description as text
FlatAttrs(as) == IF as = <<>> THEN "" ELSE " " \o Head(as)[1] \o "=\"" \o Head(as)[2] \o "\"" \o FlatAttrs(Tail(as))
FlatMarkup(x) == IF x.n = "#" THEN x.t ELSE "<" \o x.n \o FlatAttrs(x.a) \o ">" \o FlatAll(x.c) \o "</" \o x.n \o ">"
FlatAll(cs) == IF cs = <<>> THEN "" ELSE FlatMarkup(Head(cs)) \o FlatAll(Tail(cs))
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Last(s) == s[Len(s)]

(* ---- simple values ---- *)
CanonBool(s) == LET q == LTrim(s) IN IF IsPrefix("true", q) \/ IsPrefix("1", q) THEN "1" ELSE "0"
CanonInt(s) == CanonNum(s)
CanonColor(s) == LET q == LTrim(s) p == IF q # "" /\ Ch(q,1) = "#" THEN From(q, 2) ELSE q IN LowerS(SubSeq(p, 1, 8))
Tuple(tok) == LET ps == Split(tok, 1, ",") IN
   CanonNum(ps[1]) \o "," \o CanonNum(IF Len(ps) > 1 THEN ps[2] ELSE "0") \o "," \o CanonNum(IF Len(ps) > 2 THEN ps[3] ELSE "0")
CanonCoords(s) == LET ts == Tokens(s, 1, Ws) IN Join([ i \in 1..Len(ts) |-> Tuple(ts[i]) ], " ")
CanonVec3(s) == LET ts == Tokens(s, 1, Ws) IN Join([ i \in 1..Len(ts) |-> CanonNum(ts[i]) ], " ")
CanonStates(s) == Join(SelectSeq(Tokens(s, 1, {" "}), LAMBDA x : x \in EnumVals("states")), " ")
\* <<present, text>>
Canon(kind, s) ==
  CASE kind = "bool" -> <<TRUE, CanonBool(s)>>
    [] kind = "int" -> <<TRUE, CanonInt(s)>>
    [] kind = "dbl" -> <<TRUE, CanonNum(s)>>
    [] kind = "color" -> <<TRUE, CanonColor(s)>>
    [] kind = "coords" -> <<TRUE, CanonCoords(s)>>
    [] kind = "vec3" -> <<TRUE, CanonVec3(s)>>
    [] kind = "states" -> <<TRUE, CanonStates(s)>>   \* a list: unknown members are dropped
    [] kind \in EnumKinds -> <<s \in EnumVals(kind), s>>
    [] OTHER -> <<TRUE, s>>

(* ---- attributes ---- *)
CanonAttr(ty, kv) == LET r == Canon(AttrKind(ty, kv[1]), kv[2]) IN IF r[1] THEN <<<<kv[1], r[2]>>>> ELSE <<>>
CanonAttrs(ty, as) == Concat([ i \in 1..Len(as) |-> CanonAttr(ty, as[i]) ])

(* ---- elements ---- *)
TypeOf(n, parent) == IF n = "Icon" /\ parent = "IconStyle" THEN "IconStyleIcon" ELSE n
FieldText(x) == IF x.n = "description" THEN FlatAll(x.c) ELSE TextOf(x.c)
RECURSIVE Norm(_,_), NormField(_,_)
NormField(x, kind) == LET r == Canon(kind, FieldText(x)) IN IF r[1] THEN <<Leaf(x.n, r[2])>> ELSE <<>>
NormSlot(sl, kids, ty) ==
  LET mine == SelectSeq(kids, LAMBDA x : x.n \in sl.ts) IN
  IF mine = <<>> THEN <<>>
  ELSE CASE sl.k = "f" -> NormField(Last(mine), sl.v)
         [] sl.k = "F" -> Concat([ i \in 1..Len(mine) |-> NormField(mine[i], sl.v) ])
         [] sl.k = "e" -> << Norm(Last(mine), ty) >>
         [] OTHER      -> [ i \in 1..Len(mine) |-> Norm(mine[i], ty) ]
NormMisplaced(x, ty) ==
  IF x.n = "coordinates" THEN Leaf(x.n, CanonCoords(TextOf(x.c)))
  ELSE IF x.n \in SimpleTags THEN Leaf(x.n, FieldText(x))
  ELSE Norm(x, ty)
Norm(x, parent) ==
  LET ty == TypeOf(x.n, parent)
      kids == SelectSeq(x.c, IsElem)
      sls == Slots(ty)
      legal == SlotTags[ty]
      mis == SelectSeq(kids, LAMBDA k : Known(k.n) /\ k.n \notin legal)
      unk == SelectSeq(kids, LAMBDA k : ~Known(k.n))
      text == IF ty \in TextTypes /\ TextOf(x.c) # "" THEN <<TextNode(TextOf(x.c))>> ELSE <<>>
  IN [ n |-> x.n, t |-> "", a |-> CanonAttrs(ty, x.a),
       c |-> text \o Concat([ i \in 1..Len(sls) |-> NormSlot(sls[i], kids, ty) ])
                  \o [ i \in 1..Len(mis) |-> NormMisplaced(mis[i], ty) ] \o unk ]

(***************************************************************************)
(* Layout.  A serialization may put white space between the elements of a  *)
(* structured element and between coordinate tuples, and nowhere else.     *)
(* Clean removes exactly that from an output tree.  (Pretty-printing may   *)
(* show an empty Snippet, linkSnippet or SimpleData as white space.)       *)
(***************************************************************************)
RECURSIVE Clean(_,_)
Clean(x, pretty) ==
  IF x.n = "#" THEN x
  ELSE IF x.n = "coordinates" THEN [x EXCEPT !.c = LET j == Join(Tokens(TextOf(x.c), 1, Ws), " ") IN IF j = "" THEN <<>> ELSE <<TextNode(j)>>]
  ELSE IF x.n \in SimpleTags \/ ~Known(x.n) THEN x
  ELSE [x EXCEPT !.c = LET kept == IF x.n \in TextTypes /\ ~pretty THEN x.c
                                   ELSE SelectSeq(x.c, LAMBDA k : k.n # "#" \/ ~IsBlank(k.t))
                       IN [ i \in 1..Len(kept) |-> Clean(kept[i], pretty) ]]
\* what a pretty-printed tree shows: blank text elements are empty
RECURSIVE Blanked(_)
Blanked(x) == IF x.n = "#" \/ x.n \in SimpleTags \/ ~Known(x.n) THEN x ELSE
   [x EXCEPT !.c = LET kept == IF x.n \in TextTypes THEN SelectSeq(x.c, LAMBDA k : k.n # "#" \/ ~IsBlank(k.t)) ELSE x.c
                   IN [ i \in 1..Len(kept) |-> Blanked(kept[i]) ]]

(***************************************************************************)
(* The nesting depth of a tree, and what the parser accepts.               *)
(***************************************************************************)
RECURSIVE Depth(_)
MaxOf(S) == CHOOSE m \in S : \A k \in S : k <= m
Depth(x) == IF x.n = "#" THEN 0 ELSE 1 + (IF x.c = <<>> THEN 0 ELSE MaxOf({ Depth(x.c[i]) : i \in 1..Len(x.c) }))
MaxDepth == 100
=============================================================================
