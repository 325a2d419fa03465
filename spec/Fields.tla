---------------------------------- MODULE Fields ----------------------------------
(***************************************************************************)
(* The simple fields and attributes of an element, by their accessors.      *)
(* The state of an element is the partial function from the fields that are *)
(* set to their values (as text; an enumerated value as its index).         *)
(* Attributes are named "@k", the text of a text element "#".               *)
(***************************************************************************)
EXTENDS KmlDom
FieldRow(ty) ==
  LET at == OwnAttrs(ty) fs == SelectSeq(Slots(ty), LAMBDA x : x.k = "f" /\ x.v \notin {"coords", "states"}) IN
  [ i \in 1..Len(at) |-> [ n |-> "@" \o at[i], v |-> AttrKind(ty, at[i]), tag |-> at[i] ] ] \o
  [ i \in 1..Len(fs) |-> [ n |-> fs[i].n, v |-> fs[i].v, tag |-> fs[i].n ] ] \o
  (IF ty \in TextTypes THEN <<[ n |-> "#", v |-> "str", tag |-> "#" ]>> ELSE <<>>)
FieldTable == [ ty \in TypeNames \ {"Metadata"} |-> FieldRow(ty) ]
FieldNames(ty) == { FieldTable[ty][i].n : i \in 1..Len(FieldTable[ty]) }
KindOf(ty, f) == LET r == FieldTable[ty] IN r[CHOOSE i \in 1..Len(r) : r[i].n = f].v
\* the value of a field that is not set
Default(ty, f, v) ==
  CASE v \in {"str", "desc"} -> ""
    [] v \in EnumKinds -> "0"
    [] v = "bool" -> IF f \in {"visibility", "fill", "outline"} THEN "1" ELSE "0"
    [] v = "color" -> IF f = "textColor" THEN "ff000000" ELSE "ffffffff"
    [] v = "int" -> IF f = "tileSize" THEN "256" ELSE IF f \in {"maxSnippetLines", "@maxLines"} THEN "2" ELSE "0"
    [] v = "dbl" -> CASE f \in {"scale", "width", "viewBoundScale", "@x", "@y"} -> "1" [] ty = "Scale" -> "1"
                      [] f \in {"refreshInterval", "viewRefreshTime"} -> "4" [] f = "maxLodPixels" -> "-1"
                      [] f \in {"north", "east"} -> "180" [] f \in {"south", "west"} -> "-180" [] OTHER -> "0"
Value(ty, s, f) == IF f \in DOMAIN s THEN s[f] ELSE Default(ty, f, KindOf(ty, f))
SetF(s, f, v) == (f :> v) @@ s
ClearF(s, f) == [ x \in DOMAIN s \ {f} |-> s[x] ]
\* how a value is written
Shown(ty, f, v) == IF KindOf(ty, f) \in EnumKinds THEN EnumTable[KindOf(ty, f)][NatOf(v, 0) + 1] ELSE v
ShownTag(ty) == IF ty = "IconStyleIcon" THEN "Icon" ELSE ty
DocAttrs(ty, s) == { <<From(f, 2), Shown(ty, f, s[f])>> : f \in { g \in DOMAIN s : Ch(g, 1) = "@" } }
DocKids(ty, s) == LET r == SelectSeq(FieldTable[ty], LAMBDA x : x.n \in DOMAIN s /\ x.n # "#" /\ Ch(x.n, 1) # "@") IN
  (IF "#" \in DOMAIN s /\ s["#"] # "" THEN <<TextNode(s["#"])>> ELSE <<>>) \o [ i \in 1..Len(r) |-> Leaf(r[i].n, Shown(ty, r[i].n, s[r[i].n])) ]
=============================================================================
