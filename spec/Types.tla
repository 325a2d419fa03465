---------------------------------- MODULE Types ----------------------------------
(* The KML type hierarchy as the API shows it: the ancestors of each type,    *)
(* the C++ class of each tag, and the order in which a visitor sees them.     *)
EXTENDS KmlSchema
Chain(ty) ==    \* ancestors by class name, nearest first
  CASE ty \in {"Document", "Folder"} -> <<"Container", "Feature", "Object">>
    [] ty \in Overlays -> <<"Overlay", "Feature", "Object">>
    [] ty \in Features \ (Overlays \cup Containers) -> <<"Feature", "Object">>
    [] ty \in Geometries -> <<"Geometry", "Object">>
    [] ty \in ColorStyles -> <<"ColorStyle", "SubStyle", "Object">>
    [] ty \in SubStyles \ ColorStyles -> <<"SubStyle", "Object">>
    [] ty \in StyleSelectors -> <<"StyleSelector", "Object">>
    [] ty \in AbstractViews -> <<"AbstractView", "Object">>
    [] ty \in {"TimeSpan", "TimeStamp"} -> <<"TimePrimitive", "Object">>
    [] ty = "gx:TimeSpan" -> <<"TimeSpan", "TimePrimitive", "Object">>
    [] ty = "gx:TimeStamp" -> <<"TimeStamp", "TimePrimitive", "Object">>
    [] ty \in TourPrimitives -> <<"GxTourPrimitive", "Object">>
    [] ty \in {"LatLonBox", "LatLonAltBox"} -> <<"AbstractLatLonBox", "Object">>
    [] ty \in {"Link", "Icon", "Url"} -> <<"AbstractLink", "BasicLink", "Object">>
    [] ty = "IconStyleIcon" -> <<"BasicLink", "Object">>
    [] ty \in Vec2s -> <<"Vec2">>
    [] ty = "gx:SimpleArrayField" -> <<"SimpleField">>
    [] ty \in {"Create", "Delete", "Change"} -> <<"UpdateOperation">>
    [] ty \in Objects -> <<"Object">>
    [] OTHER -> <<>>
Upper1 == [ coordinates |-> "Coordinates", hotSpot |-> "HotSpot", innerBoundaryIs |-> "InnerBoundaryIs", kml |-> "Kml", linkSnippet |-> "LinkSnippet",
  outerBoundaryIs |-> "OuterBoundaryIs", overlayXY |-> "OverlayXY", rotationXY |-> "RotationXY", screenXY |-> "ScreenXY", size |-> "Size" ]
  @@ [ x \in {"atom:author"} |-> "AtomAuthor" ] @@ [ x \in {"atom:category"} |-> "AtomCategory" ] @@ [ x \in {"atom:content"} |-> "AtomContent" ]
  @@ [ x \in {"atom:entry"} |-> "AtomEntry" ] @@ [ x \in {"atom:feed"} |-> "AtomFeed" ] @@ [ x \in {"atom:link"} |-> "AtomLink" ]
Pre(s, n) == IF Len(s) >= n THEN SubSeq(s, 1, n) ELSE ""
Class(ty) == IF ty \in DOMAIN Upper1 THEN Upper1[ty] ELSE IF Pre(ty, 3) = "gx:" THEN "Gx" \o SubSeq(ty, 4, Len(ty))
             ELSE IF Pre(ty, 4) = "xal:" THEN "Xal" \o SubSeq(ty, 5, Len(ty)) ELSE ty
\* the name by which the type table knows an abstract class
AbsTag == [ ColorStyle |-> "AbstractColorStyleGroup", Object |-> "AbstractObjectGroup", Overlay |-> "AbstractOverlayGroup", SubStyle |-> "AbstractSubStyleGroup",
  Vec2 |-> "vec2Type", GxTourPrimitive |-> "gx:AbstractTourPrimitiveGroup" ]
TagOf(c) == IF c \in DOMAIN AbsTag THEN AbsTag[c] ELSE c
Range(s) == { s[i] : i \in 1..Len(s) }
Abstract == {"ColorStyle", "Container", "Feature", "Geometry", "AbstractLatLonBox", "Object", "Overlay", "StyleSelector", "SubStyle", "TimePrimitive", "AbstractView",
  "BasicLink", "Vec2", "GxTourPrimitive"}
AbstractTags == { TagOf(c) : c \in Abstract }
All == TypeNames \cup {"coordinates"}
NoType == {"UpdateOperation", "AbstractLink"}            \* levels only visitors see
IsAs(ty) == {ty} \cup { TagOf(c) : c \in Range(Chain(ty)) \ NoType }
NoCast == NoType \cup {"Url", "BasicLink", "Vec2"}       \* there is no cast to these
Casts(ty) == ({Class(ty)} \cup Range(Chain(ty))) \ NoCast
Visits(ty) == (IF Pre(Class(ty), 4) = "Atom" \/ Pre(Class(ty), 3) = "Xal" THEN <<>> ELSE <<Class(ty)>> \o Chain(ty)) \o <<"Element">>
EnumOf(tag) == IF tag = "state" THEN "states" ELSE tag
EnumTags == (EnumKinds \ {"states"}) \cup {"state"}
=============================================================================
