------------------------------ MODULE KmlSchema ------------------------------
(***************************************************************************)
(* The KML 2.2 / gx: / atom: / xal: vocabulary libkml supports: for every  *)
(* structured element its slots in serialization order, the kind of every  *)
(* simple value, the kind of every typed attribute and the abstract type   *)
(* hierarchy.  This module is the single source of truth: the documents    *)
(* fed to the code are generated from it (see DumpSchema.tla) and the      *)
(* judgement of the code's output is computed from it (KmlDom.tla).        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* slot constructors.  k: "f" one simple field, "F" any number of them,
\* "e" one child element of a group, "m" any number of them.
F(n, v)   == [k |-> "f", n |-> n, v |-> v, ts |-> {n}]
FM(n, v)  == [k |-> "F", n |-> n, v |-> v, ts |-> {n}]
E(n)      == [k |-> "e", n |-> n, v |-> "", ts |-> {n}]
G(n, ts)  == [k |-> "e", n |-> n, v |-> "", ts |-> ts]
M(n, ts)  == [k |-> "m", n |-> n, v |-> "", ts |-> ts]

AbstractViews == {"LookAt", "Camera"}
TimePrimitives == {"TimeSpan", "TimeStamp", "gx:TimeSpan", "gx:TimeStamp"}
StyleSelectors == {"Style", "StyleMap"}
Features == {"Placemark", "Document", "Folder", "NetworkLink", "GroundOverlay",
             "PhotoOverlay", "ScreenOverlay", "gx:Tour"}
Containers == {"Document", "Folder"}
Geometries == {"Point", "LineString", "LinearRing", "Polygon", "MultiGeometry",
               "Model", "gx:Track", "gx:MultiTrack"}
TourPrimitives == {"gx:AnimatedUpdate", "gx:FlyTo", "gx:Wait", "gx:SoundCue", "gx:TourControl"}
Links == {"Link", "Url"}
ColorStyles == {"IconStyle", "LabelStyle", "LineStyle", "PolyStyle"}
SubStyles == ColorStyles \cup {"BalloonStyle", "ListStyle"}
Overlays == {"GroundOverlay", "PhotoOverlay", "ScreenOverlay"}
Vec2s == {"hotSpot", "overlayXY", "screenXY", "rotationXY", "size"}

FeatureBefore == << F("name","str"), F("visibility","bool"), F("open","bool"), E("atom:author"), E("atom:link"),
   F("address","str"), F("phoneNumber","str"), E("xal:AddressDetails"), E("Snippet"), F("description","desc"),
   G("AbstractView",AbstractViews), G("TimePrimitive",TimePrimitives), F("styleUrl","str") >>
FeatureAfter == << E("Region"), E("ExtendedData"), F("gx:balloonVisibility","bool") >>
FeatureSlots == FeatureBefore \o << G("StyleSelector",StyleSelectors) >> \o FeatureAfter
OverlaySlots == FeatureSlots \o << F("color","color"), F("drawOrder","int"), E("Icon") >>
AltMode == << F("altitudeMode","altitudeMode"), F("gx:altitudeMode","gx:altitudeMode") >>
Extrude == << F("extrude","bool") >>
Tess == Extrude \o << F("tessellate","bool") >>
Dbl(n) == F(n, "dbl")
Str(n) == F(n, "str")
LinkSlots == << Str("href"), F("refreshMode","refreshMode"), Dbl("refreshInterval"), F("viewRefreshMode","viewRefreshMode"),
   Dbl("viewRefreshTime"), Dbl("viewBoundScale"), Str("viewFormat"), Str("httpQuery") >>
ColorStyleSlots == << F("color","color"), F("colorMode","colorMode") >>
LatLonBoxBase == << Dbl("north"), Dbl("south"), Dbl("east"), Dbl("west") >>
Atomics == << Str("atom:id"), Str("atom:title"), Str("atom:updated"), M("atom:category",{"atom:category"}), M("atom:link",{"atom:link"}) >>

TypeTable == <<
  << "kml", << E("NetworkLinkControl"), G("Feature",Features) >> >>,
  << "Document", FeatureBefore \o << M("StyleSelector",StyleSelectors) >> \o FeatureAfter \o << M("Schema",{"Schema"}), M("Feature",Features) >> >>,
  << "Folder", FeatureSlots \o << M("Feature",Features) >> >>,
  << "Placemark", FeatureSlots \o << G("Geometry",Geometries) >> >>,
  << "NetworkLink", FeatureSlots \o << F("refreshVisibility","bool"), F("flyToView","bool"), G("link",Links) >> >>,
  << "GroundOverlay", OverlaySlots \o << Dbl("altitude") >> \o AltMode \o << E("LatLonBox"), E("gx:LatLonQuad") >> >>,
  << "PhotoOverlay", OverlaySlots \o << Dbl("rotation"), E("ViewVolume"), E("ImagePyramid"), E("Point"), F("shape","shape") >> >>,
  << "ScreenOverlay", OverlaySlots \o << E("overlayXY"), E("screenXY"), E("rotationXY"), E("size"), Dbl("rotation") >> >>,
  << "gx:Tour", FeatureSlots \o << E("gx:Playlist") >> >>,
  << "gx:Playlist", << M("TourPrimitive",TourPrimitives) >> >>,
  << "gx:AnimatedUpdate", << Dbl("gx:duration"), E("Update") >> >>,
  << "gx:FlyTo", << Dbl("gx:duration"), F("gx:flyToMode","gx:flyToMode"), G("AbstractView",AbstractViews) >> >>,
  << "gx:Wait", << Dbl("gx:duration") >> >>,
  << "gx:SoundCue", << Str("href") >> >>,
  << "gx:TourControl", << F("gx:playMode","gx:playMode") >> >>,
  << "Point", Extrude \o AltMode \o << F("coordinates","coords") >> >>,
  << "LineString", Tess \o AltMode \o << F("coordinates","coords") >> >>,
  << "LinearRing", Tess \o AltMode \o << F("coordinates","coords") >> >>,
  << "Polygon", Tess \o AltMode \o << E("outerBoundaryIs"), M("innerBoundaryIs",{"innerBoundaryIs"}) >> >>,
  << "outerBoundaryIs", << E("LinearRing") >> >>,
  << "innerBoundaryIs", << E("LinearRing") >> >>,
  << "MultiGeometry", << M("Geometry",Geometries) >> >>,
  << "gx:Track", AltMode \o << FM("when","str"), FM("gx:coord","vec3"), FM("gx:angles","vec3"), E("Model"), E("ExtendedData") >> >>,
  << "gx:MultiTrack", << F("gx:interpolate","bool"), M("gx:Track",{"gx:Track"}) >> >>,
  << "Model", AltMode \o << E("Location"), E("Orientation"), E("Scale"), E("Link"), E("ResourceMap") >> >>,
  << "Location", << Dbl("longitude"), Dbl("latitude"), Dbl("altitude") >> >>,
  << "Orientation", << Dbl("heading"), Dbl("tilt"), Dbl("roll") >> >>,
  << "Scale", << Dbl("x"), Dbl("y"), Dbl("z") >> >>,
  << "ResourceMap", << M("Alias",{"Alias"}) >> >>,
  << "Alias", << Str("targetHref"), Str("sourceHref") >> >>,
  << "LookAt", << G("TimePrimitive",TimePrimitives), Dbl("longitude"), Dbl("latitude"), Dbl("altitude"), Dbl("heading"), Dbl("tilt"), Dbl("range") >> \o AltMode >>,
  << "Camera", << G("TimePrimitive",TimePrimitives), Dbl("longitude"), Dbl("latitude"), Dbl("altitude"), Dbl("heading"), Dbl("tilt"), Dbl("roll") >> \o AltMode >>,
  << "LatLonBox", LatLonBoxBase \o << Dbl("rotation") >> >>,
  << "LatLonAltBox", LatLonBoxBase \o << Dbl("minAltitude"), Dbl("maxAltitude") >> \o AltMode >>,
  << "gx:LatLonQuad", << F("coordinates","coords") >> >>,
  << "Lod", << Dbl("minLodPixels"), Dbl("maxLodPixels"), Dbl("minFadeExtent"), Dbl("maxFadeExtent") >> >>,
  << "Region", << E("LatLonAltBox"), E("Lod") >> >>,
  << "ViewVolume", << Dbl("leftFov"), Dbl("rightFov"), Dbl("bottomFov"), Dbl("topFov"), Dbl("near") >> >>,
  << "ImagePyramid", << F("tileSize","int"), F("maxWidth","int"), F("maxHeight","int"), F("gridOrigin","gridOrigin") >> >>,
  << "Style", << E("IconStyle"), E("LabelStyle"), E("LineStyle"), E("PolyStyle"), E("BalloonStyle"), E("ListStyle") >> >>,
  << "IconStyle", ColorStyleSlots \o << Dbl("scale"), Dbl("heading"), E("Icon"), E("hotSpot") >> >>,
  << "IconStyleIcon", << Str("href"), Dbl("gx:x"), Dbl("gx:y"), Dbl("gx:w"), Dbl("gx:h") >> >>,
  << "LabelStyle", ColorStyleSlots \o << Dbl("scale") >> >>,
  << "LineStyle", ColorStyleSlots \o << Dbl("width") >> >>,
  << "PolyStyle", ColorStyleSlots \o << F("fill","bool"), F("outline","bool") >> >>,
  << "BalloonStyle", << F("bgColor","color"), F("textColor","color"), Str("text"), F("displayMode","displayMode") >> >>,
  << "ListStyle", << F("listItemType","listItemType"), F("bgColor","color"), M("ItemIcon",{"ItemIcon"}), F("maxSnippetLines","int") >> >>,
  << "ItemIcon", << F("state","states"), Str("href") >> >>,
  << "StyleMap", << M("Pair",{"Pair"}) >> >>,
  << "Pair", << F("key","key"), Str("styleUrl"), G("StyleSelector",StyleSelectors) >> >>,
  << "Link", LinkSlots >>, << "Icon", LinkSlots >>, << "Url", LinkSlots >>,
  << "NetworkLinkControl", << Dbl("minRefreshPeriod"), Dbl("maxSessionLength"), Str("cookie"), Str("message"), Str("linkName"),
       Str("linkDescription"), E("linkSnippet"), Str("expires"), E("Update"), G("AbstractView",AbstractViews) >> >>,
  << "Update", << Str("targetHref"), M("op",{"Create","Delete","Change"}) >> >>,
  << "Create", << M("Container",Containers) >> >>,
  << "Delete", << M("Feature",Features) >> >>,
  << "Change", << M("Object",{}) >> >>,
  << "ExtendedData", << M("Data",{"Data"}), M("SchemaData",{"SchemaData"}) >> >>,
  << "Data", << Str("displayName"), Str("value") >> >>,
  << "SchemaData", << M("SimpleData",{"SimpleData"}), M("gx:SimpleArrayData",{"gx:SimpleArrayData"}) >> >>,
  << "SimpleData", << >> >>,
  << "gx:SimpleArrayData", << FM("gx:value","str") >> >>,
  << "Schema", << M("SimpleField",{"SimpleField"}), M("gx:SimpleArrayField",{"gx:SimpleArrayField"}) >> >>,
  << "SimpleField", << Str("displayName") >> >>,
  << "gx:SimpleArrayField", << Str("displayName") >> >>,
  << "Metadata", << >> >>,
  << "Snippet", << >> >>, << "linkSnippet", << >> >>,
  << "TimeSpan", << Str("begin"), Str("end") >> >>, << "gx:TimeSpan", << Str("begin"), Str("end") >> >>,
  << "TimeStamp", << Str("when") >> >>, << "gx:TimeStamp", << Str("when") >> >>,
  << "hotSpot", << >> >>, << "overlayXY", << >> >>, << "screenXY", << >> >>, << "rotationXY", << >> >>, << "size", << >> >>,
  << "atom:author", << Str("atom:name"), Str("atom:uri"), Str("atom:email") >> >>,
  << "atom:link", << >> >>, << "atom:category", << >> >>, << "atom:content", << >> >>,
  << "atom:entry", Atomics \o << Str("atom:summary"), E("atom:content") >> >>,
  << "atom:feed", Atomics \o << M("atom:entry",{"atom:entry"}) >> >>,
  << "xal:AddressDetails", << E("xal:Country") >> >>,
  << "xal:Country", << Str("xal:CountryNameCode"), E("xal:AdministrativeArea") >> >>,
  << "xal:AdministrativeArea", << Str("xal:AdministrativeAreaName"), E("xal:Locality"), E("xal:SubAdministrativeArea") >> >>,
  << "xal:SubAdministrativeArea", << Str("xal:SubAdministrativeAreaName"), E("xal:Locality") >> >>,
  << "xal:Locality", << Str("xal:LocalityName"), E("xal:Thoroughfare"), E("xal:PostalCode") >> >>,
  << "xal:Thoroughfare", << Str("xal:ThoroughfareNumber"), Str("xal:ThoroughfareName") >> >>,
  << "xal:PostalCode", << Str("xal:PostalCodeNumber") >> >>
>>

TypeNames == { TypeTable[i][1] : i \in 1..Len(TypeTable) }
Complex == TypeNames \ {"IconStyleIcon"}      \* tags that create a structured element

\* Objects: the element types with id and targetId.
Objects == Complex \ ({"kml", "Snippet", "linkSnippet", "Metadata", "SimpleData", "gx:SimpleArrayData", "SimpleField", "gx:SimpleArrayField",
             "Create", "Delete", "Change", "Update", "outerBoundaryIs", "innerBoundaryIs", "NetworkLinkControl", "ExtendedData"}
             \cup Vec2s \cup { n \in Complex : Len(n) > 4 /\ SubSeq(n,1,4) \in {"xal:", "atom"} })
Slots0 == [ ty \in TypeNames |-> (CHOOSE i \in 1..Len(TypeTable) : TypeTable[i][1] = ty) ]
SlotTable == [ ty \in TypeNames |->
   IF ty = "Change" THEN << M("Object", Objects) >> ELSE TypeTable[Slots0[ty]][2] ]
Slots(ty) == SlotTable[ty]
SlotTags == [ ty \in TypeNames |-> UNION { SlotTable[ty][i].ts : i \in 1..Len(SlotTable[ty]) } ]

\* elements whose own character data is their value
TextTypes == {"Snippet", "linkSnippet", "SimpleData"}

FieldTags == UNION { { SlotTable[ty][i].n : i \in { j \in 1..Len(SlotTable[ty]) : SlotTable[ty][j].k \in {"f","F"} } } : ty \in TypeNames }
SimpleTags == FieldTags \cup {"snippet", "altitudeModeGroup", "units", "maxLength", "atom:label", "atom:scheme", "atom:term"}
Known(n) == n \in Complex \/ n \in SimpleTags

EnumTable == [
  altitudeMode |-> <<"clampToGround","relativeToGround","absolute">>, colorMode |-> <<"normal","random">>,
  displayMode |-> <<"default","hide">>, gridOrigin |-> <<"lowerLeft","upperLeft">>,
  states |-> <<"open","closed","error","fetching0","fetching1","fetching2">>,
  listItemType |-> <<"check","radioFolder","checkOffOnly","checkHideChildren">>,
  refreshMode |-> <<"onChange","onInterval","onExpire">>, shape |-> <<"rectangle","cylinder","sphere">>,
  key |-> <<"normal","highlight">>, units |-> <<"fraction","pixels","insetPixels">>,
  viewRefreshMode |-> <<"never","onRequest","onStop","onRegion">> ]
  @@ [ x \in {"gx:altitudeMode"} |-> <<"clampToSeaFloor","relativeToSeaFloor">> ]
  @@ [ x \in {"gx:flyToMode"} |-> <<"bounce","smooth">> ]
  @@ [ x \in {"gx:playMode"} |-> <<"pause">> ]
EnumKinds == DOMAIN EnumTable
EnumVals(k) == { EnumTable[k][i] : i \in 1..Len(EnumTable[k]) }

\* typed attributes; every other attribute is kept verbatim
AttrKind(ty, k) ==
  IF ty \in Vec2s /\ k \in {"x","y"} THEN "dbl"
  ELSE IF ty \in Vec2s /\ k \in {"xunits","yunits"} THEN "units"
  ELSE IF ty \in {"Snippet","linkSnippet"} /\ k = "maxLines" THEN "int"
  ELSE IF ty = "atom:link" /\ k = "length" THEN "int" ELSE "str"
\* the attributes the type gives a meaning to
OwnAttrs(ty) ==
  (IF ty \in Objects \/ ty = "IconStyleIcon" THEN <<"id","targetId">> ELSE <<>>) \o
  (CASE ty \in Vec2s -> <<"x","y","xunits","yunits">>
     [] ty \in {"Snippet","linkSnippet"} -> <<"maxLines">>
     [] ty = "kml" -> <<"hint">>
     [] ty = "SchemaData" -> <<"schemaUrl">>
     [] ty \in {"Data","SimpleData","gx:SimpleArrayData","Schema"} -> <<"name">>
     [] ty \in {"SimpleField","gx:SimpleArrayField"} -> <<"type","name">>
     [] ty = "atom:link" -> <<"href","rel","type","hreflang","title","length">>
     [] ty = "atom:category" -> <<"term","scheme","label">>
     [] ty = "atom:content" -> <<"src","type">>
     [] OTHER -> <<>>)
=============================================================================
