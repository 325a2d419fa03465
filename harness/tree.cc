#include "tree.h"
#include "kml/dom/xsd.h"
using std::string; using namespace kmldom;
namespace {
UpdateOperationPtr AsUpdateOperation(const ElementPtr& e) {
  if (CreatePtr c = AsCreate(e)) return c;
  if (DeletePtr c = AsDelete(e)) return c;
  return AsChange(e);
}
// Casts that work through the public type test only.
template <class T> T* To(const ElementPtr& e);
#define CAST(C) template <> C* To<C>(const ElementPtr& e) { return As##C(e).get(); }
CAST(Kml) CAST(Feature) CAST(Container) CAST(Document) CAST(Placemark) CAST(NetworkLink) CAST(Overlay) CAST(GroundOverlay)
CAST(PhotoOverlay) CAST(ScreenOverlay) CAST(GxTour) CAST(GxPlaylist) CAST(GxAnimatedUpdate) CAST(GxFlyTo) CAST(Polygon)
CAST(OuterBoundaryIs) CAST(InnerBoundaryIs) CAST(MultiGeometry) CAST(GxTrack) CAST(GxMultiTrack) CAST(Model) CAST(ResourceMap)
CAST(AbstractView) CAST(Region) CAST(Style) CAST(IconStyle) CAST(ListStyle) CAST(StyleMap) CAST(Pair) CAST(NetworkLinkControl)
CAST(Update) CAST(Create) CAST(Delete) CAST(Change) CAST(ExtendedData) CAST(SchemaData) CAST(Schema) CAST(AtomEntry) CAST(AtomFeed)
CAST(XalAddressDetails) CAST(XalCountry) CAST(XalAdministrativeArea) CAST(XalSubAdministrativeArea) CAST(XalLocality)
CAST(Point) CAST(LineString) CAST(LinearRing) CAST(GxLatLonQuad)
#define S(P, C, name, f) { name, false, [](const ElementPtr& e) { return To<P>(e) != NULL; }, \
  [](const ElementPtr& p, const ElementPtr& c) { To<P>(p)->set_##f(c ? As##C(c) : NULL); }, \
  [](const ElementPtr& p) { To<P>(p)->clear_##f(); }, [](const ElementPtr& p) { return To<P>(p)->has_##f(); }, \
  [](const ElementPtr& p) -> size_t { return To<P>(p)->get_##f() ? 1 : 0; }, \
  [](const ElementPtr& p, size_t) -> ElementPtr { return To<P>(p)->get_##f(); }, NULL },
#define A(P, C, name, f) AD(P, C, name, f, NULL)
#define AD(P, C, name, f, D) { name, true, [](const ElementPtr& e) { return To<P>(e) != NULL; }, \
  [](const ElementPtr& p, const ElementPtr& c) { To<P>(p)->add_##f(c ? As##C(c) : NULL); }, NULL, NULL, \
  [](const ElementPtr& p) -> size_t { return To<P>(p)->get_##f##_array_size(); }, \
  [](const ElementPtr& p, size_t i) -> ElementPtr { return To<P>(p)->get_##f##_array_at(i); }, D },
template <class P> bool Always(const ElementPtr& e) { return To<P>(e) != NULL; }
ElementPtr DelFeature(const ElementPtr& p, size_t i) { return AsContainer(p)->DeleteFeatureAt(i); }
ElementPtr DelSchema(const ElementPtr& p, size_t i) { return AsDocument(p)->DeleteSchemaAt(i); }
ElementPtr DelStyle(const ElementPtr& p, size_t i) { return AsDocument(p)->DeleteStyleSelectorAt(i); }
std::vector<Slot> Make() {
  Slot t[] = {
    S(Kml, NetworkLinkControl, "NetworkLinkControl", networklinkcontrol) S(Kml, Feature, "Feature", feature)
    S(Feature, AtomAuthor, "atom:author", atomauthor) S(Feature, AtomLink, "atom:link", atomlink) S(Feature, XalAddressDetails, "xal:AddressDetails", xaladdressdetails)
    S(Feature, Snippet, "Snippet", snippet) S(Feature, AbstractView, "AbstractView", abstractview) S(Feature, TimePrimitive, "TimePrimitive", timeprimitive)
    AD(Document, StyleSelector, "StyleSelector", styleselector, DelStyle)
    S(Feature, StyleSelector, "StyleSelector", styleselector)
    S(Feature, Region, "Region", region) S(Feature, ExtendedData, "ExtendedData", extendeddata)
    AD(Document, Schema, "Schema", schema, DelSchema) AD(Container, Feature, "Feature", feature, DelFeature)
    S(Placemark, Geometry, "Geometry", geometry) S(NetworkLink, Link, "link", link) S(Overlay, Icon, "Icon", icon)
    S(GroundOverlay, LatLonBox, "LatLonBox", latlonbox) S(GroundOverlay, GxLatLonQuad, "gx:LatLonQuad", gx_latlonquad)
    S(PhotoOverlay, ViewVolume, "ViewVolume", viewvolume) S(PhotoOverlay, ImagePyramid, "ImagePyramid", imagepyramid) S(PhotoOverlay, Point, "Point", point)
    S(ScreenOverlay, OverlayXY, "overlayXY", overlayxy) S(ScreenOverlay, ScreenXY, "screenXY", screenxy) S(ScreenOverlay, RotationXY, "rotationXY", rotationxy) S(ScreenOverlay, Size, "size", size)
    S(GxTour, GxPlaylist, "gx:Playlist", gx_playlist) A(GxPlaylist, GxTourPrimitive, "TourPrimitive", gx_tourprimitive)
    S(GxAnimatedUpdate, Update, "Update", update) S(GxFlyTo, AbstractView, "AbstractView", abstractview)
    S(Polygon, OuterBoundaryIs, "outerBoundaryIs", outerboundaryis) A(Polygon, InnerBoundaryIs, "innerBoundaryIs", innerboundaryis)
    S(OuterBoundaryIs, LinearRing, "LinearRing", linearring) S(InnerBoundaryIs, LinearRing, "LinearRing", linearring)
    A(MultiGeometry, Geometry, "Geometry", geometry) S(GxTrack, Model, "Model", model) S(GxTrack, ExtendedData, "ExtendedData", extendeddata) A(GxMultiTrack, GxTrack, "gx:Track", gx_track)
    S(Model, Location, "Location", location) S(Model, Orientation, "Orientation", orientation) S(Model, Scale, "Scale", scale) S(Model, Link, "Link", link) S(Model, ResourceMap, "ResourceMap", resourcemap)
    A(ResourceMap, Alias, "Alias", alias) S(AbstractView, TimePrimitive, "TimePrimitive", gx_timeprimitive)
    S(Region, LatLonAltBox, "LatLonAltBox", latlonaltbox) S(Region, Lod, "Lod", lod)
    S(Style, IconStyle, "IconStyle", iconstyle) S(Style, LabelStyle, "LabelStyle", labelstyle) S(Style, LineStyle, "LineStyle", linestyle) S(Style, PolyStyle, "PolyStyle", polystyle)
    S(Style, BalloonStyle, "BalloonStyle", balloonstyle) S(Style, ListStyle, "ListStyle", liststyle)
    S(IconStyle, IconStyleIcon, "Icon", icon) S(IconStyle, HotSpot, "hotSpot", hotspot) A(ListStyle, ItemIcon, "ItemIcon", itemicon)
    A(StyleMap, Pair, "Pair", pair) S(Pair, StyleSelector, "StyleSelector", styleselector)
    S(NetworkLinkControl, LinkSnippet, "linkSnippet", linksnippet) S(NetworkLinkControl, Update, "Update", update) S(NetworkLinkControl, AbstractView, "AbstractView", abstractview)
    A(Update, UpdateOperation, "op", updateoperation) A(Create, Container, "Container", container) A(Delete, Feature, "Feature", feature) A(Change, Object, "Object", object)
    A(ExtendedData, Data, "Data", data) A(ExtendedData, SchemaData, "SchemaData", schemadata) A(SchemaData, SimpleData, "SimpleData", simpledata) A(SchemaData, GxSimpleArrayData, "gx:SimpleArrayData", gx_simplearraydata)
    A(Schema, SimpleField, "SimpleField", simplefield) A(Schema, GxSimpleArrayField, "gx:SimpleArrayField", gx_simplearrayfield)
    A(AtomEntry, AtomCategory, "atom:category", category) A(AtomEntry, AtomLink, "atom:link", link) S(AtomEntry, AtomContent, "atom:content", content)
    A(AtomFeed, AtomCategory, "atom:category", category) A(AtomFeed, AtomLink, "atom:link", link) A(AtomFeed, AtomEntry, "atom:entry", entry)
    S(XalAddressDetails, XalCountry, "xal:Country", country) S(XalCountry, XalAdministrativeArea, "xal:AdministrativeArea", administrativearea)
    S(XalAdministrativeArea, XalLocality, "xal:Locality", locality) S(XalAdministrativeArea, XalSubAdministrativeArea, "xal:SubAdministrativeArea", subadministrativearea)
    S(XalSubAdministrativeArea, XalLocality, "xal:Locality", locality) S(XalLocality, XalThoroughfare, "xal:Thoroughfare", thoroughfare) S(XalLocality, XalPostalCode, "xal:PostalCode", postalcode)
    S(Point, Coordinates, "coordinates", coordinates) S(LineString, Coordinates, "coordinates", coordinates) S(LinearRing, Coordinates, "coordinates", coordinates) S(GxLatLonQuad, Coordinates, "coordinates", coordinates)
  };
  return std::vector<Slot>(t, t + sizeof t / sizeof t[0]);
}
}
const std::vector<Slot>& AllSlots() { static std::vector<Slot> s = Make(); return s; }
const Slot* FindSlot(const ElementPtr& p, const string& name) {
  const std::vector<Slot>& s = AllSlots();
  for (size_t i = 0; i < s.size(); ++i) if (name == s[i].name && s[i].fits(p)) return &s[i];
  return NULL;
}
ElementPtr NewElement(const string& tag) {
  if (tag == "IconStyleIcon") return KmlFactory::GetFactory()->CreateIconStyleIcon();
  return KmlFactory::GetFactory()->CreateElementById(static_cast<KmlDomType>(Xsd::GetSchema()->ElementId(tag)));
}
string TagOf(const ElementPtr& e) { return e->Type() == Type_IconStyleIcon ? "IconStyleIcon" : Xsd::GetSchema()->ElementName(e->Type()); }
