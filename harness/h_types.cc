// Driver for the type table: creation, type tests, casts, visits, names and
// enumerated values of every element type.
#include "drv.h"
#include <memory>
#include "kml/dom.h"
#include "kml/dom/xsd.h"
#include "kml/dom/visitor.h"
#include "kml/dom/visitor_driver.h"
using std::string; using namespace kmldom;
namespace {
string NameOf(int i) { return i == Type_IconStyleIcon ? "IconStyleIcon" : Xsd::GetSchema()->ElementName(i); }
struct Rec : public Visitor {
  JV v; ElementPtr want; bool same;
  explicit Rec(const ElementPtr& e) : v(JV::Arr()), want(e), same(true) {}
  void Note(const char* n, const ElementPtr& e) { v.push(n); if (e != want) same = false; }
  virtual void VisitElement(const ElementPtr& e) { Note("Element", e); Visitor::VisitElement(e); }
#define V(n) virtual void Visit##n(const n##Ptr& e) { Note(#n, e); Visitor::Visit##n(e); }
  V(AbstractLatLonBox) V(AbstractLink) V(AbstractView) V(Alias) V(BalloonStyle) V(BasicLink) V(Camera) V(Change) V(ColorStyle) V(Container) V(Coordinates) V(Create) V(Data) V(Delete) V(Document) V(ExtendedData) V(Feature) V(Field) V(Folder) V(Geometry) V(GroundOverlay) V(GxAnimatedUpdate) V(GxFlyTo) V(GxLatLonQuad) V(GxMultiTrack) V(GxPlaylist) V(GxSimpleArrayData) V(GxSimpleArrayField) V(GxSoundCue) V(GxTimeSpan) V(GxTimeStamp) V(GxTour) V(GxTourControl) V(GxTourPrimitive) V(GxTrack) V(GxWait) V(HotSpot) V(Icon) V(IconStyle) V(IconStyleIcon) V(ImagePyramid) V(InnerBoundaryIs) V(ItemIcon) V(Kml) V(LabelStyle) V(LatLonAltBox) V(LatLonBox) V(LineString) V(LineStyle) V(LinearRing) V(Link) V(LinkSnippet) V(ListStyle) V(Location) V(Lod) V(LookAt) V(Metadata) V(Model) V(MultiGeometry) V(NetworkLink) V(NetworkLinkControl) V(Object) V(Orientation) V(OuterBoundaryIs) V(Overlay) V(OverlayXY) V(Pair) V(PhotoOverlay) V(Placemark) V(Point) V(PolyStyle) V(Polygon) V(Region) V(ResourceMap) V(RotationXY) V(Scale) V(Schema) V(SchemaData) V(ScreenOverlay) V(ScreenXY) V(SimpleData) V(SimpleField) V(Size) V(Snippet) V(Style) V(StyleMap) V(StyleSelector) V(SubStyle) V(TimePrimitive) V(TimeSpan) V(TimeStamp) V(Update) V(UpdateOperation) V(Url) V(Vec2) V(ViewVolume) 
#undef V
};
// one unknown child's worth of context keeps Icon of IconStyle apart
JV Casts(const ElementPtr& e) {
  JV v = JV::Arr();
#define C(n) if (As##n(e)) { if (static_cast<const Element*>(As##n(e).get()) == e.get()) v.push(#n); else v.push("!" #n); }
  C(AbstractLatLonBox) C(AbstractView) C(Alias) C(AtomAuthor) C(AtomCategory) C(AtomContent) C(AtomEntry) C(AtomFeed) C(AtomLink) C(BalloonStyle) C(Camera) C(Change) C(ColorStyle) C(Container) C(Coordinates) C(Create) C(Data) C(Delete) C(Document) C(ExtendedData) C(Feature) C(Folder) C(Geometry) C(GroundOverlay) C(GxAnimatedUpdate) C(GxFlyTo) C(GxLatLonQuad) C(GxMultiTrack) C(GxPlaylist) C(GxSimpleArrayData) C(GxSimpleArrayField) C(GxSoundCue) C(GxTimeSpan) C(GxTimeStamp) C(GxTour) C(GxTourControl) C(GxTourPrimitive) C(GxTrack) C(GxWait) C(HotSpot) C(Icon) C(IconStyle) C(IconStyleIcon) C(ImagePyramid) C(InnerBoundaryIs) C(ItemIcon) C(Kml) C(LabelStyle) C(LatLonAltBox) C(LatLonBox) C(LineString) C(LineStyle) C(LinearRing) C(Link) C(LinkSnippet) C(ListStyle) C(Location) C(Lod) C(LookAt) C(Metadata) C(Model) C(MultiGeometry) C(NetworkLink) C(NetworkLinkControl) C(Object) C(Orientation) C(OuterBoundaryIs) C(Overlay) C(OverlayXY) C(Pair) C(PhotoOverlay) C(Placemark) C(Point) C(PolyStyle) C(Polygon) C(Region) C(ResourceMap) C(RotationXY) C(Scale) C(Schema) C(SchemaData) C(ScreenOverlay) C(ScreenXY) C(SimpleData) C(SimpleField) C(Size) C(Snippet) C(Style) C(StyleMap) C(StyleSelector) C(SubStyle) C(TimePrimitive) C(TimeSpan) C(TimeStamp) C(Update) C(ViewVolume) C(XalAddressDetails) C(XalAdministrativeArea) C(XalCountry) C(XalLocality) C(XalPostalCode) C(XalSubAdministrativeArea) C(XalThoroughfare) 
#undef C
  return v;
}
}
namespace {
// the element the named factory function makes
ElementPtr Named(int i) {
  KmlFactory* f = KmlFactory::GetFactory();
  switch (i) {
#define K(n, t) case Type_##t: return f->Create##n();
    K(Alias, Alias) K(AtomAuthor, AtomAuthor) K(AtomCategory, AtomCategory) K(AtomContent, AtomContent) K(AtomEntry, AtomEntry) K(AtomFeed, AtomFeed) K(AtomLink, AtomLink) K(BalloonStyle, BalloonStyle) K(Camera, Camera) K(Change, Change) K(Coordinates, coordinates) K(Create, Create) K(Data, Data) K(Delete, Delete) K(Document, Document) K(ExtendedData, ExtendedData) K(Folder, Folder) K(GroundOverlay, GroundOverlay) K(GxAnimatedUpdate, GxAnimatedUpdate) K(GxFlyTo, GxFlyTo) K(GxLatLonQuad, GxLatLonQuad) K(GxMultiTrack, GxMultiTrack) K(GxPlaylist, GxPlaylist) K(GxSimpleArrayData, GxSimpleArrayData) K(GxSimpleArrayField, GxSimpleArrayField) K(GxSoundCue, GxSoundCue) K(GxTimeSpan, GxTimeSpan) K(GxTimeStamp, GxTimeStamp) K(GxTour, GxTour) K(GxTourControl, GxTourControl) K(GxTrack, GxTrack) K(GxWait, GxWait) K(HotSpot, hotSpot) K(Icon, Icon) K(IconStyle, IconStyle) K(IconStyleIcon, IconStyleIcon) K(ImagePyramid, ImagePyramid) K(InnerBoundaryIs, innerBoundaryIs) K(ItemIcon, ItemIcon) K(Kml, kml) K(LabelStyle, LabelStyle) K(LatLonAltBox, LatLonAltBox) K(LatLonBox, LatLonBox) K(LineString, LineString) K(LineStyle, LineStyle) K(LinearRing, LinearRing) K(Link, Link) K(LinkSnippet, linkSnippet) K(ListStyle, ListStyle) K(Location, Location) K(Lod, Lod) K(LookAt, LookAt) K(Metadata, Metadata) K(Model, Model) K(MultiGeometry, MultiGeometry) K(NetworkLink, NetworkLink) K(NetworkLinkControl, NetworkLinkControl) K(Orientation, Orientation) K(OuterBoundaryIs, outerBoundaryIs) K(OverlayXY, overlayXY) K(Pair, Pair) K(PhotoOverlay, PhotoOverlay) K(Placemark, Placemark) K(Point, Point) K(PolyStyle, PolyStyle) K(Polygon, Polygon) K(Region, Region) K(ResourceMap, ResourceMap) K(RotationXY, rotationXY) K(Scale, Scale) K(Schema, Schema) K(SchemaData, SchemaData) K(ScreenOverlay, ScreenOverlay) K(ScreenXY, screenXY) K(SimpleData, SimpleData) K(SimpleField, SimpleField) K(Size, size) K(Snippet, Snippet) K(Style, Style) K(StyleMap, StyleMap) K(TimeSpan, TimeSpan) K(TimeStamp, TimeStamp) K(Update, Update) K(Url, Url) K(ViewVolume, ViewVolume) K(XalAddressDetails, XalAddressDetails) K(XalAdministrativeArea, XalAdministrativeArea) K(XalCountry, XalCountry) K(XalLocality, XalLocality) K(XalPostalCode, XalPostalCode) K(XalSubAdministrativeArea, XalSubAdministrativeArea) K(XalThoroughfare, XalThoroughfare)
#undef K
    default: return NULL;
  }
}
}
// {"from":i}: one type
DRIVER(types) {
  int i = in["i"].num(); Xsd* x = Xsd::GetSchema(); JV r = JV::Obj();
  string n = x->ElementName(i); r.set("i", i); r.set("n", NameOf(i)); r.set("tag", n); r.set("kind", (int)x->ElementType(i));
  r.set("back", n.empty() ? i : x->ElementId(n)); r.set("backname", n.empty() ? string() : NameOf(x->ElementId(n)));
  ElementPtr e = KmlFactory::GetFactory()->CreateElementById((KmlDomType)i);
  r.set("made", (bool)e); r.set("type", e ? NameOf(e->Type()) : string()); JV isa = JV::Arr();
  if (e) for (int j = 0; j < Type_Invalid; ++j) if (e->IsA((KmlDomType)j)) isa.push(NameOf(j));
  { ElementPtr q = Named(i); r.set("own", q ? NameOf(q->Type()) : string()); r.set("own_text", q ? SerializeRaw(q) : string()); }
  r.set("isa", isa); r.set("casts", Casts(e));
  if (e) { Rec rec(e); e->Accept(&rec); r.set("visit", rec.v); r.set("same", rec.same); } else { r.set("visit", JV::Arr()); r.set("same", true); }
  ElementPtr f = KmlFactory::GetFactory()->CreateElementFromName(n); r.set("named", f ? NameOf(f->Type()) : string());
  string err; ElementPtr p = n.empty() ? NULL : Parse("<" + n + "/>", &err); r.set("parsed", p ? NameOf(p->Type()) : string());
  r.set("fresh", !e || (!e->GetParent() && !e->GetUnknownAttributes() && e->get_unknown_elements_array_size() == 0 && e->get_misplaced_elements_array_size() == 0 && SerializeRaw(e) == (i == Type_Unknown ? "" : "<" + n + "/>")));
  r.set("fresh_text", e ? SerializeRaw(e) : string());
  JV en = JV::Arr(), eb = JV::Arr(); for (int j = -1; j < 12; ++j) { string v = x->EnumValue(i, j); en.push(v); if (!v.empty()) eb.push(x->EnumId(i, v)); }
  r.set("enums", en); r.set("ids", eb); r.set("bad", x->EnumId(i, "nope") == -1 && x->EnumId(i, "") == -1);
  return r;
}
#include "tree.h"
namespace {
void Walk(const ElementPtr& e, const string& parent, bool misplaced, JV* out) {
  const kmlbase::Attributes* a = e->GetUnknownAttributes(); string tag;
  if (a && const_cast<kmlbase::Attributes*>(a)->GetString("zz", &tag)) {
    JV r = JV::Obj(); r.set("tag", tag); r.set("ty", NameOf(e->Type())); r.set("parent", parent); r.set("misplaced", misplaced);
    JV isa = JV::Arr(); for (int j = 0; j < Type_Invalid; ++j) if (e->IsA((KmlDomType)j)) isa.push(NameOf(j));
    r.set("isa", isa); r.set("casts", Casts(e)); Rec rec(e); e->Accept(&rec); r.set("visit", rec.v); r.set("same", rec.same); out->push(r);
  }
  for (size_t i = 0; i < AllSlots().size(); ++i) {
    const Slot& s = AllSlots()[i]; if (!s.fits(e)) continue;
    if (s.multi) { for (size_t k = 0; k < s.size(e); ++k) Walk(s.at(e, k), tag, false, out); }
    else if (s.has(e) && s.at(e, 0)) Walk(s.at(e, 0), tag, false, out);
  }
  for (size_t i = 0; i < e->get_misplaced_elements_array_size(); ++i) Walk(e->get_misplaced_elements_array_at(i), tag, true, out);
}
}
DRIVER(typesof) {
  string err; ElementPtr e = Parse(in["x"].str(), &err); JV ev = JV::Arr(), r = JV::Obj();
  if (e) Walk(e, "", false, &ev);
  r.set("ev", ev); return r;
}
