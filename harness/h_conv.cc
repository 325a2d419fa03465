// Driver for dates, colours and the builders of kmlconvenience.
#include "drv.h"
#include "kml/engine/find.h"
#include "tree.h"
#include <cmath>
#include <cstdio>
#include "boost/scoped_ptr.hpp"
#include "kml/base/color32.h"
#include "kml/base/date_time.h"
#include "kml/convenience/convenience.h"
#include "kml/convenience/feature_list.h"
#include "kml/engine.h"
#include "kml/regionator/regionator_util.h"
using std::string; using namespace kmldom; using kmlbase::Color32; using kmlbase::DateTime; using kmlbase::Vec3;
namespace {
JV Days(time_t t) { long d = t / 86400, s = t % 86400; if (s < 0) { s += 86400; --d; } return JV::Arr().push(d).push(s); }
double Num(const JV& v) { return StrToD(v.s.c_str(), NULL); }
Vec3 ToVec(const JV& v) { return v.size() == 3 ? Vec3(Num(v.at(0)), Num(v.at(1)), Num(v.at(2))) : Vec3(Num(v.at(0)), Num(v.at(1))); }
JV Color(const Color32& c) { return JV::Arr().push((int)c.get_alpha()).push((int)c.get_blue()).push((int)c.get_green()).push((int)c.get_red()); }
uint32_t Word(const JV& b) { return (uint32_t)b.at(0).num() << 24 | (uint32_t)b.at(1).num() << 16 | (uint32_t)b.at(2).num() << 8 | (uint32_t)b.at(3).num(); }
}
// {"text":..}
DRIVER(date) {
  JV r = JV::Obj(); string t = in["text"].s; boost::scoped_ptr<DateTime> d(DateTime::Create(t)); r.set("ok", d.get() != NULL);
  r.set("t", d.get() ? Days(d->GetTimeT()) : JV::Arr()); r.set("tot", Days(DateTime::ToTimeT(t)));
  r.set("out", d.get() ? JV::Arr().push(d->GetXsdDate()).push(d->GetXsdTime()).push(d->GetXsdDateTime()) : JV::Arr()); return r;
}
// {"ops":[[op,value]..]} on one colour; bytes are [a,b,g,r]
DRIVER(color) {
  JV r = JV::Obj(), ev = JV::Arr(); Color32 c, prev;
  for (size_t k = 0; k < in["ops"].size(); ++k) {
    const JV& o = in["ops"].at(k); string op = o.at(0).s; const JV& v = o.at(1); prev = c;
    if (op == "text") c.set_color_abgr(v.s); else if (op == "newtext") c = Color32(v.s);
    else if (op == "abgr") c.set_color_abgr(Word(v)); else if (op == "argb") c.set_color_argb(Word(v)); else if (op == "assign") c = Word(v); else if (op == "assigni") c = (int32_t)Word(v);
    else if (op == "new") c = Color32(Word(v)); else if (op == "newi") c = Color32((int32_t)Word(v)); else if (op == "four") c = Color32(v.at(0).num(), v.at(1).num(), v.at(2).num(), v.at(3).num()); else if (op == "setfour") c.set_color_abgr((unsigned char)v.at(0).num(), (unsigned char)v.at(1).num(), (unsigned char)v.at(2).num(), (unsigned char)v.at(3).num());
    else if (op == "a") c.set_alpha(v.num()); else if (op == "b") c.set_blue(v.num()); else if (op == "g") c.set_green(v.num()); else if (op == "r") c.set_red(v.num());
    JV e = JV::Obj(); e.set("op", o); e.set("c", Color(c)); e.set("texts", JV::Arr().push(c.to_string_abgr()).push(c.to_string_argb()));
    Color32 w(c.get_color_abgr()), x(c.get_color_argb()); e.set("words", JV::Arr().push(Color(w)).push(Color(x)));
    e.set("cmp", JV::Arr().push(c == prev).push(c != prev).push(c < prev).push(c > prev)); ev.push(e);
  }
  r.set("ev", ev); return r;
}
// {"fn":name,"a":[args]}
DRIVER(build) {
  using namespace kmlconvenience; JV r = JV::Obj(); const JV& a = in["a"]; string fn = in["fn"].s; ElementPtr e; KmlFactory* k = KmlFactory::GetFactory();
  if (fn == "animated") e = CreateAnimatedUpdateChangePoint(a.at(0).s, ToVec(a.at(1)), Num(a.at(2)));
  else if (fn == "polygon") { LinearRingPtr l = k->CreateLinearRing(); CoordinatesPtr c = k->CreateCoordinates(); for (size_t i = 0; i < a.at(0).size(); ++i) c->add_vec3(ToVec(a.at(0).at(i))); l->set_coordinates(c); e = CreateBasicPolygonPlacemark(l); }
  else if (fn == "camera") e = CreateCamera(Num(a.at(0)), Num(a.at(1)), Num(a.at(2)), Num(a.at(3)), Num(a.at(4)), Num(a.at(5)), a.at(6).num());
  else if (fn == "lookat") e = CreateLookAt(Num(a.at(0)), Num(a.at(1)), Num(a.at(2)), Num(a.at(3)), Num(a.at(4)), Num(a.at(5)), a.at(6).num());
  else if (fn == "data") e = CreateDataNameValue(a.at(0).s, a.at(1).s);
  else if (fn == "atts") { std::vector<const char*> v; for (size_t i = 0; i < a.at(0).size(); ++i) v.push_back(a.at(0).at(i).s.c_str()); v.push_back(NULL); e = CreatePointFromLatLonAtts(&v[0]); }
  else if (fn == "vec3") e = CreatePointFromVec3(ToVec(a.at(0)));
  else if (fn == "latlon") e = CreatePointLatLon(Num(a.at(0)), Num(a.at(1)));
  else if (fn == "placemark") e = CreatePointPlacemark(a.at(0).s, Num(a.at(1)), Num(a.at(2)));
  else if (fn == "stamped") { boost::scoped_ptr<DateTime> d(DateTime::Create(a.at(2).s)); if (d.get()) e = CreatePointPlacemarkWithTimeStamp(CreatePointLatLon(Num(a.at(0)), Num(a.at(1))), *d, a.at(3).s.c_str()); }
  else if (fn == "region") e = CreateRegion2d(Num(a.at(0)), Num(a.at(1)), Num(a.at(2)), Num(a.at(3)), Num(a.at(4)), Num(a.at(5)));
  else if (fn == "flyto") { ElementPtr v = Parse(a.at(0).s, NULL); e = CreateFlyTo(AsAbstractView(v), Num(a.at(1))); }
  else if (fn == "flyfeature") { FeaturePtr f = AsFeature(Parse(a.at(0).s, NULL)); string before = f ? SerializeRaw(f) : ""; e = CreateFlyToForFeature(f, Num(a.at(1))); if (f && SerializeRaw(f) != before) e = NULL; }
  else if (fn == "wait") e = CreateWait(Num(a.at(0)));
  bool ofregion = fn == "boxline" || fn == "regionlink" || fn == "regiondoc" || fn == "child";
  if (ofregion) {
    RegionPtr g = AsRegion(Parse(a.at(0).s, NULL)); string before = SerializeRaw(g);
    if (fn == "boxline") e = kmlregionator::CreateLineStringBox(a.at(1).s, g); else if (fn == "regionlink") e = kmlregionator::CreateRegionNetworkLink(g, a.at(1).s);
    else if (fn == "regiondoc") e = kmlregionator::CreateRegionDocument(g); else e = kmlregionator::CreateChildRegion(g, (kmlregionator::quadrant_t)a.at(1).num());
    if (SerializeRaw(g) != before) e = NULL;
  }
  r.set("in", ofregion || fn == "flyto" || fn == "flyfeature" ? XmlTree(a.at(0).s) : XmlTree("<none/>")); r.set("null", !e);
  { JV al = JV::Arr(); kmlengine::ElementVector v; if (e) kmlengine::GetElementsById(e, Type_coordinates, &v); for (size_t i = 0; i < v.size(); ++i) { CoordinatesPtr c = AsCoordinates(v[i]); for (size_t j = 0; j < c->get_coordinates_array_size(); ++j) al.push(c->get_coordinates_array_at(j).has_altitude()); } r.set("alts", al); }
  r.set("tree", e ? XmlTree(SerializeRaw(e)) : XmlTree("<none/>")); return r;
}
// {"x":feature,"ops":[["add",n,v],["set",n,v],["get",n],["score",v],["getscore"],["clear"]]}
DRIVER(extdata) {
  using namespace kmlconvenience; JV r = JV::Obj(), ev = JV::Arr(); FeaturePtr f = AsFeature(Parse(in["x"].s, NULL));
  for (size_t k = 0; k < in["ops"].size(); ++k) {
    const JV& o = in["ops"].at(k); string op = o.at(0).s, val = "-"; bool ok = false; int n = 0;
    if (op == "add") AddExtendedDataValue(o.at(1).s, o.at(2).s, f); else if (op == "set") SetExtendedDataValue(o.at(1).s, o.at(2).s, f);
    else if (op == "get") { ok = GetExtendedDataValue(f, o.at(1).s, &val); if (GetExtendedDataValue(f, o.at(1).s, NULL)) val = "null"; }
    else if (op == "clear") f->clear_extendeddata(); else if (op == "nothing") { AddExtendedDataValue("a", "b", NULL); SetExtendedDataValue("a", "b", NULL); SetFeatureScore("1", NULL); ok = GetExtendedDataValue(NULL, "a", &val) || GetFeatureScore(NULL) != 0; }
    else if (op == "score") SetFeatureScore(o.at(1).s, f); else if (op == "getscore") n = GetFeatureScore(f);
    JV e = JV::Obj(); e.set("op", o); e.set("ok", ok); e.set("val", val); e.set("n", n); e.set("tree", XmlTree(SerializeRaw(f))); ev.push(e);
  }
  r.set("ev", ev); return r;
}
// {"pts":[[x,y,z?]..],"tol":number}  pts are [place, altitude or ""]
DRIVER(simplify) {
  JV r = JV::Obj(); KmlFactory* k = KmlFactory::GetFactory(); CoordinatesPtr s = k->CreateCoordinates(), d = k->CreateCoordinates();
  for (size_t i = 0; i < in["pts"].size(); ++i) { const JV& p = in["pts"].at(i); double q = p.at(0).num(); if (p.at(1).s == "") s->add_latlng(q, -q); else s->add_latlngalt(q, -q, Num(p.at(1))); }
  size_t had = in["had"].truth() ? 1 : 0; if (had) d->add_latlng(9, 9);
  kmlconvenience::SimplifyCoordinates(s, d, Num(in["tol"])); kmlconvenience::SimplifyCoordinates(NULL, d, 1); kmlconvenience::SimplifyCoordinates(s, NULL, 1);
  JV o = JV::Arr(); for (size_t i = had; i < d->get_coordinates_array_size(); ++i) { Vec3 v = d->get_coordinates_array_at(i); char b[64]; FmtD(b, 64, "%.15g", v.get_altitude()); o.push(JV::Arr().push(v.get_latitude() == -v.get_longitude() ? (int)v.get_latitude() : -1).push(v.has_altitude() ? b : "")); }
  r.set("out", o); r.set("src", (int)s->get_coordinates_array_size()); return r;
}
// {"lat":..,"lon":..,"radius":..,"n":..}: distance in millimetres, azimuth in thousandths of a degree
DRIVER(circle) {
  JV r = JV::Obj(), o = JV::Arr(); double la = Num(in["lat"]), lo = Num(in["lon"]), rad = Num(in["radius"]), R = M_PI / 180; CoordinatesPtr c = kmlconvenience::CreateCoordinatesCircle(la, lo, rad, (size_t)in["n"].num());
  for (size_t i = 0; i < c->get_coordinates_array_size(); ++i) {
    Vec3 v = c->get_coordinates_array_at(i); double y = v.get_latitude() * R, x = v.get_longitude() * R, a = la * R, b = lo * R;
    double h = sin((y - a) / 2) * sin((y - a) / 2) + cos(a) * cos(y) * sin((x - b) / 2) * sin((x - b) / 2), dist = 2 * 6366710.0 * asin(sqrt(h)), az = atan2(sin(x - b) * cos(y), cos(a) * sin(y) - sin(a) * cos(y) * cos(x - b)) / R;
    if (az < 0) az += 360; o.push(JV::Arr().push((long)llround(dist * 1000)).push((long)llround(az * 1000)));
  }
  r.set("pts", o); return r;
}
