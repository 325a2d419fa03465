// Driver for coordinate text.
#include "drv.h"
#include <cmath>
#include <cstring>
#include "kml/dom.h"
#include "kml/engine.h"
using std::string; using namespace kmldom; using kmlbase::Vec3;
namespace {
string Num(double d) { char b[64]; FmtD(b, sizeof b, "%.15g", d); return b; }
double At(const Vec3& v, int k) { return k == 0 ? v.get_longitude() : k == 1 ? v.get_latitude() : v.get_altitude(); }
JV Pt(const Vec3& v) { return JV::Arr().push(Num(v.get_longitude())).push(Num(v.get_latitude())).push(Num(v.get_altitude())); }
typedef std::vector<Vec3> Pts;
Pts Points(const ElementPtr& e, const string& what) {
  Pts r;
  if (GxTrackPtr t = AsGxTrack(e)) {
    if (what == "gx:coord") for (size_t i = 0; i < t->get_gx_coord_array_size(); ++i) r.push_back(t->get_gx_coord_array_at(i));
    else for (size_t i = 0; i < t->get_gx_angles_array_size(); ++i) r.push_back(t->get_gx_angles_array_at(i));
    return r;
  }
  CoordinatesPtr c;
  if (PointPtr p = AsPoint(e)) c = p->get_coordinates();
  else if (LineStringPtr p = AsLineString(e)) c = p->get_coordinates();
  else if (LinearRingPtr p = AsLinearRing(e)) c = p->get_coordinates();
  else if (GxLatLonQuadPtr p = AsGxLatLonQuad(e)) c = p->get_coordinates();
  else c = AsCoordinates(e);
  if (c) for (size_t i = 0; i < c->get_coordinates_array_size(); ++i) r.push_back(c->get_coordinates_array_at(i));
  return r;
}
bool Same(const Pts& a, const Pts& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) for (int k = 0; k < 3; ++k) if (At(a[i], k) != At(b[i], k)) return false;
  return true;
}
JV All(const Pts& p) { JV a = JV::Arr(); for (size_t i = 0; i < p.size(); ++i) a.push(Pt(p[i])); return a; }
}
// {"host": element tag, "what": "coordinates"|"gx:coord"|"gx:angles", "txt":[text,..], "nums":[[..],..], "api":bool, "brief":bool}
DRIVER(coords) {
  JV r = JV::Obj(); const string& host = in["host"].s; const string& what = in["what"].s;
  string x = "<" + host + ">";
  for (size_t i = 0; i < in["enc"].size(); ++i) x += "<" + what + ">" + in["enc"].at(i).s + "</" + what + ">";
  x += "</" + host + ">";
  ElementPtr e;
  const JV& nums = in["nums"];
  if (in["api"].truth()) {
    KmlFactory* f = KmlFactory::GetFactory();
    CoordinatesPtr c = f->CreateCoordinates(); GxTrackPtr t = f->CreateGxTrack();
    for (size_t i = 0; i < nums.size(); ++i) {
      double a = StrToD(nums.at(i).at(0).s.c_str(), NULL), b = StrToD(nums.at(i).at(1).s.c_str(), NULL), h = nums.at(i).size() > 2 ? StrToD(nums.at(i).at(2).s.c_str(), NULL) : 0;
      if (what == "gx:coord") t->add_gx_coord(Vec3(a, b, h)); else if (what == "gx:angles") t->add_gx_angles(Vec3(a, b, h));
      else if (nums.at(i).size() > 2) { if (i % 2) c->add_latlngalt(b, a, h); else c->add_vec3(Vec3(a, b, h)); } else c->add_latlng(b, a);
    }
    if (host == "gx:Track") e = t;
    else if (host == "Point") { PointPtr p = f->CreatePoint(); p->set_coordinates(c); e = p; }
    else if (host == "LinearRing") { LinearRingPtr p = f->CreateLinearRing(); p->set_coordinates(c); e = p; }
    else if (host == "gx:LatLonQuad") { GxLatLonQuadPtr p = f->CreateGxLatLonQuad(); p->set_coordinates(c); e = p; }
    else { LineStringPtr p = f->CreateLineString(); p->set_coordinates(c); e = p; }
  } else e = Parse(x, NULL);
  r.set("ok", (bool)e);
  Pts p = e ? Points(e, what) : Pts();
  bool exact = p.size() == nums.size();
  for (size_t i = 0; exact && i < p.size(); ++i) for (size_t k = 0; k < 3; ++k) {
    double want = k < nums.at(i).size() ? StrToD(nums.at(i).at(k).s.c_str(), NULL) : 0;
    if (At(p[i], (int)k) != want) exact = false;
  }
  r.set("exact", exact); r.set("n", p.size());
  Pts p1, p2; string raw = e ? SerializeRaw(e) : "", pretty = e ? SerializePretty(e) : "";
  if (e) { p1 = Points(Parse(raw, NULL), what); p2 = Points(Parse(pretty, NULL), what); }
  r.set("same", Same(p, p1) && Same(p, p2));
  r.set("pts", in["brief"].truth() ? JV::Arr() : All(p));
  r.set("raw", in["brief"].truth() ? XmlTree("<none/>") : XmlTree(raw)); r.set("pretty", in["brief"].truth() ? XmlTree("<none/>") : XmlTree(pretty));
  return r;
}
