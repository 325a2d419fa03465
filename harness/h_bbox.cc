// Driver for boxes and extents.
#include "drv.h"
#include "tree.h"
#include <cmath>
#include "kml/engine.h"
#include "kml/engine/bbox.h"
#include "kml/engine/location_util.h"
#include "kml/engine/feature_view.h"
#include "kml/regionator/regionator_util.h"
using std::string; using namespace kmldom; using namespace kmlengine;
namespace {
JV N(double v, double k = 1) { return JV((long)llround(v * k)); }
JV Box(const Bbox& b, double k = 1) { JV v = JV::Arr(); v.push(N(b.get_north(), k)); v.push(N(b.get_south(), k)); v.push(N(b.get_east(), k)); v.push(N(b.get_west(), k)); return v; }
Bbox ToBox(const JV& v, size_t o, double k = 1) { return Bbox(v.at(o).num() / k, v.at(o + 1).num() / k, v.at(o + 2).num() / k, v.at(o + 3).num() / k); }
JV Two(bool b, double y, double x) { JV v = JV::Arr(); if (b) { v.push(N(y, 2000)); v.push(N(x, 2000)); } return v; }
string Mark(const ElementPtr& e) { string m; if (e && e->GetUnknownAttributes()) e->GetUnknownAttributes()->FindValue("m", &m); return m; }
}
// {"ops":[...],"pts":[[y,x]],"boxes":[[n,s,e,w]],"qt":[..],"depth":d,"unit":parts of a degree}
DRIVER(bbox) {
  JV r = JV::Obj(), ev = JV::Arr(); Bbox b; const double u = in["unit"].num() ? (double)in["unit"].num() : 1;
  for (size_t i = 0; i < in["ops"].size(); ++i) {
    const JV& o = in["ops"].at(i); string k = o.at(0).s; JV e = JV::Obj(), h = JV::Arr(), w = JV::Arr(), al = JV::Arr(), mid = JV::Arr();
    if (k == "pt") b.ExpandLatLon((o.at(1).num() / u), (o.at(2).num() / u));
    else if (k == "lat") b.ExpandLatitude((o.at(1).num() / u));
    else if (k == "lon") b.ExpandLongitude((o.at(1).num() / u));
    else if (k == "box") b.ExpandFromBbox(ToBox(o, 1, u));
    else if (k == "new") { if (i % 2) b = ToBox(o, 1, u); else { b.set_north((o.at(1).num() / u)); b.set_south((o.at(2).num() / u)); b.set_east((o.at(3).num() / u)); b.set_west((o.at(4).num() / u)); } }
    e.set("op", o); e.set("box", Box(b, u));
    for (size_t j = 0; j < in["pts"].size(); ++j) h.push(b.Contains(in["pts"].at(j).at(0).num() / u, in["pts"].at(j).at(1).num() / u));
    for (size_t j = 0; j < in["boxes"].size(); ++j) { Bbox c = ToBox(in["boxes"].at(j), 0, u); bool p = b.ContainedByBbox(c);
      if (p != b.ContainedByBox(c.get_north(), c.get_south(), c.get_east(), c.get_west())) { w.push("differ"); } else w.push(p); }
    double y = 0, x = 0; b.GetCenter(&y, &x); b.GetCenter(NULL, NULL); if (y != b.GetCenterLat() || x != b.GetCenterLon()) y = 1e6;
    mid.push(N(y, 2 * u)); mid.push(N(x, 2 * u)); e.set("mid", mid);
    for (int d = 1; d <= in["depth"].num(); ++d) { Bbox q = ToBox(in["qt"], 0, u); b.AlignBbox(&q, d - 1); al.push(Box(q, u)); }
    b.AlignBbox(NULL, 3);
    if (in["unit"].num()) {  // the same for an element: the node of the quadtree of the world
      LatLonBoxPtr l = KmlFactory::GetFactory()->CreateLatLonBox(); LatLonAltBoxPtr q = KmlFactory::GetFactory()->CreateLatLonAltBox(); JV nd = JV::Arr();
      l->set_north(b.get_north()); l->set_south(b.get_south()); l->set_east(b.get_east()); l->set_west(b.get_west()); string was = SerializeRaw(l);
      if (kmlregionator::CreateAlignedAbstractLatLonBox(l, q)) nd = Box(Bbox(q->get_north(), q->get_south(), q->get_east(), q->get_west()), u);
      else if (SerializeRaw(q) != "<LatLonAltBox/>") nd.push("changed");
      if (SerializeRaw(l) != was || kmlregionator::CreateAlignedAbstractLatLonBox(NULL, q) || kmlregionator::CreateAlignedAbstractLatLonBox(l, NULL)) nd.push("changed");
      e.set("node", nd);
    }
    e.set("has", h); e.set("within", w); e.set("align", al); ev.push(e);
  }
  r.set("ev", ev); return r;
}
// {"x":xml,"start":[n,s,e,w]}: thousandths of a degree
DRIVER(bounds) {
  JV r = JV::Obj(), ev = JV::Arr(); r.set("doc", XmlTree(in["x"].s));
  KmlFilePtr f(KmlFile::CreateFromParse(in["x"].s, NULL)); std::vector<ElementPtr> es;
  if (f) { es.push_back(f->get_root());
    int ts[] = { Type_Feature, Type_Geometry, Type_AbstractLatLonBox };
    for (int t = 0; t < 3; ++t) { ElementVector v; GetElementsById(f->get_root(), (KmlDomType)ts[t], &v); for (size_t i = 0; i < v.size(); ++i) es.push_back(v[i]); } }
  for (size_t i = 0; i < es.size(); ++i) if (Mark(es[i]) != "") {
    JV e = JV::Obj(), any = JV::Arr(); e.set("m", Mark(es[i])); Bbox b, m = ToBox(in["start"], 0, 1000); double y = 0, x = 0; bool a1, a2, a3, a4;
    if (AbstractLatLonBoxPtr lb = AsAbstractLatLonBox(es[i])) { GetCenter(lb, &y, &x); GetCenter(lb, NULL, NULL); e.set("boxmid", Two(true, y, x)); ev.push(e); continue; }
    if (FeaturePtr ft = AsFeature(es[i])) {
      a1 = GetFeatureBounds(ft, &b); a2 = GetFeatureBounds(ft, NULL); a3 = GetFeatureBounds(ft, &m); a4 = GetFeatureLatLon(ft, &y, &x); if (GetFeatureLatLon(ft, NULL, NULL) != a4) a2 = !a1;
      if (PlacemarkPtr p = AsPlacemark(ft)) { double py = 0, px = 0; if (GetPlacemarkLatLon(p, &py, &px) != a4 || (a4 && (py != y || px != x))) y = -1e6; }
      LookAtPtr l = ComputeFeatureLookAt(ft); JV lk = JV::Obj(); lk.set("at", Two((bool)l, l ? l->get_latitude() : 0, l ? l->get_longitude() : 0));
      lk.set("ground", l && l->get_altitudemode() == ALTITUDEMODE_RELATIVETOGROUND); lk.set("range", l ? (long)std::ceil(l->get_range()) : 0L); e.set("look", lk);
    } else { GeometryPtr g = AsGeometry(es[i]); if (!g) continue;
      a1 = GetGeometryBounds(g, &b); a2 = GetGeometryBounds(g, NULL); a3 = GetGeometryBounds(g, &m); a4 = GetGeometryLatLon(g, &y, &x); if (GetGeometryLatLon(g, NULL, NULL) != a4) a2 = !a1;
      double py = 0, px = 0;
      if (PointPtr p = AsPoint(g)) { bool k = GetPointLatLon(p, &py, &px); e.set("first", Two(k, py, px)); Bbox c; if (GetCoordinatesBounds(p->get_coordinates(), &c) != a1 || c.get_north() != b.get_north() || c.get_west() != b.get_west()) a2 = !a1; }
      if (ModelPtr p = AsModel(g)) { bool k = GetModelLatLon(p, &py, &px); e.set("first", Two(k, py, px)); Bbox c; if (GetModelBounds(p, &c) != a1 || c.get_north() != b.get_north() || c.get_west() != b.get_west()) a2 = !a1; } }
    any.push(a1); any.push(a2 && a3 == a1 && a4 == a1 || (!a1 && (a3 || a4))); e.set("any", any); e.set("box", Box(b, 1000)); e.set("more", Box(m, 1000)); e.set("mid", Two(a4, y, x)); ev.push(e);
  }
  r.set("ev", ev); return r;
}
