// Driver for great-circle geometry.
#include "drv.h"
#include <cmath>
#include "kml/base/math_util.h"
#include "kml/base/vec3.h"
using std::string; using namespace kmlbase;
namespace {
bool fin = true;
JV R(double v, double k) { v *= k; if (!(std::fabs(v) < 2e9)) { fin = false; v = 0; } return JV((long)llround(v)); }
JV Pt(const Vec3& v) { return JV::Arr().push(R(v.get_latitude(), 1000)).push(R(v.get_longitude(), 1000)); }
}
// {"ops":[{"op":..}]}: angles in 1/1000 degree, lengths in decimetres
DRIVER(geo) {
  JV r = JV::Obj(), ev = JV::Arr();
  for (size_t i = 0; i < in["ops"].size(); ++i) {
    JV e = in["ops"].at(i); string k = e["op"].s; fin = true;
    double y = 0, x = 0, v = 0, u = 0;
    if (e.has("p")) { y = e["p"].at(0).num() / 1000.0, x = e["p"].at(1).num() / 1000.0; }
    if (e.has("q")) { v = e["q"].at(0).num() / 1000.0, u = e["q"].at(1).num() / 1000.0; }
    if (k == "dist") {
      double sh = e["by"].num() / 1000.0;
      e.set("d", R(DistanceBetweenPoints(y, x, v, u), 10)); e.set("back", R(DistanceBetweenPoints(v, u, y, x), 10)); e.set("shift", R(DistanceBetweenPoints(y, x + sh, v, u + sh), 10));
      e.set("az", R(AzimuthBetweenPoints(y, x, v, u), 1000)); e.set("azb", R(AzimuthBetweenPoints(v, u, y, x), 1000));
    } else if (k == "tri") {
      double b = e["r"].at(0).num() / 1000.0, a = e["r"].at(1).num() / 1000.0;
      e.set("pq", R(DistanceBetweenPoints(y, x, v, u), 10)); e.set("pr", R(DistanceBetweenPoints(y, x, b, a), 10)); e.set("rq", R(DistanceBetweenPoints(b, a, v, u), 10));
    } else if (k == "radial") {
      // "arc": exactly that angle, in thousandths of a degree
      double len = e.has("arc") ? RadiansToMeters(DegToRad(e["arc"].num() / 1000.0)) : e["d"].num() / 10.0; e.set("d", R(len, 10));
      Vec3 w = LatLngOnRadialFromPoint(y, x, len, e["a"].num() / 1000.0); e.set("q", Pt(w)); e.set("h", w.has_altitude());
      e.set("dd", R(DistanceBetweenPoints(y, x, w.get_latitude(), w.get_longitude()), 10)); e.set("aa", R(AzimuthBetweenPoints(y, x, w.get_latitude(), w.get_longitude()), 1000));
    } else if (k == "along") {
      Vec3 w = LatLngOnRadialFromPoint(y, x, e["d1"].num() / 10.0, e["a"].num() / 1000.0), t = LatLngOnRadialFromPoint(y, x, e["d2"].num() / 10.0, e["a"].num() / 1000.0);
      e.set("between", R(DistanceBetweenPoints(w.get_latitude(), w.get_longitude(), t.get_latitude(), t.get_longitude()), 10));
    } else if (k == "d3") {
      double z1 = e["z1"].num() / 10.0, z2 = e["z2"].num() / 10.0, d = DistanceBetweenPoints(y, x, v, u);
      e.set("d", R(d, 10)); e.set("d3", R(DistanceBetweenPoints3d(y, x, z1, v, u, z2), 10)); e.set("el", d < 0.05 ? JV(0L) : R(ElevationBetweenPoints(y, x, z1, v, u, z2), 1000));
    } else if (k == "vec") {
      e.set("g", R(GroundDistanceFromRangeAndElevation(e["range"].num() / 10.0, e["el"].num() / 1000.0), 10)); e.set("h", R(HeightFromRangeAndElevation(e["range"].num() / 10.0, e["el"].num() / 1000.0), 10));
    } else if (k == "units") {
      double a = e["x"].num() / 1000.0, m = e["m"].num();
      e.set("rad", R(DegToRad(a), 1e6)); e.set("deg", R(RadToDeg(DegToRad(a)), 1000)); e.set("murad", R(MetersToRadians(m), 1e6)); e.set("len", R(RadiansToMeters(MetersToRadians(m)), 1));
    } else if (k == "vec3") {
      Vec3 w; const JV& s = e["sets"]; JV g = JV::Arr(); const JV& n = e["new"];
      if (n.size() == 2) w = Vec3(n.at(0).num(), n.at(1).num()); else if (n.size() == 3) w = Vec3(n.at(0).num(), n.at(1).num(), n.at(2).num());
      for (size_t j = 0; j < s.size(); ++j) { int c = (int)s.at(j).at(0).num(); double d = s.at(j).at(1).num(); if (c == 9) w.clear_altitude(); else if (c == 8) w.set_altitude(d); else w.set(c, d); }
      g.push(R(w.get_longitude(), 1)).push(R(w.get_latitude(), 1)); if (w.has_altitude()) g.push(R(w.get_altitude(), 1));
      Vec3 c(w), o(w); o.set(0, w.get_longitude() + 1); Vec3 o2(w); o2.set(1, w.get_latitude() - 2); Vec3 o3(w); o3.set_altitude(w.get_altitude() + 3);
      e.set("got", g); e.set("has", w.has_altitude()); e.set("eq", c == w && !(o == w) && !(o2 == w) && !(o3 == w) && w.get_heading() == w.get_longitude() && w.get_pitch() == w.get_latitude() && w.get_roll() == w.get_altitude() && (w.has_altitude() || w.get_altitude() == 0));
    }
    e.set("num", fin); ev.push(e);
  }
  r.set("ev", ev); return r;
}
