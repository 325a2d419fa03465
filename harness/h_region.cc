// Driver for regionating and feature lists.
#include "drv.h"
#include <cmath>
#include <cstdlib>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <set>
#include "kml/base/file.h"
#include "kml/dom.h"
#include "kml/engine.h"
#include "kml/convenience/convenience.h"
#include "kml/convenience/feature_list.h"
#include "kml/regionator/regionator.h"
#include "kml/regionator/region_handler.h"
#include "kml/regionator/feature_list_region_handler.h"
#include "kml/regionator/feature_list_regionator.h"
#include "kml/regionator/regionator_util.h"
using std::string; using namespace kmldom; using kmlconvenience::FeatureList; using kmlengine::Bbox;
namespace {
const double kUnit = 268435456.0 / 180.0;  // 2^28 units are 180 degrees
double Deg(long u) { return u / 268435456.0 * 180.0; }
JV Unit(double d) { return JV((long)llround(d * kUnit)); }
string Mark(const ElementPtr& e) { string m; if (e && e->GetUnknownAttributes()) e->GetUnknownAttributes()->FindValue("m", &m); return m; }
// [mark, lat, lon, score or "", kind]
FeaturePtr Make(const JV& f) {
  KmlFactory* k = KmlFactory::GetFactory(); string m = f.at(0).s;
  PlacemarkPtr p = AsPlacemark(Parse("<Placemark m=\"" + m + "\"/>", NULL)); long y = f.at(1).i, x = f.at(2).i; string kind = f.at(4).s;
  if (kind == "line") { LineStringPtr l = k->CreateLineString(); CoordinatesPtr c = k->CreateCoordinates(); c->add_latlng(Deg(y - 64), Deg(x + 64)); c->add_latlng(Deg(y + 64), Deg(x - 64)); c->add_latlng(Deg(y), Deg(x)); l->set_coordinates(c); p->set_geometry(l); }
  else if (kind == "point") { PointPtr t = k->CreatePoint(); CoordinatesPtr c = k->CreateCoordinates(); c->add_latlng(Deg(y), Deg(x)); t->set_coordinates(c); p->set_geometry(t); }
  if (f.at(3).s != "") kmlconvenience::SetFeatureScore(f.at(3).s, p);
  return p;
}
// ---- independent reading of written files ----
const JV* Kid(const JV& t, const string& n) { for (size_t i = 0; i < t["c"].size(); ++i) if (t["c"].at(i)["n"].s == n) return &t["c"].at(i); return NULL; }
string TextIn(const JV* t) { string s; if (t) for (size_t i = 0; i < (*t)["c"].size(); ++i) s += (*t)["c"].at(i)["t"].s; size_t a = s.find_first_not_of(" \n"), b = s.find_last_not_of(" \n"); return a == string::npos ? "" : s.substr(a, b - a + 1); }
string Attr(const JV& t, const string& k) { for (size_t i = 0; i < t["a"].size(); ++i) if (t["a"].at(i).at(0).s == k) return t["a"].at(i).at(1).s; return ""; }
JV NumIn(const JV* t, double k) { string s = TextIn(t); return s.empty() ? JV("") : JV((long)llround(StrToD(s.c_str(), NULL) * k)); }
JV RegionOf(const JV& t) {
  JV r = JV::Obj(); const JV* g = Kid(t, "Region"); r.set("id", g ? Attr(*g, "id") : string("none")); JV b = JV::Arr();
  const JV* l = g ? Kid(*g, "LatLonAltBox") : NULL; const char* ns[] = {"north", "south", "east", "west"};
  if (l) for (int i = 0; i < 4; ++i) b.push(NumIn(Kid(*l, ns[i]), kUnit));
  r.set("box", b); const JV* d = g ? Kid(*g, "Lod") : NULL; JV q = JV::Arr(); if (d) { q.push(NumIn(Kid(*d, "minLodPixels"), 1)); q.push(NumIn(Kid(*d, "maxLodPixels"), 1)); } r.set("lod", q);
  return r;
}
JV FileOf(const string& name, const JV& tree) {
  JV r = JV::Obj(); r.set("name", name); JV ls = JV::Arr(), fs = JV::Arr(); const JV* d = tree["n"].s == "kml" ? Kid(tree, "Document") : NULL;
  if (!d) { r.set("name", "malformed " + name); d = &tree; }
  r.set("region", RegionOf(*d)); r.set("title", TextIn(Kid(*d, "name"))); const JV* a = Kid(*d, "atom:link"); JV at = JV::Arr(); at.push(a ? Attr(*a, "href") : string()); at.push(a ? Attr(*a, "rel") : string()); r.set("atom", at);
  const JV* lk = Kid(*d, "LookAt"); JV look = JV::Arr(); if (lk) { look.push(NumIn(Kid(*lk, "latitude"), kUnit * 2)); look.push(NumIn(Kid(*lk, "longitude"), kUnit * 2)); } r.set("look", look);
  for (size_t i = 0; i < (*d)["c"].size(); ++i) { const JV& k = (*d)["c"].at(i);
    if (k["n"].s == "NetworkLink") { JV l = JV::Obj(); const JV* u = Kid(k, "Link"); l.set("region", RegionOf(k)); l.set("href", u ? TextIn(Kid(*u, "href")) : string()); l.set("mode", u ? TextIn(Kid(*u, "viewRefreshMode")) : string()); ls.push(l); }
    if (k["n"].s == "Folder") for (size_t j = 0; j < k["c"].size(); ++j) if (Attr(k["c"].at(j), "m") != "") fs.push(Attr(k["c"].at(j), "m")); }
  r.set("links", ls); r.set("feats", fs); return r;
}
struct Count { JV v; long stop; Count() : v(JV::Arr()), stop(0) {} bool RegionatorProgress(unsigned c, unsigned t) { JV p = JV::Arr(); p.push((int)c); p.push((int)t); v.push(p); return true; } };
JV Box(const Bbox& b) { JV v = JV::Arr(); v.push(Unit(b.get_north())); v.push(Unit(b.get_south())); v.push(Unit(b.get_east())); v.push(Unit(b.get_west())); return v; }
RegionPtr ToRegion(const JV& b) { return kmlconvenience::CreateRegion2d(Deg(b.at(0).i), Deg(b.at(1).i), Deg(b.at(2).i), Deg(b.at(3).i), 256, -1); }
}
// {"feats":[..],"max":n,"api":"list"|"handler","box":[n,s,e,w],"root":name or ""}
DRIVER(region) {
  JV r = JV::Obj(); FeatureList fl; for (size_t i = 0; i < in["feats"].size(); ++i) fl.PushBack(Make(in["feats"].at(i)));
  string dir = g_scratch + "/reg"; mkdir(dir.c_str(), 0700); Count c; bool ok;
  if (in["api"].s == "list") { ok = kmlregionator::FeatureListRegionator<Count>::Regionate(&fl, in["max"].num(), &c, dir.c_str()); }
  else { fl.Sort(); kmlregionator::FeatureListRegionHandler h(&fl); kmlregionator::Regionator g(h, ToRegion(in["box"])); string root = in["root"].s; if (root != "") g.SetRootFilename(root.c_str()); ok = g.Regionate(dir.c_str()); }
  r.set("ok", ok); r.set("progress", c.v); JV files = JV::Arr(); std::set<string> names;
  if (DIR* d = opendir(dir.c_str())) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.') names.insert(e->d_name); closedir(d); }
  for (std::set<string>::iterator i = names.begin(); i != names.end(); ++i) { string p = dir + "/" + *i; files.push(FileOf(*i, XmlTree(ReadAll(p)))); unlink(p.c_str()); }
  rmdir(dir.c_str()); r.set("files", files); return r;
}
namespace {
struct Scripted : public kmlregionator::RegionHandler {
  const JV& in; JV ev; Scripted(const JV& i) : in(i), ev(JV::Arr()) {}
  bool In(const char* k, const string& id) { for (size_t i = 0; i < in[k].size(); ++i) if (in[k].at(i).s == id) return true; return false; }
  void Note(const char* w, const RegionPtr& g) { JV e = JV::Obj(); e.set("call", w); e.set("id", g->get_id()); LatLonAltBoxPtr b = g->get_latlonaltbox(); e.set("box", b ? Box(Bbox(b->get_north(), b->get_south(), b->get_east(), b->get_west())) : JV::Arr()); ev.push(e); }
  virtual bool HasData(const RegionPtr& g) { Note("has", g); return In("data", g->get_id()); }
  virtual FeaturePtr GetFeature(const RegionPtr& g) { Note("get", g); if (In("null", g->get_id())) return NULL; FolderPtr f = KmlFactory::GetFactory()->CreateFolder(); f->add_feature(AsFeature(Parse("<Placemark m=\"" + g->get_id() + "\"/>", NULL))); return f; }
  virtual void SaveKml(const KmlPtr& kml, const string& name) { JV e = JV::Obj(); e.set("call", "save"); e.set("file", FileOf(name, XmlTree(SerializeRaw(kml)))); ev.push(e); }
};
}
// {"data":[ids with data],"null":[ids without a feature],"box":[..],"root":name,"dir":dir,"natural":[..]}
DRIVER(regioncalls) {
  JV r = JV::Obj(); Scripted s(in); RegionPtr g = ToRegion(in["box"]); kmlregionator::Regionator k(s, g); string root = in["root"].s, dir = in["dir"].s;
  if (root != "") k.SetRootFilename(root.c_str());
  if (in["natural"].size()) k.SetNaturalRegion(ToRegion(in["natural"]));
  bool ok = k.Regionate(dir != "" ? dir.c_str() : NULL); JV e = JV::Obj(); e.set("call", "end"); e.set("ok", ok); e.set("root", g->has_id() ? g->get_id() : string()); s.ev.push(e); r.set("ev", s.ev); return r;
}
// {"ops":[["push",feature],["sort"],["split",box,max,keep?],["rsplit",box,max],["null"]]}
DRIVER(flist) {
  JV r = JV::Obj(), ev = JV::Arr(); FeatureList a, b;
  for (size_t i = 0; i < in["ops"].size(); ++i) {
    const JV& o = in["ops"].at(i); string k = o.at(0).s; JV e = JV::Obj(); long n = -1;
    if (k == "push") a.PushBack(Make(o.at(1)));
    else if (k == "null") a.PushBack(NULL);
    else if (k == "sort") a.Sort();
    else if (k != "none") { const JV& q = o.at(1); Bbox x(Deg(q.at(0).i), Deg(q.at(1).i), Deg(q.at(2).i), Deg(q.at(3).i)); FeatureList* out = o.at(3).truth() ? &b : NULL;
      n = k == "split" ? a.BboxSplit(x, o.at(2).num(), out) : a.RegionSplit(ToRegion(q), o.at(2).num(), out); }
    if (k == "none") n = a.RegionSplit(KmlFactory::GetFactory()->CreateRegion(), 0, &b) + a.RegionSplit(NULL, 0, &b);
    e.set("op", o); e.set("n", n);
    FeatureList* ls[] = {&a, &b}; JV ls_ = JV::Arr();
    for (int j = 0; j < 2; ++j) { Bbox bb; ls[j]->ComputeBoundingBox(&bb); ls[j]->ComputeBoundingBox(NULL); JV t = JV::Obj(); t.set("box", Box(bb)); t.set("size", (int)ls[j]->Size()); ls_.push(t); }
    e.set("lists", ls_); ev.push(e);
  }
  // the contents are read at the end
  JV fin = JV::Arr(); FeatureList* ls[] = {&a, &b};
  for (int j = 0; j < 2; ++j) { FolderPtr f = KmlFactory::GetFactory()->CreateFolder(); size_t n = ls[j]->Save(f); JV m = JV::Arr(); for (size_t i = 0; i < f->get_feature_array_size(); ++i) m.push(Mark(f->get_feature_array_at(i))); if (n != f->get_feature_array_size()) m.push("count"); fin.push(m); }
  JV e = JV::Obj(); e.set("final", fin); ev.push(e); r.set("ev", ev); return r;
}
