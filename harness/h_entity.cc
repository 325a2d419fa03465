// Driver for entities and balloons.
#include "drv.h"
#include "tree.h"
#include "kml/engine.h"
#include "kml/engine/entity_mapper.h"
#include "kml/engine/feature_balloon.h"
#include "kml/base/string_util.h"
using std::string; using namespace kmldom; using namespace kmlengine;
namespace {
JV Pairs(const kmlbase::StringMap& m) { JV v = JV::Arr(); for (kmlbase::StringMap::const_iterator i = m.begin(); i != m.end(); ++i) { JV p = JV::Arr(); p.push(i->first); p.push(i->second); v.push(p); } return v; }
string Mark(const ElementPtr& e) { string m; if (e && e->GetUnknownAttributes()) e->GetUnknownAttributes()->FindValue("m", &m); return m; }
}
// {"x":xml,"ts":[template]}
DRIVER(entity) {
  JV r = JV::Obj(), ev = JV::Arr(); r.set("doc", XmlTree(in["x"].s)); r.set("ts", in["ts"]);
  KmlFilePtr f(KmlFile::CreateFromParse(in["x"].s, NULL)); std::vector<FeaturePtr> fs;
  if (f) {
    if (AsFeature(f->get_root())) fs.push_back(AsFeature(f->get_root()));
    ElementVector v; GetElementsById(f->get_root(), Type_Feature, &v); for (size_t i = 0; i < v.size(); ++i) fs.push_back(AsFeature(v[i]));
  }
  for (size_t i = 0; i < fs.size(); ++i) if (Mark(fs[i]) != "") {
    kmlbase::StringMap m, m2; kmlbase::StringPairVector rows; JV e = JV::Obj(), ex = JV::Arr(), rw = JV::Arr();
    EntityMapper em(f, &m, &rows); em.GetEntityFields(fs[i]);
    EntityMapper em2(f, &m2); em2.GetEntityFields(fs[i]); if (m != m2) m2["!differ"] = "!";
    for (size_t j = 0; j < rows.size(); ++j) { JV p = JV::Arr(); p.push(rows[j].first); p.push(rows[j].second); rw.push(p); }
    for (size_t j = 0; j < in["ts"].size(); ++j) ex.push(CreateExpandedEntities(in["ts"].at(j).s, m));
    e.set("m", Mark(fs[i])); e.set("map", Pairs(m2)); e.set("rows", rw); e.set("ex", ex); e.set("balloon", CreateBalloonText(f, fs[i])); ev.push(e);
  }
  r.set("ev", ev); return r;
}
// {"t":text,"map":[[k,v]],"a":start,"b":end}
DRIVER(expand) {
  kmlbase::StringMap m; for (size_t i = 0; i < in["map"].size(); ++i) m[in["map"].at(i).at(0).s] = in["map"].at(i).at(1).s;
  JV r = JV::Obj(); r.set("t", in["t"]); r.set("map", Pairs(m)); r.set("a", in["a"]); r.set("b", in["b"]);
  r.set("got", kmlbase::CreateExpandedStrings(in["t"].s, m, in["a"].s, in["b"].s)); return r;
}
