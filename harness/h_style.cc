// Driver for style resolution, inlining and splitting.
#include "drv.h"
#include <memory>
#include "tree.h"
#include "net.h"
#include "kml/engine.h"
#include "kml/engine/kml_cache.h"
#include "kml/engine/style_inliner.h"
#include "kml/engine/style_merger.h"
#include "kml/engine/style_splitter.h"
#include "kml/engine/style_resolver.h"
using std::string; using namespace kmldom; using namespace kmlengine;
namespace {
string Mark(const ElementPtr& e) { string m; if (e && e->GetUnknownAttributes()) e->GetUnknownAttributes()->FindValue("m", &m); return m; }
void AllFeatures(const ElementPtr& root, std::vector<FeaturePtr>* out) {
  if (AsFeature(root)) out->push_back(AsFeature(root));
  ElementVector v; GetElementsById(root, Type_Feature, &v);
  for (size_t i = 0; i < v.size(); ++i) out->push_back(AsFeature(v[i]));
}
JV ResolveAll(const KmlFilePtr& f) {
  JV ev = JV::Arr(); std::vector<FeaturePtr> fs; AllFeatures(f->get_root(), &fs); string before = SerializeRaw(f->get_root());
  for (size_t i = 0; i < fs.size(); ++i) if (Mark(fs[i]) != "") for (int k = 0; k < 2; ++k) {
    StylePtr s = CreateResolvedStyle(fs[i], f, k ? STYLESTATE_HIGHLIGHT : STYLESTATE_NORMAL);
    JV e = JV::Obj(); e.set("m", Mark(fs[i])); e.set("key", k ? "highlight" : "normal"); e.set("style", XmlTree(SerializeRaw(s)));
    e.set("kept", SerializeRaw(f->get_root()) == before); e.set("disjoint", TreesDisjoint(s, f->get_root())); e.set("noparent", !s->GetParent());
    StyleStateEnum st = k ? STYLESTATE_HIGHLIGHT : STYLESTATE_NORMAL; string url = fs[i]->get_styleurl(), raw = SerializeRaw(s); StyleSelectorPtr sel = fs[i]->get_styleselector();
    std::unique_ptr<StyleMerger> mg(StyleMerger::CreateFromKmlFile(*f, st)); mg->MergeStyle(url, sel);
    bool agree = SerializeRaw(mg->GetResolvedStyle()) == raw && SerializeRaw(StyleResolver::CreateResolvedStyle(url, sel, f->get_shared_style_map(), f->get_url(), f->get_kml_cache(), st)) == raw
      && SerializeRaw(StyleResolver::CreateResolvedStyleSelector(url, f->get_shared_style_map())) == SerializeRaw(StyleResolver::CreateResolvedStyleSelector(url, NULL, f->get_shared_style_map()));
    e.set("agree", agree);
    ev.push(e);
  }
  return ev;
}
}
// {"web":[[url,xml]...],"remote":bool}
DRIVER(resolve) {
  JV r = JV::Obj(), web = JV::Arr(); ScriptedNet net;
  for (size_t i = 0; i < in["web"].size(); ++i) {
    const JV& w = in["web"].at(i); net.web[w.at(0).s] = w.at(1).s;
    JV d = JV::Obj(); d.set("url", w.at(0)); d.set("doc", XmlTree(w.at(1).s)); web.push(d);
  }
  KmlCache cache(&net, 10);
  KmlFilePtr f = in["remote"].b ? cache.FetchKmlAbsolute(in["web"].at(0).at(0).s) : KmlFilePtr(KmlFile::CreateFromParse(in["web"].at(0).at(1).s, NULL));
  r.set("ok", (bool)f); r.set("web", web); r.set("ev", f ? ResolveAll(f) : JV::Arr()); return r;
}
// {"x":xml,"op":"inline"|"split"}
DRIVER(restyle) {
  JV r = JV::Obj(); string err; bool inl = in["op"].s == "inline";
  ElementPtr e = inl ? InlineStyles(in["x"].s, &err) : SplitStyles(in["x"].s, &err);
  r.set("op", in["op"]); r.set("ok", (bool)e); r.set("before", XmlTree(in["x"].s)); r.set("after", XmlTree(e ? SerializeRaw(e) : string("<none/>"))); return r;
}
