// Driver for traversals, searches and link extraction.
#include "drv.h"
#include "kml/dom.h"
#include "kml/dom/xsd.h"
#include "kml/dom/visitor.h"
#include "kml/dom/visitor_driver.h"
#include "kml/engine.h"
#include "kml/engine/find.h"
#include "kml/engine/feature_visitor.h"
#include "kml/engine/get_links.h"
#include "kml/engine/get_link_parents.h"
#include "kml/convenience/element_counter.h"
#include "kml/convenience/feature_list.h"
#include "kml/convenience/kml_feature_list_saver.h"
using std::string; using namespace kmldom;
namespace {
string TypeName(int i) { return i == Type_IconStyleIcon ? "IconStyleIcon" : Xsd::GetSchema()->ElementName(i); }
// the mark of an element; its tag and the mark of its parent if it cannot have one
string Label(const ElementPtr& e) {
  if (!e) return "NULL";
  string m; const kmlbase::Attributes* a = e->GetUnknownAttributes();
  if (a && const_cast<kmlbase::Attributes*>(a)->GetString("m", &m)) return m;
  return TypeName(e->Type()) + "@" + (e->GetParent() ? Label(e->GetParent()) : string());
}
struct Feats : public kmlengine::FeatureVisitor {
  JV v; Feats() : v(JV::Arr()) {}
  virtual void VisitFeature(const FeaturePtr& f) { v.push(Label(f)); }
};
struct Order : public Visitor {
  JV v; Order() : v(JV::Arr()) {}
  virtual void VisitElement(const ElementPtr& e) { v.push(Label(e)); }
};
JV Labels(const kmlengine::ElementVector& v) { JV r = JV::Arr(); for (size_t i = 0; i < v.size(); ++i) r.push(Label(v[i])); return r; }
JV Strings(const std::vector<string>& v) { JV r = JV::Arr(); for (size_t i = 0; i < v.size(); ++i) r.push(v[i]); return r; }
}
// {"x":document,"types":[names],"base":style base}
DRIVER(walk) {
  string x = in["x"].s, err; JV r = JV::Obj(); r.set("in", XmlTree(x));
  ElementPtr root = Parse(x, &err); r.set("parsed", (bool)root);
  if (!root) return r;
  FeaturePtr rf = kmlengine::GetRootFeature(root); r.set("root", rf ? Label(rf) : string());
  Feats fv; kmlengine::VisitFeatureHierarchy(rf, fv); r.set("feats", fv.v);
  JV by = JV::Arr();
  for (size_t i = 0; i < in["types"].a.size(); ++i) {
    string n = in["types"].a[i].s; int id = n == "IconStyleIcon" ? Type_IconStyleIcon : Xsd::GetSchema()->ElementId(n);
    kmlengine::ElementVector v; kmlengine::GetElementsById(root, (KmlDomType)id, &v);
    JV p = JV::Arr(); p.push(n); p.push(Labels(v)); by.push(p);
  }
  r.set("by", by);
  kmlengine::ElementVector c1, c2; int n1 = kmlengine::GetChildElements(root, false, &c1), n2 = kmlengine::GetChildElements(root, true, &c2);
  r.set("kids", Labels(c1)); r.set("all", Labels(c2));
  JV n = JV::Arr(); n.push(n1); n.push(n2); n.push((int)kmlengine::GetChildElements(root, true, NULL)); n.push((int)kmlengine::GetChildElements(root, false, NULL)); r.set("counts", n);
  { Order o; SimplePreorderDriver d(&o); d.Visit(root); r.set("pre", o.v); }
  { Order o; SimplePostorderDriver d(&o); d.Visit(root); r.set("post", o.v); }
  std::vector<string> l, rl; bool ok = kmlengine::GetLinks(x, &l) && kmlengine::GetRelativeLinks(x, &rl);
  r.set("linksok", ok); r.set("links", Strings(l)); r.set("rel", Strings(rl));
  kmlengine::ElementVector lp; r.set("lpok", kmlengine::GetLinkParents(x, &lp)); r.set("lp", Labels(lp));
  { kmlengine::KmlFilePtr kf = kmlengine::KmlFile::CreateFromParse(x, NULL); string u, w; if (kf) Labels(kf->get_link_parent_vector()).dump(&u); Labels(lp).dump(&w); if (kf && u != w) r.set("lpok", false); }
  { kmlconvenience::ElementCountMap m; kmlconvenience::ElementCounter ec(&m); Parser p; p.AddObserver(&ec); p.Parse(x, &err);
    JV q = JV::Arr(); for (kmlconvenience::ElementCountMap::iterator i = m.begin(); i != m.end(); ++i) { JV t = JV::Arr(); t.push(TypeName(i->first)); t.push(i->second); q.push(t); }
    r.set("tally", q); }
  { kmlconvenience::FeatureList fl; kmlengine::SharedStyleMap sm; string base = in["base"].s;
    kmlconvenience::KmlFeatureListSaver s(&fl, &sm, base.empty() ? NULL : base.c_str()); Parser p; p.AddObserver(&s); p.Parse(x, &err);
    FolderPtr f = KmlFactory::GetFactory()->CreateFolder(); r.set("nlist", (int)fl.Size()); r.set("saved", (int)fl.Save(f)); JV q = JV::Arr();
    for (size_t i = 0; i < f->get_feature_array_size(); ++i) { JV t = JV::Arr(); FeaturePtr g = f->get_feature_array_at(i); t.push(Label(g)); t.push(g->has_styleurl() ? g->get_styleurl() : string("-")); q.push(t); }
    r.set("list", q); JV y = JV::Arr();
    for (kmlengine::SharedStyleMap::iterator i = sm.begin(); i != sm.end(); ++i) { JV t = JV::Arr(); t.push(i->first); t.push(Label(i->second)); y.push(t); }
    r.set("styles", y); }
  return r;
}
