// Driver for cloning and merging.
#include "drv.h"
#include "tree.h"
#include <set>
#include "kml/engine.h"
using std::string; using namespace kmldom; using namespace kmlengine;
namespace {
typedef std::set<const Element*> Set;
void Reach(const ElementPtr& e, Set* s, std::vector<ElementPtr>* order) {
  if (!e || !s->insert(e.get()).second) return;
  if (order) order->push_back(e);
  const std::vector<Slot>& sl = AllSlots();
  for (size_t k = 0; k < sl.size(); ++k) {
    if (!sl[k].fits(e)) continue;
    for (size_t j = 0, n = sl[k].size(e); j < n; ++j) Reach(sl[k].at(e, j), s, order);
  }
  for (size_t i = 0; i < e->get_misplaced_elements_array_size(); ++i) Reach(e->get_misplaced_elements_array_at(i), s, order);
}
// The same document: as XML, not byte by byte (<x/> is <x></x>).
JV NoBlank(JV t) {
  std::vector<JV>& c = t.o[3].second.a; std::vector<JV> k;
  for (size_t i = 0; i < c.size(); ++i)
    if (c[i]["n"].s != "#" || c[i]["t"].s.find_first_not_of(" \t\r\n") != string::npos) k.push_back(NoBlank(c[i]));
  c = k; return t;
}
string Doc(const string& xml) { string s; XmlTree(xml).dump(&s); return s; }
string Layout(const string& xml) { string s; NoBlank(XmlTree(xml)).dump(&s); return s; }
bool Disjoint(const ElementPtr& a, const ElementPtr& b) {
  Set x, y; Reach(a, &x, NULL); Reach(b, &y, NULL);
  for (Set::iterator i = x.begin(); i != x.end(); ++i) if (y.count(*i)) return false;
  return true;
}
// Changes everything that can be changed below e.
void Spoil(const ElementPtr& root) {
  std::vector<ElementPtr> el; Set s; Reach(root, &s, &el);
  for (size_t i = 0; i < el.size(); ++i) {
    const ElementPtr& e = el[i];
    if (ObjectPtr o = AsObject(e)) o->set_id("spoiled");
    if (CoordinatesPtr c = AsCoordinates(e)) { c->Clear(); c->add_latlng(1, 2); }
    if (FeaturePtr f = AsFeature(e)) { f->set_name("spoiled"); f->set_styleurl("#spoiled"); }
    if (SimpleDataPtr d = AsSimpleData(e)) d->set_text("spoiled");
    if (SnippetPtr d = AsSnippet(e)) d->set_text("spoiled");
    if (ColorStylePtr d = AsColorStyle(e)) d->set_color(kmlbase::Color32("01020304"));
    e->AddUnknownElement("<spoiled/>");
    kmlbase::StringVector av; av.push_back("spoiled"); av.push_back("1");
    e->ParseAttributes(kmlbase::Attributes::Create(av));
    const std::vector<Slot>& sl = AllSlots();
    for (size_t k = 0; k < sl.size(); ++k) {
      if (!sl[k].fits(e)) continue;
      if (sl[k].clear) sl[k].clear(e);
      else if (sl[k].del) while (sl[k].size(e)) sl[k].del(e, 0);
    }
  }
}
}
bool TreesDisjoint(const ElementPtr& a, const ElementPtr& b) { return Disjoint(a, b); }
DRIVER(clone) {
  JV r = JV::Obj(); const string& x = in["x"].s;
  r.set("in", XmlTree(x));
  ElementPtr e = Parse(x, NULL), e2 = Parse(x, NULL);
  r.set("ok", (bool)e); if (!e) return r;
  string before = SerializeRaw(e);
  ElementPtr c = Clone(e), c2 = Clone(e2);
  string raw = SerializeRaw(c);
  r.set("type", c->Type() == e->Type()); r.set("raw", XmlTree(raw)); r.set("same", Doc(raw) == Doc(before) && Layout(SerializePretty(c)) == Layout(SerializePretty(e)));
  r.set("kept", SerializeRaw(e) == before);
  r.set("noparent", !c->GetParent()); r.set("disjoint", Disjoint(e, c));
  // every element below has an equal clone of its own
  std::vector<ElementPtr> el; Set s; Reach(e, &s, &el); bool parts = true;
  if (el.size() <= 60) for (size_t i = 1; i < el.size(); ++i) { ElementPtr k = Clone(el[i]); if (!k || k->GetParent() || k->Type() != el[i]->Type() || Doc(SerializeRaw(k)) != Doc(SerializeRaw(el[i]))) parts = false; }
  r.set("parts", parts);
  // every element of the clone knows its parent as in the original
  std::vector<ElementPtr> cl; Set cs; Reach(c, &cs, &cl); bool parents = cl.size() == el.size();
  for (size_t i = 0; parents && i < el.size(); ++i) {
    ElementPtr a = el[i]->GetParent(), b = cl[i]->GetParent();
    if ((bool)a != (bool)b) parents = false;
    else if (a) { size_t j = 0; while (j < el.size() && el[j] != a) ++j; if (j == el.size() || cl[j] != b) parents = false; }
  }
  r.set("parents", parents);
  Spoil(e); r.set("indep1", SerializeRaw(c) == raw);
  Spoil(c2); r.set("indep2", SerializeRaw(e2) == before);
  e = NULL; e2 = NULL; r.set("outlives", SerializeRaw(c) == raw);
  return r;
}
// {"src":xml,"tgt":xml,"how":"elements"|"fields"|"self"|"nullsrc"}
DRIVER(merge) {
  JV r = JV::Obj();
  ElementPtr s = Parse(in["src"].s, NULL), t = Parse(in["tgt"].s, NULL);
  r.set("ok", s && t); r.set("src", XmlTree(in["src"].s)); r.set("tgt", XmlTree(in["tgt"].s)); if (!s || !t) return r;
  string sb = SerializeRaw(s), tb = SerializeRaw(t); const string& how = in["how"].s; bool both = true;
  if (how == "elements") MergeElements(s, t); else if (how == "fields") MergeFields(s, t);
  else if (how == "nullsrc") { MergeElements(NULL, t); MergeFields(NULL, t); both = SerializeRaw(t) == tb; }
  else if (how == "nulltgt") { MergeElements(s, NULL); MergeFields(s, NULL); both = SerializeRaw(s) == sb; }
  string after = SerializeRaw(t);
  r.set("raw", XmlTree(after)); r.set("srckept", SerializeRaw(s) == sb && both); r.set("disjoint", Disjoint(s, t));
  Spoil(s); r.set("indep", SerializeRaw(t) == after);
  return r;
}
