// Driver for histories of attaching and removing child elements.
#include "drv.h"
#include "tree.h"
#include "kml/engine.h"
using std::string; using namespace kmldom;
namespace {
class AFile : public kmlbase::XmlFile { public: AFile() {} };
const AFile kFiles[2];
int IndexOf(const std::vector<ElementPtr>& el, const ElementPtr& e) {
  for (size_t i = 0; i < el.size(); ++i) if (el[i] == e) return (int)i + 1;
  return -1;
}
void Observe(const std::vector<ElementPtr>& el, JV* r) {
  JV par = JV::Arr(), kids = JV::Arr();
  for (size_t i = 0; i < el.size(); ++i) {
    ElementPtr p = el[i]->GetParent(); par.push(p ? IndexOf(el, p) : 0);
    const std::vector<Slot>& s = AllSlots();
    for (size_t k = 0; k < s.size(); ++k) {
      if (!s[k].fits(el[i])) continue;
      if (string(s[k].name) == "StyleSelector" && !s[k].multi && AsDocument(el[i])) continue;
      size_t n = s[k].size(el[i]); bool has = s[k].has ? s[k].has(el[i]) : n > 0;
      if (!n && !has) continue;
      JV ch = JV::Arr();
      if (has != (n > 0)) ch.push(-1);  // has_x disagrees with get_x
      for (size_t j = 0; j < n; ++j) ch.push(IndexOf(el, s[k].at(el[i], j)));
      kids.push(JV::Arr().push((int)i + 1).push(s[k].name).push(ch));
    }
  }
  JV fl = JV::Arr(), same = JV::Arr();
  for (size_t i = 0; i < el.size(); ++i) {
    const kmlbase::XmlFile* x = el[i]->GetXmlFile(); fl.push(!x ? 0 : x == &kFiles[0] ? 1 : x == &kFiles[1] ? 2 : 3);
    JV row = JV::Arr(); for (size_t j = 0; j < el.size(); ++j) row.push(el[i]->InSameXmlFile(el[j])); same.push(row);
    if (el[i]->InSameXmlFile(NULL)) fl.push(-1);
  }
  r->set("par", par); r->set("kids", kids); r->set("file", fl); r->set("same", same);
}
}
// {"ty":[tag..], "ids":[id or ""..], "ops":[{"k":..,"p":..,"slot":..,"c":..,"i":..,"id":..}]}
DRIVER(tree) {
  JV r = JV::Obj(), ev = JV::Arr(); std::vector<ElementPtr> el;
  const JV& ty = in["ty"];
  for (size_t i = 0; i < ty.size(); ++i) {
    ElementPtr e = NewElement(ty.at(i).s); el.push_back(e);
    if (!in["ids"].at(i).s.empty()) AsObject(e)->set_id(in["ids"].at(i).s);
  }
  const JV& ops = in["ops"];
  for (size_t k = 0; k < ops.size(); ++k) {
    const JV& o = ops.at(k); JV e = o; int res = 0; const string& kind = o["k"].s;
    ElementPtr p = el[(size_t)o["p"].num() - 1];
    const Slot* s = kind == "file" ? NULL : FindSlot(p, o["slot"].s);
    if (kind == "file") res = p->SetXmlFile(o["i"].num() ? &kFiles[o["i"].num() - 1] : NULL);
    else if (kind == "set" || kind == "add") s->put(p, el[(size_t)o["c"].num() - 1]);
    else if (kind == "null") s->put(p, NULL);
    else if (kind == "clear") s->clear(p);
    else if (kind == "delat") { ElementPtr d = s->del(p, (size_t)o["i"].num()); res = d ? IndexOf(el, d) : 0; }
    else if (kind == "delid") { ElementPtr d = AsContainer(p)->DeleteFeatureById(o["id"].s); res = d ? IndexOf(el, d) : 0; }
    e.set("res", res); Observe(el, &e);
    JV docs = JV::Arr();
    if (k + 1 == ops.size()) for (size_t i = 0; i < el.size(); ++i) docs.push(el[i]->GetParent() ? XmlTree("<none/>") : XmlTree(SerializeRaw(el[i])));
    e.set("docs", docs);
    ev.push(e);
  }
  r.set("ev", ev); return r;
}
