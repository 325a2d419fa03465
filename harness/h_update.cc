// Driver for updates.
#include "drv.h"
#include "tree.h"
#include "kml/engine.h"
#include "kml/engine/update.h"
using std::string; using namespace kmldom; using namespace kmlengine;
// {"x":file,"u":[update...],"usemap":bool,"map":[[from,to]...]}
DRIVER(update) {
  JV r = JV::Obj(); r.set("in", XmlTree(in["x"].s)); JV ev = JV::Arr();
  KmlFilePtr f = KmlFile::CreateFromParse(in["x"].s, NULL);
  kmlbase::StringMap map; for (size_t i = 0; i < in["map"].size(); ++i) map[in["map"].at(i).at(0).s] = in["map"].at(i).at(1).s;
  std::vector<UpdatePtr> keep;
  if (f) for (size_t i = 0; i < in["u"].size(); ++i) {
    const string& x = in["u"].at(i).s; UpdatePtr u = AsUpdate(Parse(x, NULL)); if (!u) continue;
    string before = SerializeRaw(u);
    if (in["usemap"].b) ProcessUpdateWithIdMap(u, &map, f); else ProcessUpdate(u, f);
    JV e = JV::Obj(); e.set("u", XmlTree(x)); e.set("usemap", in["usemap"].b); e.set("doc", XmlTree(SerializeRaw(f->get_root())));
    e.set("kept", SerializeRaw(u) == before); e.set("disjoint", TreesDisjoint(u, f->get_root())); ev.push(e);
    if (i % 2) keep.push_back(u);   // others die before the file is used again
  }
  r.set("ok", (bool)f); r.set("ev", ev); return r;
}
