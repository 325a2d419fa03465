// Driver for KmlFile: ids, shared styles and writing a file.
#include "drv.h"
#include <expat.h>
#include <sstream>
#include <algorithm>
#include "kml/dom.h"
#include "kml/engine.h"
#include "kml/engine/id_mapper.h"
#include "kml/engine/find_xml_namespaces.h"
using std::string; using namespace kmldom; using namespace kmlengine;
namespace {
string Marker(const ElementPtr& e) {
  string m; if (!e) return ""; if (!e->GetUnknownAttributes()) return "?";
  return e->GetUnknownAttributes()->FindValue("m", &m) ? m : "?";
}
// Namespace-aware reading: every node also has its namespace "u".
struct NsCtx { std::vector<JV> stack; JV root; };
JV& Kids(JV& v) { return v.o[3].second; }
void XMLCALL NsStart(void* u, const char* name, const char** at) {
  NsCtx* c = (NsCtx*)u; string s(name), uri, local, prefix; size_t a = s.find('|'), b = s.rfind('|');
  if (a == string::npos) local = s; else { uri = s.substr(0, a); if (a == b) local = s.substr(a + 1); else { local = s.substr(a + 1, b - a - 1); prefix = s.substr(b + 1); } }
  JV v = JV::Obj(); v.set("n", prefix.empty() ? local : prefix + ":" + local); v.set("t", "");
  std::vector<std::pair<string, string> > as;
  for (int i = 0; at[i]; i += 2) { string k(at[i]); size_t x = k.find('|'), y = k.rfind('|'); if (x != string::npos && x != y) k = k.substr(y + 1) + ":" + k.substr(x + 1, y - x - 1); as.push_back(std::make_pair(k, string(at[i + 1]))); }
  std::sort(as.begin(), as.end()); JV arr = JV::Arr();
  for (size_t i = 0; i < as.size(); ++i) arr.push(JV::Arr().push(as[i].first).push(as[i].second));
  v.set("a", arr); v.set("c", JV::Arr()); v.set("u", uri); c->stack.push_back(v);
}
void XMLCALL NsEnd(void* u, const char*) {
  NsCtx* c = (NsCtx*)u; JV v = c->stack.back(); c->stack.pop_back();
  if (c->stack.empty()) c->root = v; else Kids(c->stack.back()).push(v);
}
JV TextN(const string& t) { JV v = JV::Obj(); v.set("n", "#"); v.set("t", t); v.set("a", JV::Arr()); v.set("c", JV::Arr()); v.set("u", ""); return v; }
void XMLCALL NsChars(void* u, const char* s, int n) {
  NsCtx* c = (NsCtx*)u; if (c->stack.empty()) return; JV& k = Kids(c->stack.back());
  if (k.a.empty() || k.a.back()["n"].s != "#") k.push(TextN("")); k.a.back().o[1].second.s.append(s, n);
}
JV NsTree(const string& xml) {
  XML_Parser p = XML_ParserCreateNS(NULL, '|'); XML_SetReturnNSTriplet(p, 1); NsCtx c;
  XML_SetUserData(p, &c); XML_SetElementHandler(p, NsStart, NsEnd); XML_SetCharacterDataHandler(p, NsChars);
  int st = XML_Parse(p, xml.data(), (int)xml.size(), 1); XML_ParserFree(p);
  if (st != XML_STATUS_OK) { JV v = TextN(""); v.set("n", "!malformed"); return v; }
  return c.root;
}
}
// {"x":xml,"mode":"parse"|"import"|"lax","q":[id...],"remap":[[from,to]...]}
DRIVER(ids) {
  JV r = JV::Obj(); const string& x = in["x"].s; const string& mode = in["mode"].s;
  r.set("in", XmlTree(x)); r.set("mode", mode);
  ElementPtr e = Parse(x, NULL); r.set("parsed", (bool)e); if (!e) { r.set("ok", false); return r; }
  string before = SerializeRaw(e); FolderPtr over; DocumentPtr top;
  if (in["under"].b && AsFeature(e)) { // the imported element is part of a larger tree
    over = KmlFactory::GetFactory()->CreateFolder(); over->set_id("a"); top = KmlFactory::GetFactory()->CreateDocument(); top->set_id("b");
    StylePtr st = KmlFactory::GetFactory()->CreateStyle(); st->set_id("c"); top->add_styleselector(st); over->add_feature(AsFeature(e)); top->add_feature(over);
  }
  KmlFilePtr f = mode == "parse" ? KmlFile::CreateFromParse(x, NULL) : mode == "import" ? KmlFile::CreateFromImport(e) : KmlFile::CreateFromImportLax(e);
  r.set("ok", (bool)f); r.set("kept", SerializeRaw(e) == before);
  JV ob = JV::Arr(), sh = JV::Arr();
  if (f) {
    r.set("root", mode == "parse" ? (f->get_root() && SerializeRaw(f->get_root()) == before) : f->get_root() == e);
    for (size_t i = 0; i < in["q"].size(); ++i) {
      const string& q = in["q"].at(i).s;
      ob.push(JV::Arr().push(q).push(Marker(f->GetObjectById(q)))); sh.push(JV::Arr().push(q).push(Marker(f->GetSharedStyleById(q))));
    }
    r.set("nshared", f->get_shared_style_map().size());
  } else { r.set("root", true); r.set("nshared", 0); }
  r.set("obj", ob); r.set("shared", sh);
  // MapIds, RemapIds, ClearIds
  ElementPtr g = Parse(x, NULL); ObjectIdMap map; ElementVector dups; MapIds(g, &map, &dups);
  JV mp = JV::Arr(), dp = JV::Arr();
  for (ObjectIdMap::iterator i = map.begin(); i != map.end(); ++i) mp.push(JV::Arr().push(i->first).push(Marker(i->second)));
  for (size_t i = 0; i < dups.size(); ++i) dp.push(Marker(dups[i]));
  r.set("map", mp); r.set("dups", dp);
  kmlbase::StringMap sm; for (size_t i = 0; i < in["remap"].size(); ++i) sm[in["remap"].at(i).at(0).s] = in["remap"].at(i).at(1).s;
  ObjectIdMap out; r.set("cleared", RemapIds(map, sm, &out)); JV om = JV::Arr();
  for (ObjectIdMap::iterator i = out.begin(); i != out.end(); ++i) om.push(JV::Arr().push(i->first).push(Marker(i->second)));
  r.set("outmap", om); r.set("remapped", XmlTree(SerializeRaw(g)));
  ElementPtr h = Parse(x, NULL); r.set("sameroot", ClearIds(h) == h); r.set("noids", XmlTree(SerializeRaw(h)));
  return r;
}
// {"x":xml}
DRIVER(writefile) {
  JV r = JV::Obj(); const string& x = in["x"].s; r.set("in", XmlTree(x)); string err;
  KmlFilePtr f = KmlFile::CreateFromParse(x, &err); r.set("ok", (bool)f); if (!f) return r;
  string a; bool ra = f->SerializeToString(&a); std::ostringstream os; bool rb = f->SerializeToOstream(&os);
  r.set("ra", ra); r.set("rb", rb); r.set("streams", a == os.str());
  string head = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n";
  r.set("header", a.compare(0, head.size(), head) == 0 && a.find("<?xml", 5) == string::npos);
  { string enc = in["enc"].s, was = f->get_encoding(), h, w = "<?xml version=\"1.0\" encoding=\"" + enc + "\"?>\n"; if (enc.empty()) enc = "x"; f->set_encoding(enc); f->SerializeToString(&h); w = "<?xml version=\"1.0\" encoding=\"" + enc + "\"?>\n";
    bool same = was == "utf-8" && f->get_encoding() == enc && f->CreateXmlHeader() == w && h == w + a.substr(head.size()) && !f->SerializeToString(NULL) && !f->SerializeToOstream(NULL);
    f->set_encoding(was); string again; f->SerializeToString(&again); r.set("enc", same && again == a); }
  r.set("ns", NsTree(a));
  KmlFilePtr g = KmlFile::CreateFromParse(a, &err); string b; if (g) g->SerializeToString(&b); r.set("again", a == b);
  KmlFilePtr k = KmlFile::CreateFromImportLax(Parse(x, NULL)); string c; if (k) k->SerializeToString(&c); r.set("import", a == c);
  return r;
}
