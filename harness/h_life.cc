// Driver for the lifetimes of elements and files, and for what a whole
// scenario of any other driver leaves allocated or open.
#include "drv.h"
#include "tree.h"
#include <dirent.h>
#include <algorithm>
#include <map>
#include <sanitizer/allocator_interface.h>
#include "kml/engine.h"
using std::string; using namespace kmldom; using kmlengine::KmlFilePtr; using kmlengine::KmlFile;
namespace {
struct World {
  std::vector<ElementPtr> h; std::vector<void*> raw; std::vector<KmlFilePtr> f; std::map<size_t, std::vector<ElementPtr> > more;
  int Find(const ElementPtr& e) { for (size_t i = 0; i < raw.size(); ++i) if (raw[i] == (void*)e.get() && !WatchFreed(raw[i])) return (int)i + 1; return 0; }
  int Add(const ElementPtr& e, bool hold) { h.push_back(hold ? e : ElementPtr()); raw.push_back((void*)e.get()); Watch((void*)e.get()); return (int)raw.size(); }
  void Take(const ElementPtr& e, bool hold, int parent, const string& slot, JV* nodes) {
    int me = Add(e, hold); nodes->push(JV::Arr().push(me).push(parent).push(slot));
    const std::vector<Slot>& s = AllSlots();
    for (size_t k = 0; k < s.size(); ++k) { if (!s[k].fits(e)) continue; if (string(s[k].name) == "StyleSelector" && !s[k].multi && AsDocument(e)) continue; for (size_t j = 0; j < s[k].size(e); ++j) Take(s[k].at(e, j), false, me, s[k].name, nodes); }
  }
};
bool Contains(const ElementPtr& a, const ElementPtr& b) {
  if (a == b) return true; const std::vector<Slot>& s = AllSlots();
  for (size_t k = 0; k < s.size(); ++k) if (s[k].fits(a)) for (size_t j = 0; j < s[k].size(a); ++j) if (Contains(s[k].at(a, j), b)) return true;
  return false;
}
JV RunLife(const JV& in) {
  JV ev = JV::Arr(); WatchReset();
  {
    World w;
    for (size_t i = 0; i < in["ty"].size(); ++i) { ElementPtr e = NewElement(in["ty"].at(i).s); w.Add(e, true); if (!in["ids"].at(i).s.empty()) AsObject(e)->set_id(in["ids"].at(i).s); }
    const JV& ops = in["ops"];
    for (size_t k = 0; k < ops.size(); ++k) {
      const JV& o = ops.at(k); JV e = o; const string& kind = o["k"].s; int res = 0; size_t pi = (size_t)o["p"].num(); JV nodes = JV::Arr();
      ElementPtr none; if (pi && kind != "dropfile" && kind != "root" && kind != "find" && kind != "fewer" && (pi > w.h.size() || !w.h[pi - 1])) { e.set("k", "skip"); }
      else if (kind == "drop") w.h[pi - 1] = NULL;
      else if (kind == "many") w.more[pi].resize(w.more[pi].size() + (size_t)o["i"].num(), w.h[pi - 1]);
      else if (kind == "fewer") { std::vector<ElementPtr>& m = w.more[pi]; m.resize(std::min(m.size(), (size_t)o["i"].num())); }
      else if (kind == "parse") { ElementPtr d = Parse(o["x"].s, NULL); if (d) w.Take(d, true, 0, "", &nodes); }
      else if (kind == "clone") { ElementPtr d = kmlengine::Clone(w.h[pi - 1]); if (d) w.Take(d, true, 0, "", &nodes); }
      else if (kind == "file") { KmlFilePtr f = KmlFile::CreateFromImport(w.h[pi - 1]); w.f.push_back(f); res = f ? 1 : 0; }
      else if (kind == "filetext") { KmlFilePtr f = o["lax"].truth() ? KmlFile::CreateFromParse(o["x"].s, NULL) : KmlFile::CreateFromString(o["x"].s); w.f.push_back(f); res = f ? 1 : 0; if (f && f->get_root()) w.Take(f->get_root(), false, 0, "", &nodes); }
      else if (kind == "dropfile") { if (pi <= w.f.size()) w.f[pi - 1] = NULL; else e.set("k", "skip"); }
      else if (kind == "root") { if (pi <= w.f.size() && w.f[pi - 1]) { ElementPtr d = w.f[pi - 1]->get_root(); res = d ? w.Find(d) : 0; if (res) w.h[(size_t)res - 1] = d; } else e.set("k", "skip"); }
      else if (kind == "find") { if (pi <= w.f.size() && w.f[pi - 1]) { ElementPtr d = w.f[pi - 1]->GetObjectById(o["id"].s); res = d ? w.Find(d) : 0; if (d && !res) res = -1; if (res > 0) w.h[(size_t)res - 1] = d; } else e.set("k", "skip"); }
      else {
        ElementPtr p = w.h[pi - 1]; const Slot* s = FindSlot(p, o["slot"].s);
        if (!s) e.set("k", "skip");
        else if (kind == "set" || kind == "add") { ElementPtr c = w.h[(size_t)o["c"].num() - 1]; if (c && !Contains(c, p)) s->put(p, c); else e.set("k", "skip"); }
        else if (kind == "null") s->put(p, NULL);
        else if (kind == "clear") s->clear(p);
        else if (kind == "hold") { if ((size_t)o["i"].num() < s->size(p)) { ElementPtr d = s->at(p, (size_t)o["i"].num()); res = w.Find(d); if (!res) res = -1; else w.h[(size_t)res - 1] = d; } }
        else if (kind == "delat") { ElementPtr d = s->del(p, (size_t)o["i"].num()); res = d ? w.Find(d) : 0; }
        else if (kind == "delid") { ElementPtr d = AsContainer(p)->DeleteFeatureById(o["id"].s); res = d ? w.Find(d) : 0; }
      }
      // touch everything that is held
      string x; for (size_t i = 0; i < w.h.size(); ++i) if (w.h[i]) x += SerializeRaw(w.h[i]);
      for (size_t i = 0; i < w.f.size(); ++i) if (w.f[i]) { w.f[i]->SerializeToString(&x); w.f[i]->GetSharedStyleById("s"); w.f[i]->GetObjectById("x"); for (size_t j = 0; j < w.f[i]->get_link_parent_vector().size(); ++j) x += SerializeRaw(w.f[i]->get_link_parent_vector()[j]); }
      JV al = JV::Arr(); for (size_t i = 0; i < w.raw.size(); ++i) al.push(!WatchFreed(w.raw[i])); e.set("alive", al); e.set("res", res); e.set("nodes", nodes); ev.push(e);
    }
    // everything is dropped, in the order given
    for (size_t i = 0; i < in["end"].size(); ++i) { size_t k = (size_t)in["end"].at(i).num(); if (k <= w.h.size() && k) { w.h[k - 1] = NULL; w.more.erase(k); } if (!k) w.f.clear(); }
    w.h.clear(); w.f.clear(); w.more.clear();
    JV al = JV::Arr(); for (size_t i = 0; i < w.raw.size(); ++i) al.push(!WatchFreed(w.raw[i]));
    JV e = JV::Obj(); e.set("k", "end"); e.set("alive", al); ev.push(e); WatchReset();
  }
  return ev;
}
int OpenFiles() { int n = 0; if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); } return n; }
int FilesIn(const string& dir) { int n = 0; if (DIR* d = opendir(dir.c_str())) { while (dirent* e = readdir(d)) if (e->d_name[0] != '.') ++n; closedir(d); } return n; }
typedef JV (*Fn)(const JV&);
// what each of four runs leaves behind; the first two warm up
JV Left(Fn f, const JV& in) {
  long last[4]; JV r = JV::Arr();
  for (int k = 0; k < 4; ++k) {
    { JV o = f(in); }
    long now[4] = { LiveAllocs(), (long)__sanitizer_get_current_allocated_bytes(), OpenFiles(), FilesIn(g_scratch) };
    if (k >= 2) { JV d = JV::Arr(); for (int j = 0; j < 4; ++j) d.push(now[j] - last[j]); r.push(d); now[0] = LiveAllocs(); now[1] = (long)__sanitizer_get_current_allocated_bytes(); }
    for (int j = 0; j < 4; ++j) last[j] = now[j];
  }
  return r;
}
}
// {"ty":[..],"ids":[..],"ops":[..],"end":[order of dropping, 0: the files]}
DRIVER(life) { JV r = JV::Obj(); r.set("ev", RunLife(in)); r.set("left", Left(RunLife, in)); return r; }
// {"driver":name,"in":scenario}
DRIVER(leak) { JV r = JV::Obj(); Handler h = FindDriver(in["driver"].s); r.set("left", Left(h, in["in"])); return r; }
// A child outlives its parent and is asked for it.
DRIVER(orphan) {
  JV r = JV::Obj(); ElementPtr p = NewElement("Point");
  { ElementPtr f = NewElement("Placemark"); FindSlot(f, "Geometry")->put(f, p); }
  ElementPtr q = p->GetParent(); r.set("res", q ? 1 : 0); return r;
}
