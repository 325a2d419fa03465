// Driver for the accessors of the simple fields and attributes.
#include "drv.h"
#include "tree.h"
#include <cstdio>
#include <map>
#include "kml/base/color32.h"
#include "kml/engine.h"
using std::string; using namespace kmldom;
namespace {
// values travel as text
template <class T> struct Val;
template <> struct Val<bool> { static bool Of(const string& s) { return s == "1"; } static string To(bool v) { return v ? "1" : "0"; } };
template <> struct Val<int> { static int Of(const string& s) { return atoi(s.c_str()); } static string To(int v) { char b[32]; snprintf(b, 32, "%d", v); return b; } };
template <> struct Val<double> { static double Of(const string& s) { return StrToD(s.c_str(), NULL); } static string To(double v) { char b[64]; FmtD(b, 64, "%.15g", v); return b; } };
template <> struct Val<string> { static string Of(const string& s) { return s; } static string To(const string& v) { return v; } };
template <> struct Val<kmlbase::Color32> {
  static kmlbase::Color32 Of(const string& s) { unsigned a, b, g, r; sscanf(s.c_str(), "%2x%2x%2x%2x", &a, &b, &g, &r); kmlbase::Color32 c; c.set_alpha(a); c.set_blue(b); c.set_green(g); c.set_red(r); return c; }
  static string To(const kmlbase::Color32& v) { char b[16]; snprintf(b, 16, "%02x%02x%02x%02x", v.get_alpha(), v.get_blue(), v.get_green(), v.get_red()); return b; } };
struct Field { const char* type; const char* name; void (*set)(const ElementPtr&, const string&); string (*get)(const ElementPtr&); bool (*has)(const ElementPtr&); void (*clear)(const ElementPtr&); };
template <class T> struct Bare { typedef T type; }; template <class T> struct Bare<const T&> { typedef T type; }; template <class T> struct Bare<const T> { typedef T type; };
#define F(C, t, n, f) { t, n, \
  [](const ElementPtr& e, const string& v) { C* c = static_cast<C*>(e.get()); c->set_##f(Val<Bare<decltype(c->get_##f())>::type>::Of(v)); }, \
  [](const ElementPtr& e) -> string { C* c = static_cast<C*>(e.get()); return Val<Bare<decltype(c->get_##f())>::type>::To(c->get_##f()); }, \
  [](const ElementPtr& e) { return static_cast<C*>(e.get())->has_##f(); }, [](const ElementPtr& e) { static_cast<C*>(e.get())->clear_##f(); } },
const Field kFields[] = {
#include "fields.inc"
};
JV Seen(const string& ty, const ElementPtr& e) {
  JV r = JV::Arr();
  for (size_t i = 0; i < sizeof(kFields) / sizeof(*kFields); ++i) if (ty == kFields[i].type) r.push(JV::Arr().push(kFields[i].name).push(kFields[i].has(e)).push(kFields[i].get(e)));
  return r;
}
}
// {"ty":tag,"ops":[["set",which,field,value],["clear",which,field],["again",which],["copy",which]]}
DRIVER(fields) {
  JV r = JV::Obj(), ev = JV::Arr(); string ty = in["ty"].s; std::vector<ElementPtr> el; el.push_back(NewElement(ty)); el.push_back(NewElement(ty));
  JV ops = in["ops"];
  for (size_t k = 0; k < ops.size() + 1; ++k) {
    JV o = k ? ops.at(k - 1) : JV::Arr().push("new").push(0); const string& op = o.at(0).s; size_t w = (size_t)o.at(1).num(); bool done = op == "new";
    if (op == "set" || op == "clear") for (size_t i = 0; i < sizeof(kFields) / sizeof(*kFields); ++i) if (ty == kFields[i].type && o.at(2).s == kFields[i].name) { done = true; if (op == "set") kFields[i].set(el[w], o.at(3).s); else kFields[i].clear(el[w]); }
    if (op == "copy") { ElementPtr c = kmlengine::Clone(el[w]); if (c) { done = true; el[w] = c; } }
    JV e = JV::Obj(), s = JV::Arr(), d = JV::Arr(); e.set("op", o); e.set("done", done);
    for (size_t i = 0; i < 2; ++i) { s.push(Seen(ty, el[i])); d.push(XmlTree(SerializeRaw(el[i]))); }
    e.set("seen", s); e.set("docs", d); ev.push(e);
  }
  r.set("ev", ev); return r;
}
