// Driver for whole-document parse/serialize behaviour.
#include "drv.h"
#include "kml/dom.h"
#include "kml/engine.h"
using std::string; using namespace kmldom;
// {"x": xml} -> in: tree of x, ok, pretty/raw: trees of the serializations,
// again: serializing the re-parsed output reproduces it.
DRIVER(dom) {
  JV r = JV::Obj(); const string& x = in["x"].s;
  r.set("in", XmlTree(x)); r.set("x", x);
  string err; ElementPtr e = Parse(x, &err);
  r.set("ok", (bool)e); r.set("err", !err.empty());
  string pretty = e ? SerializePretty(e) : "", raw = e ? SerializeRaw(e) : "";
  r.set("pretty", e ? XmlTree(pretty) : XmlTree("<none/>"));
  r.set("raw", e ? XmlTree(raw) : XmlTree("<none/>"));
  bool again = true;
  if (e) {
    ElementPtr e2 = Parse(raw, NULL), e3 = Parse(pretty, NULL);
    again = e2 && e3 && SerializeRaw(e2) == raw && SerializePretty(e3) == pretty;
  }
  r.set("again", again);
  return r;
}
