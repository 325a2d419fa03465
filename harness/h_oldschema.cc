// Driver for schemas by name and the conversion of old-style schema instances.
#include "drv.h"
#include "kml/dom.h"
#include "kml/engine.h"
#include "kml/engine/old_schema_parser_observer.h"
#include "kml/engine/parse_old_schema.h"
#include "kml/engine/schema_parser_observer.h"
using std::string; using namespace kmldom; using namespace kmlengine;
// {"x": document, "t": [texts]} -> the schemas by name found in x, x read with
// instances converted, and each text converted and parsed with that map.
DRIVER(oldschema) {
  JV r = JV::Obj(), ev = JV::Arr(), d = JV::Obj(), m = JV::Arr(); const string& x = in["x"].s;
  SchemaNameMap names;
  { Parser p; SchemaParserObserver o(&names); p.AddObserver(&o); ElementPtr e = p.Parse(x, NULL); }
  for (SchemaNameMap::const_iterator i = names.begin(); i != names.end(); ++i) {
    JV q = JV::Arr(); q.push(i->first); q.push(XmlTree(SerializeRaw(i->second))); m.push(q);
  }
  OldSchemaParserObserver o(names); Parser p; p.AddObserver(&o); string err; ElementPtr e = p.Parse(x, &err);
  d.set("k", "doc"); d.set("in", XmlTree(x)); d.set("names", m); d.set("ok", (bool)e); d.set("raw", XmlTree(e ? SerializeRaw(e) : "<none/>"));
  ev.push(d);
  for (size_t i = 0; i < in["t"].a.size(); ++i) {
    const string& t = in["t"].a[i].s; JV q = JV::Obj(); string out = "kept", errs;
    q.set("k", "text"); q.set("in", XmlTree(t)); bool ok = ConvertOldSchema(t, names, &out);
    q.set("ok", ok); q.set("kept", out == "kept"); q.set("out", XmlTree(ok ? out : "<none/>"));
    PlacemarkPtr pm = ParseOldSchema(t, names, &errs); q.set("placemark", (bool)pm); q.set("raw", XmlTree(pm ? SerializeRaw(pm) : "<none/>"));
    q.set("null", ConvertOldSchema(t, names, NULL));
    ev.push(q);
  }
  r.set("ev", ev); return r;
}
