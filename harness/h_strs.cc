// Driver for the text helpers.
#include "drv.h"
#include <stdio.h>
#include "kml/base/string_util.h"
using std::string; using namespace kmlbase;
// {"ops":[{"op","x","y",..}]}
DRIVER(strs) {
  JV r = JV::Obj(), ev = JV::Arr();
  for (size_t i = 0; i < in["ops"].size(); ++i) {
    JV e = in["ops"].at(i); string k = e["op"].s, x = e["x"].s, y = e["y"].s; char b[64];
    if (k == "split") { std::vector<string> v; SplitStringUsing(x, y, &v); JV a = JV::Arr(); for (size_t j = 0; j < v.size(); ++j) a.push(v[j]); e.set("got", a); }
    else if (k == "ends") e.set("got", StringEndsWith(x, y));
    else if (k == "same") e.set("got", StringCaseEqual(x, y));
    else if (k == "skip") { size_t a = SkipLeadingWhitespaceString(x), c = SkipLeadingWhitespace(x.data(), x.data() + x.size()); e.set("got", a == c ? (int)a : -1); }
    else if (k == "num") { double d = 7e77, c = 7e77; bool o = StringToDouble(x, &d), o2 = StringToDouble(x.c_str(), &c); e.set("got", o); e.set("isnum", IsDecimalDoubleString(x)); e.set("ask", StringToDouble(x, NULL)); snprintf(b, 64, "%.15g", d); e.set("val", o != o2 || (o && c != d) ? "differ" : b); }
    else if (k == "bool") { bool a = false, c = true; FromString(x, &a); FromString(x, &c); FromString(x, (bool*)NULL); if (a == c) e.set("got", a); else e.set("got", "differ"); }
    else if (k == "int") { int a = 5; FromString(x, &a); FromString(x, (int*)NULL); e.set("got", a); }
    else if (k == "text") { string a; FromString(x, &a); FromString(x, (string*)NULL); e.set("got", a == ToString(x) ? a : "differ"); }
    else if (k == "expand") { StringMap m; for (size_t j = 0; j < e["map"].size(); ++j) m[e["map"].at(j).at(0).s] = e["map"].at(j).at(1).s; e.set("got", CreateExpandedStrings(x, m, e["b"].s, e["e"].s)); }
    else if (k == "ofint") { int n = (int)e["n"].num(), c = 0; e.set("got", ToString(n)); FromString(ToString(n), &c); e.set("back", c); }
    else if (k == "ofbool") { bool n = e["n"].num() != 0, c = !n; string t = ToString(n); FromString(t, &c); e.set("got", c == n ? t : "differ"); }
    else if (k == "ofdouble") { double d = strtod(x.c_str(), NULL), c = 0; FromString(ToString(d), &c); e.set("got", c == d ? ToString(d) : "differ"); }
    else if (k == "hex") { char o[3] = {0, 0, 0}; b2a_hex((uint32_t)e["n"].num(), o); e.set("got", o[2] ? "overrun" : o); }
    ev.push(e);
  }
  r.set("ev", ev); return r;
}
