// Driver for histories of attribute lists.
#include "drv.h"
#include <cstdio>
#include "kml/base/attributes.h"
#include "kml/base/xmlns.h"
#include "kml/base/xml_namespaces.h"
using std::string; using kmlbase::Attributes;
namespace {
JV Content(const Attributes& a) { JV r = JV::Arr(); kmlbase::StringMapIterator i = a.CreateIterator(); for (; !i.AtEnd(); i.Advance()) r.push(JV::Arr().push(i.Data().first).push(i.Data().second)); return r; }
string Num(double d) { char b[64]; FmtD(b, 64, "%.15g", d); return b; }
}
// {"ops":[[op, list, args..]..]} over the lists 0..2
DRIVER(attrs) {
  JV r = JV::Obj(), ev = JV::Arr(); Attributes* a[3]; for (int i = 0; i < 3; ++i) a[i] = new Attributes;
  for (size_t k = 0; k < in["ops"].size(); ++k) {
    const JV& o = in["ops"].at(k); string op = o.at(0).s; size_t w = (size_t)o.at(1).num(); bool ok = false; string val = "-";
    if (op == "create" || op == "createv") {
      std::vector<string> v; for (size_t i = 0; i < o.at(2).size(); ++i) v.push_back(o.at(2).at(i).s);
      std::vector<const char*> c; for (size_t i = 0; i < v.size(); ++i) c.push_back(v[i].c_str()); c.push_back(NULL);
      delete a[w]; a[w] = op == "create" ? Attributes::Create(&c[0]) : Attributes::Create(v); ok = a[w] != NULL; if (!a[w]) a[w] = new Attributes;
    }
    else if (op == "set") { string t = o.at(3).s, v = o.at(4).s, n = o.at(2).s; if (t == "str") a[w]->SetValue(n, v); else if (t == "int") a[w]->SetValue(n, atoi(v.c_str())); else if (t == "bool") a[w]->SetValue(n, v == "1"); else if (t == "dbl") a[w]->SetValue(n, StrToD(v.c_str(), NULL)); else a[w]->SetString(n, v); }
    else if (op == "get" || op == "cut") {
      string t = o.at(3).s, n = o.at(2).s; bool cut = op == "cut";
      if (t == "str") { string s = "-"; ok = cut ? a[w]->CutValue(n, &s) : a[w]->GetValue(n, &s); val = s; }
      else if (t == "int") { int i = -77; ok = cut ? a[w]->CutValue(n, &i) : a[w]->GetValue(n, &i); val = ok ? Num(i) : i == -77 ? "-" : "touched"; }
      else if (t == "bool") { bool b = true; ok = cut ? a[w]->CutValue(n, &b) : a[w]->GetBool(n, &b); val = ok ? (b ? "1" : "0") : b ? "-" : "touched"; }
      else if (t == "dbl") { double d = -77.5; ok = cut ? a[w]->CutValue(n, &d) : a[w]->GetDouble(n, &d); val = ok ? Num(d) : d == -77.5 ? "-" : "touched"; }
      else { ok = cut ? a[w]->CutValue(n, (string*)NULL) : a[w]->GetValue(n, (string*)NULL); }
    }
    else if (op == "find") { string s = "-"; ok = a[w]->FindValue(o.at(2).s, &s); val = s; if (a[w]->FindValue(o.at(2).s, NULL) != ok) val = "differs"; }
    else if (op == "key") { string s = "-"; ok = a[w]->FindKey(o.at(2).s, &s); val = s; if (a[w]->FindKey(o.at(2).s, NULL) != ok) val = "differs"; }
    else if (op == "merge") a[w]->MergeAttributes(*a[(size_t)o.at(2).num()]);
    else if (op == "clone") { Attributes* c = a[(size_t)o.at(2).num()]->Clone(); ok = c != NULL; delete a[w]; a[w] = c ? c : new Attributes; }
    else if (op == "split") { size_t to = (size_t)o.at(3).num(); Attributes* c = a[w]->SplitByPrefix(o.at(2).s); ok = c != NULL; if (c) { delete a[to]; a[to] = c; } }
    JV nsp = JV::Arr(), nsk = JV::Arr(), nst = JV::Arr();
    if (op == "xmlns") {
      kmlbase::Xmlns* x = kmlbase::Xmlns::Create(*a[w]); ok = x != NULL;
      if (x) { val = x->get_default(); std::vector<string> v; x->GetPrefixes(&v); for (size_t i = 0; i < v.size(); ++i) nsp.push(JV::Arr().push(v[i]).push(x->GetNamespace(v[i])));
        for (size_t i = 0; i < o.at(2).size(); ++i) { const string& q = o.at(2).at(i).s; nsk.push(JV::Arr().push(q).push(x->GetNamespace(q)).push(x->GetKey(q))); } delete x; }
      for (int i = -1; i < 40; ++i) { string p = "-", n = "-"; bool f = kmlbase::FindXmlNamespaceAndPrefix((kmlbase::XmlnsId)i, &p, &n); string p2 = "-", n2 = "-"; kmlbase::FindXmlNamespaceAndPrefix((kmlbase::XmlnsId)i, &p2, NULL); kmlbase::FindXmlNamespaceAndPrefix((kmlbase::XmlnsId)i, NULL, &n2); if (p2 != p || n2 != n) p = "differs"; if (f) nst.push(JV::Arr().push(p).push(n)); else if (p != "-" || n != "-") nst.push("touched"); }
    }
    JV e = JV::Obj(), ls = JV::Arr(), ds = JV::Arr(); e.set("nsp", nsp); e.set("nsk", nsk); e.set("nst", nst); e.set("op", o); e.set("ok", ok); e.set("val", val); bool same = true;
    for (int i = 0; i < 3; ++i) {
      ls.push(Content(*a[i])); string x = "<x"; a[i]->Serialize(&x); ds.push(XmlTree(x + "/>")["a"]); a[i]->Serialize(NULL);
      std::vector<string> n; a[i]->GetAttrNames(&n); a[i]->GetAttrNames(NULL); if (n.size() != a[i]->GetSize() || n.size() != Content(*a[i]).size()) same = false; else for (size_t j = 0; j < n.size(); ++j) if (n[j] != Content(*a[i]).at(j).at(0).s) same = false;
    }
    e.set("lists", ls); e.set("docs", ds); e.set("same", same); ev.push(e);
  }
  for (int i = 0; i < 3; ++i) delete a[i];
  r.set("ev", ev); return r;
}
