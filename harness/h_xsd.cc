// Driver for schema files.
#include "drv.h"
#include "boost/scoped_ptr.hpp"
#include "kml/xsd/xsd_file.h"
#include "kml/xsd/xst_parser.h"
#include "kml/xsd/xsd_primitive_type.h"
#include "kml/xsd/xsd_simple_type.h"
#include "kml/xsd/xsd_complex_type.h"
#include "kml/xsd/xsd_util.h"
using std::string; using namespace kmlxsd;
namespace {
JV El(const XsdElementPtr& e) {
  JV v = JV::Obj();
  if (!e) { v.set("name", "!null"); v.set("ref", false); v.set("type", ""); v.set("def", ""); v.set("abs", false); v.set("sub", ""); return v; }
  v.set("name", e->get_name()); v.set("ref", e->is_ref()); v.set("type", e->get_type()); v.set("def", e->get_default()); v.set("abs", e->is_abstract()); v.set("sub", e->get_substitution_group()); return v;
}
JV Els(const XsdElementVector& q) { JV a = JV::Arr(); for (size_t i = 0; i < q.size(); ++i) a.push(El(q[i])); return a; }
JV One(const XsdElementPtr& e) { JV a = JV::Arr(); if (e) a.push(El(e)); return a; }
JV Ty(const XsdTypePtr& t) {
  JV v = JV::Obj(), s = JV::Arr(), n = JV::Arr();
  XsdComplexTypePtr c = XsdComplexType::AsComplexType(t); XsdSimpleTypePtr m = XsdSimpleType::AsSimpleType(t);
  v.set("name", t->get_name()); v.set("kind", c ? (t->is_complex() ? "complex" : "!") : t->is_complex() ? "!" : m ? "simple" : "primitive"); v.set("base", t->get_base());
  if (c) { for (size_t i = 0; i < c->get_sequence_size(); ++i) s.push(El(c->get_sequence_at(i))); if (c->has_extension_base() != (c->get_extension_base() != "")) v.set("kind", "!"); }
  if (m) { for (size_t i = 0; i < m->get_enumeration_size(); ++i) n.push(m->get_enumeration_at(i)); if (m->IsEnumeration() != (m->get_restriction_base() == "string" && n.size())) v.set("kind", "!"); }
  v.set("seq", s); v.set("enum", n); return v;
}
JV Tys(const XsdTypePtr& t) { JV a = JV::Arr(); if (t) a.push(Ty(t)); return a; }
// A schema made by calls: ["schema",prefix,ns] ["element",name,type] ["type",name,base,[[name,type]..]]
XsdFile* Build(const JV& calls) {
  XsdFile* f = new XsdFile;
  for (size_t i = 0; i < calls.size(); ++i) {
    const JV& c = calls.at(i); string k = c.at(0).s, n = c.at(1).s, t = c.at(2).s;
    if (k == "schema") f->set_schema(XsdSchemaPtr(CreateXsdSchema(n, t)));
    else if (k == "element") f->add_element(XsdElementPtr(CreateXsdElement(n, t)));
    else { XsdComplexTypePtr y(CreateXsdComplexType(n)); if (!t.empty()) y->set_extension_base(t); for (size_t j = 0; j < c.at(3).size(); ++j) y->add_element(XsdElementPtr(CreateXsdElement(c.at(3).at(j).at(0).s, c.at(3).at(j).at(1).s))); f->add_type(y); }
  }
  return f;
}
}
// {"x":schema,"xst":text,"qs":[[query,name]..]}
DRIVER(xsd) {
  JV r = JV::Obj(), ev = JV::Arr(); string err; boost::scoped_ptr<XsdFile> f(in.has("calls") ? Build(in["calls"]) : XsdFile::CreateFromParse(in["x"].s, &err));
  r.set("doc", XmlTree(in["x"].s)); JV p = JV::Obj(); p.set("q", "parse"); p.set("ok", f.get() != NULL && err.empty()); ev.push(p);
  if (f.get() && in.has("calls")) { XsdTypeVector t; f->GetAllTypes(&t); JV a = JV::Arr(); for (size_t i = 0; i < t.size(); ++i) for (size_t j = 0; j < t.size(); ++j) if ((*t[i] == *t[j]) != (t[i]->get_name() == t[j]->get_name())) ev.a[0].set("ok", false); }
  if (f.get()) XstParser(f.get()).ParseXst(in["xst"].s);
  for (size_t k = 0; f.get() && k < in["qs"].size(); ++k) {
    string q = in["qs"].at(k).at(0).s, n = in["qs"].at(k).at(1).s; JV e = JV::Obj(); e.set("q", q); e.set("n", n); XsdElementVector v; XsdComplexTypePtr c = XsdComplexType::AsComplexType(f->FindType(n));
    if (q == "schema") e.set("v", JV::Arr().push(f->get_target_namespace()).push(f->get_target_namespace_prefix()));
    else if (q == "elements") { f->GetAllElements(&v); e.set("els", Els(v)); }
    else if (q == "types") { XsdTypeVector t; f->GetAllTypes(&t); JV a = JV::Arr(); for (size_t i = 0; i < t.size(); ++i) a.push(Ty(t[i])); e.set("types", a); }
    else if (q == "element") { XsdElementPtr x = f->FindElement(n); e.set("els", One(x)); e.set("types", x ? Tys(f->FindElementType(x)) : JV::Arr()); }
    else if (q == "children") { f->GetChildElements(n, &v); e.set("els", Els(v)); }
    else if (q == "type") e.set("types", Tys(f->FindType(n)));
    else if (q == "ref") e.set("els", One(f->ResolveRef(n)));
    else if (q == "alias") e.set("v", f->get_alias(n));
    else if (q == "base") e.set("types", c ? Tys(f->GetBaseType(c)) : JV::Arr());
    else if (q == "hier") { std::vector<XsdComplexTypePtr> h; bool ok = c && f->GetTypeHierarchy(c, &h); JV a = JV::Arr(); for (size_t i = 0; i < h.size(); ++i) a.push(Ty(h[i])); e.set("ok", ok); e.set("types", a); }
    else if (q == "oftype") { f->GetElementsOfTypeByName(n, &v); e.set("els", Els(v)); }
    else if (q == "ids") { size_t b = 0, s = 0; f->GenerateElementIdVector(&v, &b, &s); e.set("els", Els(v)); e.set("v", JV::Arr().push((int)b).push((int)s)); }
    ev.push(e);
  }
  r.set("ev", ev); return r;
}
