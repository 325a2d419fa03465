// Driver for URIs.
#include "drv.h"
#include <memory>
#include "kml/base/uri_parser.h"
#include "kml/engine/kml_uri.h"
#include "kml/engine/kml_uri_internal.h"
#include "kml/engine/href.h"
using std::string; using kmlbase::UriParser; using namespace kmlengine;
namespace {
JV Two(bool b, const string& s) { JV v = JV::Arr(); v.push(b); v.push(s); return v; }
typedef bool (UriParser::*Part)(string*) const;
JV Get(const UriParser* p, Part f) { string s; bool b = p && (p->*f)(&s); if (p && (p->*f)(NULL) != b) s = "!NULL"; return Two(b, s); }
}
// {"u","base","geo"}
DRIVER(uri) {
  string u = in["u"].s, base = in["base"].s, s; JV g = JV::Obj();
  std::unique_ptr<UriParser> p(UriParser::CreateFromParse(u.c_str()));
  g.set("ok", p.get() != NULL); if (p.get()) p->ToString(&s); g.set("text", s);
  g.set("scheme", Get(p.get(), &UriParser::GetScheme)); g.set("host", Get(p.get(), &UriParser::GetHost)); g.set("port", Get(p.get(), &UriParser::GetPort));
  g.set("path", Get(p.get(), &UriParser::GetPath)); g.set("query", Get(p.get(), &UriParser::GetQuery)); g.set("frag", Get(p.get(), &UriParser::GetFragment));
  string a, b, c, d, e, f; JV sp = JV::Arr(); sp.push(SplitUri(u, &a, &b, &c, &d, &e, &f)); sp.push(a); sp.push(b); sp.push(c); sp.push(d); sp.push(e); sp.push(f); g.set("split", sp);
  string fr; bool hf = SplitUriFragment(u, &fr); g.set("sfrag", Two(hf, fr));
  string n; bool nb = NormalizeUri(u, &n); g.set("norm", nb ? n : string("!")); 
  string r; bool rb = ResolveUri(base, u, &r); g.set("res", Two(rb, r));
  string ku = "keep", kp = "keep"; bool kb = KmzSplit(u, &ku, &kp); JV k = Two(kb, ku); k.push(kp); g.set("kmz", k);
  string m; bool mb = ResolveModelTargetHref(base, in["geo"].s, u, &m); g.set("model", Two(mb, m));
  string fe; bool fb = GetFetchableUri(u, &fe); g.set("fetch", Two(fb, fe));
  string pa; bool pb = SplitUriPath(u, &pa); g.set("spath", Two(pb, pa));
  std::unique_ptr<KmlUri> kuri(KmlUri::CreateRelative(base, u)); JV kj = JV::Arr(); kj.push(kuri.get() != NULL);
  if (kuri.get()) { kj.push(kuri->get_target()); kj.push(kuri->get_url()); kj.push(kuri->is_kmz()); kj.push(kuri->get_kmz_url()); kj.push(kuri->get_path_in_kmz()); }
  g.set("kuri", kj);
  Href h(u); JV hj = JV::Obj(); hj.set("scheme", h.get_scheme()); hj.set("net", h.get_net_loc()); hj.set("path", h.get_path()); hj.set("frag", h.get_fragment());
  hj.set("rel", h.IsRelative()); hj.set("relpath", h.IsRelativePath()); hj.set("fragonly", h.IsFragmentOnly()); g.set("h", hj);
  JV o = JV::Obj(); o.set("u", u); o.set("base", base); o.set("geo", in["geo"].s); o.set("got", g); return o;
}

// {"name"}
DRIVER(filename) {
  string n = in["name"].s, u, b, h; JV g = JV::Obj();
  bool ok = FilenameToUri(n, &u); g.set("uri", Two(ok, u));
  ok = UriToFilename(u, &b); g.set("back", Two(ok, b));
  ok = NormalizeHref(n, &h); g.set("href", Two(ok, h));
  JV o = JV::Obj(); o.set("name", n); o.set("got", g); return o;
}

// {"name"}: a Windows name
DRIVER(winname) {
  string n = in["name"].s, u, b, a; JV g = JV::Obj();
  bool ok = UriParser::WindowsFilenameToUri(n, &u); g.set("uri", Two(ok, u));
  ok = UriParser::FilenameToUri(n, &a); g.set("auto", Two(ok, a));
  ok = UriParser::UriToWindowsFilename(u, &b); if (UriParser::WindowsFilenameToUri(n, NULL) || UriParser::UriToWindowsFilename(u, NULL) || UriParser::UnixFilenameToUri(n, NULL) || UriParser::UriToUnixFilename(u, NULL)) b = "!NULL"; g.set("back", Two(ok, b));
  JV o = JV::Obj(); o.set("win", true); o.set("name", n); o.set("got", g); return o;
}

// {"ops":[["new",h]|["set",part,v]|["clear",part]..]}
DRIVER(href) {
  Href h; JV r = JV::Obj(), ev = JV::Arr();
  for (size_t i = 0; i < in["ops"].size(); ++i) {
    const JV& o = in["ops"].at(i); string k = o.at(0).s, p = o.at(1).s;
    if (k == "new") h = Href(p);
    else if (k == "set") { string v = o.at(2).s; if (p == "scheme") h.set_scheme(v); else if (p == "net") h.set_net_loc(v); else if (p == "path") h.set_path(v); else h.set_fragment(v); }
    else if (p == "scheme") h.clear_scheme(); else if (p == "net") h.clear_net_loc(); else if (p == "path") h.clear_path(); else h.clear_fragment();
    JV e = JV::Obj(); e.set("op", o); e.set("parts", JV::Arr().push(h.get_scheme()).push(h.get_net_loc()).push(h.get_path()).push(h.get_fragment()));
    e.set("kind", JV::Arr().push(h.has_scheme()).push(h.has_net_loc()).push(h.has_path()).push(h.has_fragment()).push(h.IsRelative()).push(h.IsRelativePath()).push(h.IsFragmentOnly())); ev.push(e);
  }
  r.set("ev", ev); return r;
}
