// Drivers for KMZ archives.
#include "drv.h"
#include <memory>
#include <sys/stat.h>
#include <filesystem>
#include "kml/base/file.h"
#include "kml/base/zip_file.h"
#include "kml/dom.h"
#include "kml/engine/kmz_file.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/get_links.h"
#include "kml/convenience/kmz_check_links.h"
using std::string; using namespace kmlengine;
namespace {
JV Two(bool b, const string& s) { JV v = JV::Arr(); v.push(b); v.push(s); return v; }
JV Read(KmzFile* z, const string& n) { string s = "keep"; bool ok = z->ReadFile(n.c_str(), &s); return Two(ok, s); }
JV Kml(KmzFile* z) { string s = "keep", p = "keep"; bool ok = z->ReadKmlAndGetPath(&s, &p); JV v = Two(ok, s); v.push(p); string t = "keep"; if (z->ReadKml(&t) != ok || t != s) v.push("ReadKml differs"); return v; }
JV AsFile(const string& bytes) { KmlFilePtr k(KmlFile::CreateFromParse(bytes, NULL)); if (!k) return Two(false, "keep"); return Two(true, k->get_root() ? kmldom::SerializeRaw(k->get_root()) : string("no root")); }
JV Strs(const std::vector<string>& v) { JV a = JV::Arr(); for (size_t i = 0; i < v.size(); ++i) a.push(v[i]); return a; }
JV Look(KmzFile* z, const JV& in, const char* k, const string& bytes) {
  JV e = JV::Obj(); e.set("k", k); e.set("open", z != NULL); if (!z) return e;
  std::unique_ptr<kmlbase::ZipFile> own(kmlbase::ZipFile::OpenFromString(bytes)); e.set("max0", z->get_max_uncompressed_file_size() == own->get_max_uncompressed_file_size());
  if (in["max"].num() > 0) { own->set_max_uncompressed_file_size((unsigned)in["max"].num()); z->set_max_uncompressed_file_size((unsigned)in["max"].num()); }
  e.set("max", in["max"].num() == 0 || z->get_max_uncompressed_file_size() == (unsigned)in["max"].num());
  JV has = JV::Arr(), can = JV::Arr(); for (size_t i = 0; i < in["ask"].size(); ++i) { has.push(own->IsInToc(in["ask"].at(i).s)); can.push(own->GetEntry(in["ask"].at(i).s, NULL)); } e.set("has", has); e.set("can", can);
  e.set("asfile", AsFile(bytes));
  std::vector<string> l(1, "before"); bool lok = z->List(&l); e.set("list", lok ? Strs(l) : JV("failed"));
  JV r = JV::Arr(); for (size_t i = 0; i < in["ask"].size(); ++i) r.push(Read(z, in["ask"].at(i).s)); e.set("read", r);
  e.set("kml", Kml(z)); string s; bool sok = z->SaveToString(&s); e.set("same", sok && s == bytes);
  std::vector<string> miss; bool ck = kmlconvenience::KmzCheckLinks(*z, &miss); e.set("links", ck); e.set("missing", Strs(miss));
  return e;
}
void MkDirs(const string& path) { for (size_t i = 1; i < path.size(); ++i) if (path[i] == '/') mkdir(path.substr(0, i).c_str(), 0755); }
}
// {"add":[[name,data]..] or "bytes":"..","ask":[names],"max":n,"ext":".png","damage":[{"k","at","x"}]}
DRIVER(kmz) {
  string path = g_scratch + "/t.kmz"; remove(path.c_str()); JV ev = JV::Arr(); string bytes;
  if (in.has("bytes")) { bytes = in["bytes"].s; WriteAll(path, bytes); }
  else {
    { std::unique_ptr<KmzFile> w(KmzFile::Create(path.c_str()));
      for (size_t i = 0; i < in["add"].size(); ++i) {
        bool ok = w->AddFile(in["add"].at(i).at(1).s, in["add"].at(i).at(0).s);
        JV e = JV::Obj(); e.set("k", "add"); e.set("n", in["add"].at(i).at(0).s); e.set("ok", ok); ev.push(e);
      } }
    bytes = ReadAll(path);
  }
  JV o = JV::Obj();
  if (!in.has("damage")) {
    KmzFilePtr f(KmzFile::OpenFromFile(path.c_str())); JV e = Look(f.get(), in, "file", bytes);
    string x = "keep"; if (f.get()) { std::unique_ptr<kmlbase::ZipFile> zf(kmlbase::ZipFile::OpenFromString(bytes)); bool fx = zf->FindFirstOf(in["ext"].s, &x); e.set("find", Two(fx, x)); } ev.push(e);
    KmzFilePtr g(KmzFile::OpenFromString(bytes)); e = Look(g.get(), in, "string", bytes);
    if (g.get()) { std::unique_ptr<kmlbase::ZipFile> zf(kmlbase::ZipFile::OpenFromFile(path.c_str())); string y = "keep"; bool fx = zf->FindFirstOf(in["ext"].s, &y); e.set("find", Two(fx, y)); } ev.push(e);
    o.set("bytes", bytes);
  } else {
    string b = bytes;
    for (size_t i = 0; i < in["damage"].size(); ++i) {
      const JV& d = in["damage"].at(i); if (b.empty()) break; size_t at = (size_t)d["at"].num() % b.size(); string k = d["k"].s;
      if (k == "cut") b.resize(at); else if (k == "flip") b[at] = (char)(b[at] ^ (int)d["x"].num());
      else if (k == "del") b.erase(at, (size_t)d["x"].num()); else b.insert(at, (size_t)d["x"].num(), 'A');
    }
    JV e = JV::Obj(); e.set("k", "damaged"); JV got = JV::Arr(); JV none = Two(false, "keep"); none.push("keep"); e.set("kml", none);
    KmzFilePtr z(KmzFile::OpenFromString(b));
    if (z.get()) {
      z->set_max_uncompressed_file_size(1 << 20); std::vector<string> l; z->List(&l);
      for (size_t i = 0; i < l.size() && i < 50; ++i) got.push(Read(z.get(), l[i]));
      for (size_t i = 0; i < in["ask"].size(); ++i) got.push(Read(z.get(), in["ask"].at(i).s));
      e.set("kml", Kml(z.get()));
    }
    e.set("asfile", AsFile(b));
    e.set("got", got); ev.push(e);
  }
  remove(path.c_str()); o.set("ev", ev); return o;
}
// {"files":[[path,data]..],"base":"dir","mode":"list|element|file","links":[..],"kml":".."}
DRIVER(pack) {
  string root = g_scratch + "/pack"; std::filesystem::remove_all(root);
  mkdir(root.c_str(), 0755); string kmz = g_scratch + "/p.kmz"; remove(kmz.c_str());
  for (size_t i = 0; i < in["files"].size(); ++i) { string p = root + "/" + in["files"].at(i).at(0).s; MkDirs(p); WriteAll(p, in["files"].at(i).at(1).s); }
  string base = root + "/" + in["base"].s, mode = in["mode"].s; bool ok = false; long errors = 0; MkDirs(base + "/x"); string kml;
  if (mode == "list") {
    std::unique_ptr<KmzFile> w(KmzFile::Create(kmz.c_str())); std::vector<string> l; for (size_t i = 0; i < in["links"].size(); ++i) l.push_back(in["links"].at(i).s);
    kml = in["kml"].s; ok = w->AddFile(kml, "doc.kml"); errors = (long)w->AddFileList(base, l);
  } else if (mode == "element") {
    kmldom::ElementPtr e = kmldom::Parse(in["kml"].s, NULL); kml = kmldom::SerializePretty(e); ok = KmzFile::CreateFromElement(e, base, kmz);
  } else {
    string f = base + "/" + in["name"].s; WriteAll(f, in["kml"].s); ok = KmzFile::CreateFromKmlFilepath(f, kmz);
    kmldom::ElementPtr e = kmldom::Parse(in["kml"].s, NULL); if (e) kml = kmldom::SerializePretty(e);
  }
  JV z = JV::Arr(); KmzFilePtr k(KmzFile::OpenFromFile(kmz.c_str())); std::vector<string> l; if (k.get()) k->List(&l);
  for (size_t i = 0; i < l.size(); ++i) { JV r = Read(k.get(), l[i]); JV x = Two(true, ""); x.a.clear(); x.push(l[i]); x.push(r.at(0).truth() ? r.at(1).s : string("!unreadable")); z.push(x); }
  JV e = JV::Obj(); e.set("ok", ok); e.set("errors", (int)errors); e.set("z", z); e.set("kml", kml);
  std::filesystem::remove_all(root); remove(kmz.c_str());
  return e;
}
