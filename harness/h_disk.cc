// Driver for files on a disk of limited size.
#include "drv.h"
#include <map>
#include <filesystem>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include "kml/base/file.h"
#include "kml/base/tempfile.h"
#include "kml/dom.h"
#include "kml/engine/kmz_file.h"
#include "kml/engine/kml_file.h"
using std::string; using namespace kmlengine; using kmlbase::File;
namespace {
// No file can grow beyond so many bytes while this lives.
struct Limit {
  struct rlimit old;
  explicit Limit(long n) { signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &old); if (n >= 0) { struct rlimit l = old; l.rlim_cur = (rlim_t)n; setrlimit(RLIMIT_FSIZE, &l); } }
  ~Limit() { setrlimit(RLIMIT_FSIZE, &old); }
};
// No file can be opened while this lives.
struct NoFd {
  struct rlimit old; bool on;
  explicit NoFd(bool b) : on(b) { if (!on) return; getrlimit(RLIMIT_NOFILE, &old); int f = open("/dev/null", O_RDONLY); close(f); struct rlimit l = old; l.rlim_cur = (rlim_t)f; setrlimit(RLIMIT_NOFILE, &l); }
  ~NoFd() { if (on) setrlimit(RLIMIT_NOFILE, &old); }
};
JV Pair(const string& a, const string& b) { JV v = JV::Arr(); v.push(a); v.push(b); return v; }
JV Entries(const string& path) {
  JV z = JV::Arr(); KmzFilePtr k(KmzFile::OpenFromFile(path.c_str())); std::vector<string> l; if (!k.get()) { z.push(Pair("!", "")); return z; } k->List(&l);
  for (size_t i = 0; i < l.size(); ++i) { string s; bool ok = k->ReadFile(l[i].c_str(), &s); z.push(Pair(l[i], ok ? s : string("!unreadable"))); }
  return z;
}
bool Make(const JV& o, const string& root, const string& path) {
  string w = o["op"].s;
  if (w == "write") return File::WriteStringToFile(o["d"].s, path);
  if (w == "kmz") return KmzFile::WriteKmz(path.c_str(), o["d"].s);
  kmldom::ElementPtr e = kmldom::Parse(o["d"].s, NULL);
  if (w == "elem") return KmzFile::CreateFromElement(e, root, path);
  return KmzFile::CreateFromKmlFilepath(root + "/src.kml", path);
}
}
// {"files":[[n,d]..],"ops":[{"op","p","d","lim":["none"|"abs"|"rel"|"frac",n]}..]}
DRIVER(disk) {
  string root = g_scratch + "/disk", side = g_scratch + "/side"; std::filesystem::remove_all(root); mkdir(root.c_str(), 0755); mkdir((root + "/d").c_str(), 0755);
  for (size_t i = 0; i < in["files"].size(); ++i) WriteAll(root + "/" + in["files"].at(i).at(0).s, in["files"].at(i).at(1).s);
  std::map<string, kmlbase::TempFilePtr> temps; std::map<string, string> tpath; JV ev = JV::Arr();
  for (size_t k = 0; k < in["ops"].size(); ++k) {
    const JV& o = in["ops"].at(k); string w = o["op"].s, p = o["p"].s; JV e = JV::Obj(); e.set("op", w); e.set("p", p);
    string path = p == "" ? string("") : tpath.count(p) ? tpath[p] : root + "/" + p;
    bool nofd = o.has("nofd") && o["nofd"].truth(); e.set("nofd", nofd);
    if (w == "read") { NoFd n(nofd); string s = "keep"; bool ok = File::ReadFileToString(path, &s); e.set("ok", ok); e.set("d", ok ? s : string("")); }
    else if (w == "exists") { NoFd n(nofd); e.set("ok", File::Exists(path)); }
    else if (w == "delete") { NoFd n(nofd); e.set("ok", File::Delete(path)); }
    else if (w == "temp") {
      { NoFd n(nofd); temps[p] = kmlbase::TempFile::CreateTempFile(); } bool ok = temps[p].get() != NULL; e.set("ok", ok);
      if (ok) { string n = temps[p]->name(); bool fresh = true; for (std::map<string, string>::iterator i = tpath.begin(); i != tpath.end(); ++i) if (i->second == n && temps[i->first].get() && i->first != p) fresh = false;
        struct stat st; e.set("fresh", fresh && stat(n.c_str(), &st) == 0 && S_ISREG(st.st_mode) && st.st_size == 0 && (st.st_mode & 077) == 0); tpath[p] = n; }
    } else if (w == "drop") temps[p] = NULL;
    else if (w == "join") { string a, b; string j = File::JoinPaths(p, o["d"].s); File::SplitFilePath(j, &a, &b); string a2, b2; File::SplitFilePath(j, &a2, NULL); File::SplitFilePath(j, NULL, &b2); e.set("q", o["d"].s); e.set("join", j); e.set("dir", a2 == a ? a : string("!differs")); e.set("name", b2 == b ? b : string("!differs")); }
    else {
      if (w == "path") WriteAll(root + "/src.kml", o["d"].s);
      long size = (long)o["d"].s.size(), lim = -1; string lk = o["lim"].at(0).s; double x = o["lim"].at(1).num();
      if (w != "write") { remove(side.c_str()); Make(o, root, side); size = (long)ReadAll(side).size(); remove(side.c_str()); }
      if (lk == "abs") lim = (long)x; else if (lk == "rel") lim = size + (long)x; else if (lk == "frac") lim = (long)(size * x); if (lk != "none" && lim < 0) lim = 0;
      { Limit l(lim); NoFd n(nofd); bool ok = Make(o, root, path); e.set("ok", ok); }
      e.set("size", (int)size); e.set("lim", (int)lim);
      if (w != "write") { e.set("z", Entries(path)); kmldom::ElementPtr el = kmldom::Parse(o["d"].s, NULL); e.set("doc", w == "kmz" ? o["d"].s : el ? kmldom::SerializePretty(el) : string("")); }
    }
    ev.push(e);
  }
  temps.clear(); JV left = JV::Arr(); for (std::map<string, string>::iterator i = tpath.begin(); i != tpath.end(); ++i) if (std::filesystem::exists(i->second)) { left.push(i->first); remove(i->second.c_str()); }
  JV e = JV::Obj(); e.set("op", "end"); e.set("p", ""); e.set("nofd", false); e.set("left", left); ev.push(e); std::filesystem::remove_all(root);
  JV r = JV::Obj(); r.set("ev", ev); return r;
}
