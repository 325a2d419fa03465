#include "drv.h"
#include <expat.h>
#include <unistd.h>
#include <signal.h>
#include <locale.h>
#include <locale>
#include <stdarg.h>
#include <string.h>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <new>
using std::string;
string g_scratch;
static std::map<string, Handler>& Table() { static std::map<string, Handler> t; return t; }
Reg::Reg(const char* name, Handler h) { Table()[name] = h; }

Handler FindDriver(const string& name) { return Table()[name]; }

// a fixed table, so that noticing a deletion allocates nothing
static const int kWatch = 4096; static void* g_watch[kWatch]; static bool g_gone[kWatch]; static int g_watched = 0;
void Watch(void* p) { if (g_watched < kWatch) { g_gone[g_watched] = false; g_watch[g_watched++] = p; } }
bool WatchFreed(void* p) { for (int i = g_watched - 1; i >= 0; --i) if (g_watch[i] == p) return g_gone[i]; return true; }
void WatchReset() { g_watched = 0; }
static inline void Gone(void* p) { for (int i = 0; i < g_watched; ++i) if (g_watch[i] == p) g_gone[i] = true; }
static long g_live = 0;
long LiveAllocs() { return g_live; }
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); ++g_live; return p; }
void* operator new[](size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); ++g_live; return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { void* p = malloc(n ? n : 1); if (p) ++g_live; return p; }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { void* p = malloc(n ? n : 1); if (p) ++g_live; return p; }
void operator delete(void* p) noexcept { if (p) { --g_live; if (g_watched) Gone(p); free(p); } }
void operator delete[](void* p) noexcept { if (p) { --g_live; if (g_watched) Gone(p); free(p); } }
void operator delete(void* p, size_t) noexcept { if (p) { --g_live; if (g_watched) Gone(p); free(p); } }
void operator delete[](void* p, size_t) noexcept { if (p) { --g_live; if (g_watched) Gone(p); free(p); } }

namespace {
struct Node { JV v; };
struct Ctx { std::vector<JV> stack; JV root; };
JV NewNode(const string& n) {
  JV v = JV::Obj(); v.set("n", n); v.set("t", ""); v.set("a", JV::Arr()); v.set("c", JV::Arr()); return v;
}
JV& Kids(JV& v) { return v.o[3].second; }
void XMLCALL Start(void* u, const char* name, const char** at) {
  Ctx* c = (Ctx*)u; JV v = NewNode(name);
  std::vector<std::pair<string, string> > as;
  for (int i = 0; at[i]; i += 2) as.push_back(std::make_pair(string(at[i]), string(at[i + 1])));
  std::sort(as.begin(), as.end());
  JV arr = JV::Arr();
  for (size_t i = 0; i < as.size(); ++i) arr.push(JV::Arr().push(as[i].first).push(as[i].second));
  v.set("a", arr); c->stack.push_back(v);
}
void XMLCALL End(void* u, const char*) {
  Ctx* c = (Ctx*)u; JV v = c->stack.back(); c->stack.pop_back();
  if (c->stack.empty()) c->root = v; else Kids(c->stack.back()).push(v);
}
void XMLCALL Chars(void* u, const char* s, int n) {
  Ctx* c = (Ctx*)u; if (c->stack.empty()) return;
  JV& k = Kids(c->stack.back());
  if (k.a.empty() || k.a.back()["n"].s != "#") k.push(NewNode("#"));
  JV& t = k.a.back().o[1].second; t.s.append(s, n);
}
void OnAlarm(int) { static const char m[] = "HANG\n"; if (write(2, m, 5)) {} _exit(98); }
}
JV XmlTree(const string& xml) {
  XML_Parser p = XML_ParserCreate(NULL); Ctx c;
  XML_SetUserData(p, &c); XML_SetElementHandler(p, Start, End); XML_SetCharacterDataHandler(p, Chars);
  int st = XML_Parse(p, xml.data(), (int)xml.size(), 1); XML_ParserFree(p);
  if (st != XML_STATUS_OK) return NewNode("!malformed");
  return c.root;
}
bool IsMalformed(const JV& t) { return t["n"].s == "!malformed"; }
string ReadAll(const string& path) { std::ifstream f(path.c_str(), std::ios::binary); std::stringstream ss; ss << f.rdbuf(); return ss.str(); }
void WriteAll(const string& path, const string& d) { std::ofstream f(path.c_str(), std::ios::binary); f.write(d.data(), d.size()); }

namespace { struct CLoc { locale_t old; CLoc() { static locale_t c = newlocale(LC_ALL_MASK, "C", (locale_t)0); old = uselocale(c); } ~CLoc() { uselocale(old); } }; }
int FmtD(char* b, size_t n, const char* fmt, ...) { CLoc c; va_list a; va_start(a, fmt); int r = vsnprintf(b, n, fmt, a); va_end(a); return r; }
double StrToD(const char* s, char** e) { CLoc c; return strtod(s, e); }
// The locale under test, if any, while a handler runs.
struct LocGuard { bool on; LocGuard() : on(getenv("VERIF_LOCALE") != NULL) { if (on) { std::locale::global(std::locale(getenv("VERIF_LOCALE"))); } } ~LocGuard() { if (on) std::locale::global(std::locale::classic()); } };
// usage: drv <handler> <scenarios.ndjson> <out.ndjson> <first-line> <scratch> <per-scenario-seconds>
int main(int argc, char** argv) {
  if (argc < 7) return 2;
  Handler h = Table()[argv[1]];
  if (!h) { fprintf(stderr, "no handler %s\n", argv[1]); return 2; }
  g_scratch = argv[5];
  signal(SIGALRM, OnAlarm); signal(SIGPIPE, SIG_IGN);
  std::ifstream in(argv[2]); FILE* out = fopen(argv[3], "a");
  string line; long n = 0, first = atol(argv[4]); unsigned secs = (unsigned)atol(argv[6]);
  while (std::getline(in, line)) {
    if (n++ < first) continue;
    const char* p = line.c_str(); JV sc = JV::parse(p);
    alarm(secs);
    JV r; { LocGuard g; r = h(sc); }
    alarm(0);
    r.set("id", sc["id"]); r.set("died", false);
    string s; r.dump(&s); s += '\n'; fwrite(s.data(), 1, s.size(), out); fflush(out);
  }
  fclose(out); return 0;
}
