// Shared pieces of the conformance drivers.
#ifndef VERIF_DRV_H_
#define VERIF_DRV_H_
#include <string>
#include <vector>
#include "jv.h"
typedef JV (*Handler)(const JV& in);
struct Reg { Reg(const char* name, Handler h); };
#define DRIVER(name) static JV drv_##name(const JV& in); static Reg reg_##name(#name, drv_##name); static JV drv_##name(const JV& in)
// Independent XML reader (expat, not the code under test): the element tree of
// the text, or {"n":"!malformed"} if it is not well-formed.
JV XmlTree(const std::string& xml);
bool IsMalformed(const JV& tree);
extern std::string g_scratch;  // private scratch directory of this driver process
std::string ReadAll(const std::string& path);
void WriteAll(const std::string& path, const std::string& data);
// Live allocations made through operator new since process start.
long LiveAllocs();
// Objects whose deletion is to be noticed.
void Watch(void* p);
bool WatchFreed(void* p);
void WatchReset();
// Numbers of the driver's own, whatever the locale under test.
int FmtD(char* b, size_t n, const char* fmt, ...);
double StrToD(const char* s, char** e);
Handler FindDriver(const std::string& name);
#endif
