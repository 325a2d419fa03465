// Minimal JSON value used by the conformance drivers.  Strings are byte
// strings: byte b is written as the code point U+00bb, so a reader sees exactly
// one character per byte whatever the encoding of the content was.
#ifndef VERIF_JV_H_
#define VERIF_JV_H_
#include <map>
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
struct JV {
  enum K { NUL, BOOL, INT, STR, ARR, OBJ } k;
  bool b; long i; std::string s; std::vector<JV> a;
  std::vector<std::pair<std::string, JV> > o;
  JV() : k(NUL), b(false), i(0) {}
  JV(bool v) : k(BOOL), b(v), i(0) {}
  JV(int v) : k(INT), b(false), i(v) {}
  JV(long v) : k(INT), b(false), i(v) {}
  JV(size_t v) : k(INT), b(false), i((long)v) {}
  JV(const char* v) : k(STR), b(false), i(0), s(v) {}
  JV(const std::string& v) : k(STR), b(false), i(0), s(v) {}
  static JV Arr() { JV v; v.k = ARR; return v; }
  static JV Obj() { JV v; v.k = OBJ; return v; }
  JV& push(const JV& v) { a.push_back(v); return *this; }
  JV& set(const std::string& key, const JV& v) {
    for (size_t j = 0; j < o.size(); ++j) if (o[j].first == key) { o[j].second = v; return *this; }
    o.push_back(std::make_pair(key, v)); return *this;
  }
  bool has(const std::string& key) const {
    for (size_t j = 0; j < o.size(); ++j) if (o[j].first == key) return true;
    return false;
  }
  const JV& operator[](const std::string& key) const {
    for (size_t j = 0; j < o.size(); ++j) if (o[j].first == key) return o[j].second;
    static JV nul; return nul;
  }
  const JV& at(size_t j) const { return a[j]; }
  size_t size() const { return k == ARR ? a.size() : o.size(); }
  const std::string& str() const { return s; }
  int num() const { return (int)i; }
  bool truth() const { return k == BOOL ? b : k == INT ? i != 0 : k != NUL; }
  void dump(std::string* out) const {
    char buf[32];
    switch (k) {
      case NUL: *out += "\"\""; break;
      case BOOL: *out += b ? "true" : "false"; break;
      case INT: snprintf(buf, sizeof buf, "%ld", i); *out += buf; break;
      case STR: quote(s, out); break;
      case ARR: *out += '['; for (size_t j = 0; j < a.size(); ++j) { if (j) *out += ','; a[j].dump(out); } *out += ']'; break;
      case OBJ: *out += '{'; for (size_t j = 0; j < o.size(); ++j) { if (j) *out += ','; quote(o[j].first, out); *out += ':'; o[j].second.dump(out); } *out += '}'; break;
    }
  }
  static void quote(const std::string& v, std::string* out) {
    *out += '"';
    for (size_t j = 0; j < v.size(); ++j) {
      unsigned char c = v[j];
      if (c == '"' || c == '\\') { *out += '\\'; *out += c; }
      else if (c < 0x20 || c >= 0x7f) { char buf[8]; snprintf(buf, sizeof buf, "\\u%04x", c); *out += buf; }
      else *out += c;
    }
    *out += '"';
  }
  static JV parse(const char*& p) {
    ws(p); JV v;
    if (*p == '{') { ++p; v.k = OBJ; ws(p); if (*p == '}') { ++p; return v; }
      for (;;) { ws(p); JV key = parse(p); ws(p); ++p; JV val = parse(p); v.o.push_back(std::make_pair(key.s, val)); ws(p); if (*p++ == '}') return v; } }
    if (*p == '[') { ++p; v.k = ARR; ws(p); if (*p == ']') { ++p; return v; }
      for (;;) { v.a.push_back(parse(p)); ws(p); if (*p++ == ']') return v; } }
    if (*p == '"') { ++p; v.k = STR;
      while (*p && *p != '"') {
        if (*p == '\\') { ++p; char c = *p++;
          if (c == 'u') { unsigned u = (unsigned)strtoul(std::string(p, 4).c_str(), 0, 16); p += 4; v.s += (char)(u & 0xff); }
          else if (c == 'n') v.s += '\n'; else if (c == 't') v.s += '\t'; else if (c == 'r') v.s += '\r';
          else if (c == 'b') v.s += '\b'; else if (c == 'f') v.s += '\f'; else v.s += c;
        } else v.s += *p++; }
      ++p; return v; }
    if (*p == 't') { p += 4; return JV(true); }
    if (*p == 'f') { p += 5; return JV(false); }
    if (*p == 'n') { p += 4; return v; }
    char* e; v.k = INT; v.i = strtol(p, &e, 10); p = e; return v;
  }
  static void ws(const char*& p) { while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') ++p; }
};
#endif
