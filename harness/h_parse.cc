// Drivers for parser outcome, observer callbacks and incremental parsing.
#include "drv.h"
#include <istream>
#include <cstring>
#include <map>
#include <streambuf>
#include "kml/dom.h"
#include "kml/engine.h"
#include "kml/dom/parser.h"
#include "kml/dom/parser_observer.h"
#include "kml/dom/kml_handler.h"
#include "kml/base/expat_parser.h"
#include "kml/engine/kml_stream.h"
using std::string; using namespace kmldom;
namespace {
struct Log { JV ev; std::map<const void*, int> idx; std::vector<ElementPtr> hold; int n; Log() : ev(JV::Arr()), n(0) {} };
class Obs : public ParserObserver {
 public:
  Obs(int o, Log* log, const JV* plan) : o_(o), log_(log), plan_(plan) {}
  virtual bool NewElement(const ElementPtr& e) {
    if (!log_->idx.count(e.get())) { log_->idx[e.get()] = ++log_->n; log_->hold.push_back(e); }
    return Say("new", e, ElementPtr());
  }
  virtual bool EndElement(const ElementPtr& p, const ElementPtr& c) { return Say("end", c, p); }
  virtual bool AddChild(const ElementPtr& p, const ElementPtr& c) { return Say("add", c, p); }
 private:
  int At(const ElementPtr& e) { if (!e) return 0; std::map<const void*, int>::iterator i = log_->idx.find(e.get()); return i == log_->idx.end() ? -1 : i->second; }
  bool Say(const char* k, const ElementPtr& c, const ElementPtr& p) {
    int i = At(c);
    log_->ev.push(JV::Obj().set("o", o_).set("k", k).set("i", i).set("p", At(p)));
    for (size_t j = 0; j < plan_->size(); ++j) {
      const JV& r = plan_->at(j);
      if (r["o"].num() == o_ && r["k"].s == k && r["i"].num() == i) return false;
    }
    return true;
  }
  int o_; Log* log_; const JV* plan_;
};
void Tell(JV* r, const ElementPtr& e, const string& err, const Log& log) {
  r->set("ok", (bool)e); r->set("err", !err.empty()); r->set("log", log.ev);
  r->set("raw", e ? XmlTree(SerializeRaw(e)) : XmlTree("<none/>"));
}
// A stream that hands out the input in pieces of the given sizes and then ends, or fails.
class PieceBuf : public std::streambuf {
 public:
  PieceBuf(const string& s, const JV& sizes, long fail_at, bool thrower) : s_(s), sizes_(sizes), pos_(0), k_(0), fail_(fail_at), throw_(thrower) {}
 protected:
  virtual int_type underflow() {
    size_t n = 1;
    if (sizes_.size()) { n = sizes_.at(k_ % sizes_.size()).num(); ++k_; if (!n) n = 1; }
    if (fail_ >= 0 && pos_ >= (size_t)fail_) { if (throw_) throw std::ios_base::failure("read failed"); return traits_type::eof(); }
    if (pos_ >= s_.size()) return traits_type::eof();
    if (pos_ + n > s_.size()) n = s_.size() - pos_;
    if (fail_ >= 0 && pos_ + n > (size_t)fail_) n = fail_ - pos_;
    char* b = const_cast<char*>(s_.data()) + pos_; pos_ += n; setg(b, b, b + n);
    return traits_type::to_int_type(*b);
  }
 private:
  string s_; JV sizes_; size_t pos_, k_; long fail_; bool throw_;
};
}
// {"x","plan","nobs"} through Parser::Parse with observers.
DRIVER(obs) {
  JV r = JV::Obj(); Log log; Parser parser; std::vector<Obs*> os;
  for (int i = 1; i <= in["nobs"].num(); ++i) { os.push_back(new Obs(i, &log, &in["plan"])); parser.AddObserver(os.back()); }
  string err; string* ep = in["noerr"].truth() ? NULL : &err; const string& m = in["mode"].s;
  ElementPtr e = m == "ns" ? parser.ParseNS(in["x"].s, ep) : m == "atom" ? parser.ParseAtom(in["x"].s, ep) : parser.Parse(in["x"].s, ep);
  Tell(&r, e, in["noerr"].truth() && !e ? "unasked" : err, log);
  for (size_t i = 0; i < os.size(); ++i) delete os[i];
  return r;
}
// The same through the incremental parser: {"mode":"buf"|"int"|"stream", "sizes":[..]}
// sizes: consecutive piece sizes, the last one repeats until the input is used up.
// final: whether the last piece is announced as final with its data (true) or by a final empty piece.
static JV OneWay(const JV& in) {
  JV r = JV::Obj(); Log log; const string& x = in["x"].s; string err; ElementPtr e;
  parser_observer_vector_t obs; std::vector<Obs*> os;
  for (int i = 1; i <= in["nobs"].num(); ++i) { os.push_back(new Obs(i, &log, &in["plan"])); obs.push_back(os.back()); }
  const string& mode = in["mode"].s; bool shown = false;
  if (mode == "stream") {
    long fail = in.has("fail") ? in["fail"].i : -1;
    PieceBuf buf(x, in["sizes"], fail, in["throws"].truth()); std::istream is(&buf);
    if (in["pre"].s == "eof") is.setstate(std::ios::eofbit); else if (in["pre"].s == "fail") is.setstate(std::ios::failbit);
    kmlengine::KmlStream* ks = kmlengine::KmlStream::ParseFromIstream(in["pre"].s == "null" ? NULL : &is, &err, os.empty() ? NULL : os[0]);
    shown = ks != NULL;
    if (ks) e = ks->get_root();
    if (in["pre"].s == "null") err = "x";
    Tell(&r, e, err, log); delete ks;
  } else {
    KmlHandler handler(obs); kmlbase::ExpatParser parser(&handler, false);
    size_t pos = 0, k = 0; bool ok = true, done = false;
    while (ok && !done) {
      size_t n = in["sizes"].size() ? in["sizes"].at(k < in["sizes"].size() ? k : in["sizes"].size() - 1).num() : x.size(); ++k;
      if (n > x.size() - pos) n = x.size() - pos;
      if (k > 100000) break;
      bool last = pos + n == x.size() && (in["final"].truth() || (k > 1 && n == 0 && pos == x.size()));
      if (n == 0 && pos < x.size() && k >= in["sizes"].size()) n = 1;
      if (mode == "buf") ok = parser.ParseBuffer(x.substr(pos, n), &err, last);
      else { void* b = parser.GetInternalBuffer(n ? n : 1); memcpy(b, x.data() + pos, n); ok = parser.ParseInternalBuffer(n, &err, last); }
      pos += n; done = last;
    }
    if (ok && done) e = handler.PopRoot();
    shown = ok && done;
    Tell(&r, e, err, log);
  }
  r.set("shown", shown);
  for (size_t i = 0; i < os.size(); ++i) delete os[i];
  return r;
}

// {"x","plan","ways":[{...}]}: the same document fed in several ways.
DRIVER(pieces) {
  JV r = JV::Obj(), out = JV::Arr();
  for (size_t i = 0; i < in["ways"].size(); ++i) {
    JV w = in["ways"].at(i); w.set("x", in["x"]); w.set("plan", in["plan"]);
    JV o = OneWay(w); o.set("how", w["how"]); o.set("fault", w["fault"].truth()); o.set("nobs", w["nobs"].num());
    out.push(o);
  }
  r.set("ev", out); return r;
}
