// Driver for CSV data.
#include "drv.h"
#include "kml/dom.h"
#include "kml/base/csv_splitter.h"
#include "kml/base/string_util.h"
#include "kml/base/file.h"
#include "kml/base/tempfile.h"
#include "kml/convenience/csv_file.h"
#include "kml/convenience/csv_parser.h"
#include "kml/convenience/feature_list.h"
using std::string;
namespace {
JV Strings(const std::vector<string>& v) { JV r = JV::Arr(); for (size_t i = 0; i < v.size(); ++i) r.push(v[i]); return r; }
const char* kStatus[] = {"ok", "blank", "nolatlon", "badlatlon", "invalid", "comment"};
struct H : public kmlconvenience::CsvParserHandler {
  JV ev; int stop; H(int s) : ev(JV::Arr()), stop(s) {}
  virtual bool HandleLine(int line, kmlconvenience::CsvParserStatus st, kmldom::PlacemarkPtr p) {
    JV r = JV::Obj(); r.set("line", line); r.set("status", kStatus[st]); r.set("p", p ? XmlTree(kmldom::SerializeRaw(p)) : XmlTree("<none/>")); ev.push(r);
    return --stop != 0;
  }
};
}
// {"x":data,"stop":n}: records, and the events of the parser up to the n-th
DRIVER(csv) {
  JV r = JV::Obj(); string x = in["x"].s; JV recs = JV::Arr();
  { kmlbase::CsvSplitter s(x); std::vector<string> c; while (s.SplitCurrentLine(&c)) { recs.push(Strings(c)); c.clear(); } }
  r.set("recs", recs);
  { kmlbase::CsvSplitter s(x); H h(in["stop"].num()); r.set("ret", kmlconvenience::CsvParser::ParseCsv(&s, &h)); r.set("got", h.ev); }
  return r;
}
// {"x":text,"d":delimiter}
DRIVER(split) {
  JV r = JV::Obj(); string x = in["x"].s, d = in["d"].s; std::vector<string> a, b;
  kmlbase::SplitQuotedUsingFromString(x, d[0], &a); r.set("quoted", Strings(a));
  kmlbase::SplitStringUsing(x, d, &b); r.set("plain", Strings(b)); return r;
}
// {"lines":[..]}: the lines as a file, and one by one
DRIVER(csvfile) {
  JV r = JV::Obj(); string all; kmldom::FolderPtr a = kmldom::KmlFactory::GetFactory()->CreateFolder(), b = kmldom::KmlFactory::GetFactory()->CreateFolder();
  kmlconvenience::FeatureList la, lb; kmlconvenience::CsvFile fa(&la), fb(&lb);
  for (size_t i = 0; i < in["lines"].size(); ++i) { all += (i ? "\n" : "") + in["lines"].at(i).s; fb.ParseCsvLine(in["lines"].at(i).s); }
  if (in["nl"].truth()) all += "\n";
  kmlbase::TempFilePtr t = kmlbase::TempFile::CreateTempFile(); kmlbase::File::WriteStringToFile(all, t->name()); fa.ParseCsvFile(t->name().c_str());
  la.Save(a); lb.Save(b); r.set("old", XmlTree(kmldom::SerializeRaw(a))); r.set("one", XmlTree(kmldom::SerializeRaw(b))); return r;
}
