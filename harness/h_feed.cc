// Driver for GPX track points, Atom feeds, the HTTP client and namespace-aware parsing.
#include "drv.h"
#include <cstdio>
#include <cstring>
#include <map>
#include "boost/scoped_ptr.hpp"
#include "kml/base/expat_parser.h"
#include "kml/convenience/atom_util.h"
#include "kml/convenience/google_doc_list.h"
#include "kml/convenience/google_maps_data.h"
#include "kml/convenience/google_picasa_web.h"
#include "kml/convenience/google_spreadsheets.h"
#include "kml/convenience/gpx_trk_pt_handler.h"
#include "kml/convenience/http_client.h"
#include "kml/dom.h"
#include "kml/engine.h"
using std::string; using namespace kmldom; using namespace kmlconvenience;
namespace {
string Dbl(double d) { char b[64]; FmtD(b, 64, "%.15g", d); return b; }
JV Tree(const ElementPtr& e) { return XmlTree(e ? SerializeRaw(e) : "<none/>"); }
struct Gpx : public GpxTrkPtHandler {
  JV out; Gpx() : out(JV::Arr()) {}
  virtual void HandlePoint(const kmlbase::Vec3& v, const string& when) {
    out.push(JV::Arr().push(Dbl(v.get_longitude())).push(Dbl(v.get_latitude())).push(v.has_altitude() ? Dbl(v.get_altitude()) : "-").push(when));
  }
};
struct Log { JV req; std::map<string, std::vector<std::pair<bool, string> > > web; Log() : req(JV::Arr()) {} };
struct Client : public HttpClient {
  Log* log; Client(const string& app, Log* l) : HttpClient(app), log(l) {}
  virtual bool SendRequest(HttpMethodEnum m, const string& uri, const StringPairVector* h, const string* data, string* response) const {
    JV hs = JV::Arr(), all = JV::Arr(); for (size_t i = 0; h && i < h->size(); ++i) hs.push(JV::Arr().push((*h)[i].first).push((*h)[i].second));
    for (size_t i = 0; i < get_headers().size(); ++i) all.push(JV::Arr().push(get_headers()[i].first).push(get_headers()[i].second));
    JV r = JV::Obj(); r.set("m", (int)m); r.set("uri", uri); r.set("h", hs); r.set("all", all); r.set("d", data ? *data : "-"); r.set("x", data && data->compare(0, 5, "<?xml") == 0 ? XmlTree(*data) : XmlTree("<none/>")); log->req.push(r);
    std::map<string, std::vector<std::pair<bool, string> > >::iterator i = log->web.find(uri); if (i == log->web.end() || i->second.empty()) return false;
    std::pair<bool, string> a = i->second.front(); if (response) response->append(a.second); return a.first;
  }
};
}
// {"x":gpx}
DRIVER(gpx) {
  JV r = JV::Obj(); Gpx g; string err; string x = in["x"].s; bool ok; size_t n = in["piece"].num() > 0 ? (size_t)in["piece"].num() : 0;
  if (!n) ok = kmlbase::ExpatParser::ParseString(x, &g, &err, false);
  else { kmlbase::ExpatParser p(&g, false); ok = true; size_t i = 0; do { size_t m = std::min(n, x.size() - i); ok = p.ParseBuffer(x.substr(i, m), &err, i + m >= x.size()); i += m; } while (ok && i < x.size()); }
  r.set("ok", ok); r.set("doc", XmlTree(x)); r.set("out", g.out); return r;
}
// {"x":atom feed,"ops":[..]}
DRIVER(feed) {
  JV r = JV::Obj(), ev = JV::Arr(); string err; AtomFeedPtr feed = AsAtomFeed(ParseAtom(in["x"].s, &err)); if (!feed) { r.set("ev", JV::Arr().push(JV::Obj().set("op", JV::Arr().push("none")).set("same", true).set("tree", XmlTree("<none/>")))); r.set("err", err); return r; }
  std::vector<ElementPtr> kept;
  for (size_t k = 0; k < in["ops"].size(); ++k) {
    const JV& o = in["ops"].at(k); string op = o.at(0).s, v = "-"; bool ok = false; int n = 0; JV tree = Tree(NULL), tree2 = tree; string before = SerializeRaw(feed);
    AtomEntryPtr en; const AtomCommon* at = feed.get(); bool all = op == "features" || op == "mapkml" || op == "title";
    if (!all && o.at(1).num() > 0) { en = feed->get_entry_array_at(o.at(1).num() - 1); at = en.get(); }
    if (op == "features") { DocumentPtr d = KmlFactory::GetFactory()->CreateDocument(); AtomUtil::GetFeedFeatures(feed, d); n = (int)d->get_feature_array_size(); tree = Tree(d); for (int i = 0; i < n; ++i) d->get_feature_array_at(i)->set_name("changed"); kept.push_back(d); }
    else if (op == "mapkml") { FolderPtr d = KmlFactory::GetFactory()->CreateFolder(); n = GoogleMapsData::GetMapKml(feed, d); tree = Tree(d); for (size_t i = 0; i < d->get_feature_array_size(); ++i) d->get_feature_array_at(i)->set_name("changed"); ok = GoogleMapsData::GetMapKml(NULL, d) == -1 && GoogleMapsData::GetMapKml(feed, NULL) == -1; AtomUtil::GetFeedFeatures(NULL, d); AtomUtil::GetFeedFeatures(feed, NULL); kept.push_back(d); }
    else if (op == "rel") { ok = AtomUtil::FindRelUrl(*at, o.at(2).s, &v); if (AtomUtil::FindRelUrl(*at, o.at(2).s, NULL) != ok) v = "null"; }
    else if (op == "link") { AtomLinkPtr l = AtomUtil::FindLink(*at, o.at(2).s, o.at(3).s); ok = l.get() != NULL; if (l) v = l->has_href() ? l->get_href() : "(none)"; }
    else if (op == "cat") { AtomCategoryPtr c = AtomUtil::FindCategoryByScheme(*at, o.at(2).s); ok = c.get() != NULL; if (c) v = c->get_term(); }
    else if (op == "title") { AtomEntryPtr e = AtomUtil::FindEntryByTitle(feed, o.at(1).s); ok = e.get() != NULL; for (size_t i = 0; e && i < feed->get_entry_array_size(); ++i) if (feed->get_entry_array_at(i) == e) n = (int)i + 1; }
    else if (op == "src") { ok = AtomUtil::GetContentSrc(en, &v); string w = "-"; if (AtomUtil::GetContentSrc(en, NULL) != ok || GoogleMapsData::GetFeatureFeedUri(en, &w) != ok || w != v) v = "differs"; }
    else if (op == "search") { ok = GoogleMapsData::GetSearchFeedUri(en, &v); if (GoogleMapsData::GetSearchFeedUri(en, NULL) != ok) v = "null"; }
    else if (op == "kmluri") { ok = GoogleMapsData::GetKmlUri(en, &v); if (GoogleMapsData::GetKmlUri(en, NULL) != ok) v = "null"; }
    else if (op == "res") { ok = AtomUtil::GetGdResourceId(en, &v); if (AtomUtil::GetGdResourceId(en, NULL) != ok) v = "null"; }
    else if (op == "feature") { FeaturePtr f = AtomUtil::GetEntryFeature(en), g = GoogleMapsData::GetEntryFeature(en); ok = f.get() != NULL; if (f != g) v = "differs"; tree = Tree(f); }
    else if (op == "clone") { FeaturePtr f = AtomUtil::CloneEntryFeature(en); ok = f.get() != NULL; tree = Tree(f); if (f) { f->set_name("changed"); FolderPtr d = KmlFactory::GetFactory()->CreateFolder(); d->add_feature(f); n = (int)d->get_feature_array_size(); kept.push_back(d); } }
    else if (op == "entry") { FeaturePtr f = AsFeature(Parse(o.at(2).s, NULL)); AtomEntryPtr e = AtomUtil::CreateEntryForFeature(f); ok = e.get() != NULL; tree = Tree(e); if (AtomUtil::GetEntryFeature(e) != f) v = "differs"; tree2 = XmlTree(o.at(2).s); }
    else if (op == "basic") { tree = Tree(AtomUtil::CreateBasicEntry(o.at(2).s, o.at(3).s)); tree2 = Tree(AtomUtil::CreateBasicLink(o.at(2).s, o.at(3).s, o.at(4).s)); }
    JV e = JV::Obj(); e.set("op", o); e.set("ok", ok); e.set("v", v); e.set("n", n); e.set("tree", tree); e.set("tree2", tree2); e.set("same", SerializeRaw(feed) == before); ev.push(e);
  }
  r.set("ev", ev); JV ks = JV::Arr(); for (size_t i = 0; i < in["kml"].size(); ++i) ks.push(XmlTree(in["kml"].at(i).s)); r.set("kml", ks); return r;
}
// {"app":..,"web":[[uri,ok,body]..],"ops":[..]}: a client and the four services over a scripted network
DRIVER(gdata) {
  JV r = JV::Obj(), ev = JV::Arr(); string svc = in["svc"].s; Log log; for (size_t i = 0; i < in["web"].size(); ++i) log.web[in["web"].at(i).at(0).s].push_back(std::make_pair(in["web"].at(i).at(1).truth(), in["web"].at(i).at(2).s));
  Client* c = new Client(in["app"].s, &log);
  boost::scoped_ptr<GoogleMapsData> maps; boost::scoped_ptr<GoogleDocList> docs; boost::scoped_ptr<GooglePicasaWeb> pic; boost::scoped_ptr<GoogleSpreadsheets> sheets; boost::scoped_ptr<Client> own;
  if (svc == "maps") maps.reset(GoogleMapsData::Create(c)); else if (svc == "docs") docs.reset(GoogleDocList::Create(c)); else if (svc == "pic") pic.reset(GooglePicasaWeb::Create(c)); else if (svc == "sheets") sheets.reset(GoogleSpreadsheets::Create(c)); else own.reset(c);
  if (GoogleMapsData::Create(NULL) || GoogleDocList::Create(NULL) || GooglePicasaWeb::Create(NULL) || GoogleSpreadsheets::Create(NULL)) return r;
  for (size_t k = 0; k < in["ops"].size(); ++k) {
    const JV& o = in["ops"].at(k); string op = o.at(0).s, v = ""; bool ok = false; int n = 0; JV tree = Tree(NULL), tree2 = tree; log.req = JV::Arr();
    if (op == "add") c->AddHeader(o.at(1).s, o.at(2).s);
    else if (op == "login") { ok = c->Login(o.at(1).s, o.at(2).s, o.at(3).s); v = c->get_auth_token(); }
    else if (op == "fetch") { ok = c->FetchUrl(o.at(1).s, &v); }
    else if (op == "echo") { HttpClient h(o.at(1).s); StringPairVector extra, more; for (size_t i = 0; i < o.at(3).size(); ++i) { if (i % 2) h.AddHeader(o.at(3).at(i).at(0).s, o.at(3).at(i).at(1).s); else HttpClient::PushHeader(o.at(3).at(i).at(0).s, o.at(3).at(i).at(1).s, &extra); } HttpClient::PushHeader("a", "b", NULL); HttpClient::AppendHeaders(extra, NULL); HttpClient::AppendHeaders(extra, &more); if (more != extra) v = "append "; ok = h.SendRequest((HttpMethodEnum)o.at(2).num(), "http://h/x", &more, NULL, &v) && h.SendRequest(HTTP_GET, "", NULL, NULL, NULL); string f = "-"; n = HttpClient::FindHeader("A", extra, &f); if ((HttpClient::FindHeader("A", extra, NULL) ? 1 : 0) != n) f = "null"; v += "|" + f; }
    else if (op == "meta") { AtomFeedPtr f = maps ? maps->GetMetaFeed() : docs ? docs->GetMetaFeed() : pic ? pic->GetMetaFeed() : sheets->GetMetaFeed(); ok = f.get() != NULL; tree = Tree(f); n = f ? (int)f->get_entry_array_size() : -1; }
    else if (op == "metaxml") ok = maps ? maps->GetMetaFeedXml(&v) : docs ? docs->GetMetaFeedXml(&v) : pic ? pic->GetMetaFeedXml(&v) : sheets->GetMetaFeedXml(&v);
    else if (op == "feed") { AtomFeedPtr f = AtomUtil::GetAndParseFeed(o.at(1).s, *c); ok = f.get() != NULL; tree = Tree(f); n = f ? (int)f->get_entry_array_size() : -1; }
    else if (op == "next") { AtomFeedPtr f = AtomUtil::GetAndParseFeed(o.at(1).s, *c); n = 0; while (f && n < 20) { ++n; f = AtomUtil::GetNextFeed(f, *c); } }
    else if (op == "doc") { AtomFeedPtr f = maps->GetFeatureFeedByUri(o.at(1).s); DocumentPtr d = maps->CreateDocumentOfMapFeatures(f); ok = d.get() != NULL; tree = Tree(d); n = d ? (int)d->get_feature_array_size() : -1; }
    else if (op == "createmap") ok = maps->CreateMap(o.at(1).s, o.at(2).s, &v);
    else if (op == "addfeature") { FeaturePtr f = AsFeature(Parse(o.at(2).s, NULL)); string b = SerializeRaw(f); ok = maps->AddFeature(o.at(1).s, f, &v); if (SerializeRaw(f) != b) v = "changed"; tree2 = XmlTree(o.at(2).s); }
    else if (op == "post") { FeaturePtr f = AsFeature(Parse(o.at(2).s, NULL)); string b = SerializeRaw(f); n = maps->PostPlacemarks(f, o.at(1).s); if (SerializeRaw(f) != b) v = "changed"; tree2 = XmlTree(o.at(2).s); }
    else if (op == "csv") { AtomEntryPtr e = maps->PostCsv(o.at(1).s, o.at(2).s, &v); ok = e.get() != NULL; tree = Tree(e); }
    else if (op == "kml") { AtomEntryPtr e = maps->PostKml(o.at(1).s, o.at(2).s); ok = e.get() != NULL; tree = Tree(e); }
    else if (op == "box") { AtomEntryPtr e = AsAtomEntry(ParseAtom(o.at(1).s, NULL)); AtomFeedPtr f = maps->SearchMapByBbox(e, kmlengine::Bbox(StrToD(o.at(2).at(0).s.c_str(), 0), StrToD(o.at(2).at(1).s.c_str(), 0), StrToD(o.at(2).at(2).s.c_str(), 0), StrToD(o.at(2).at(3).s.c_str(), 0))); ok = f.get() != NULL; tree = Tree(f); n = f ? (int)f->get_entry_array_size() : -1; }
    else if (op == "upload") ok = docs->UploadSpreadsheet(o.at(1).s, o.at(2).s, &v);
    else if (op == "download") { AtomEntryPtr e = AsAtomEntry(ParseAtom(o.at(1).s, NULL)); ok = sheets->DownloadSpreadsheet(e, o.at(2).s, &v); }
    JV e = JV::Obj(); e.set("op", o); e.set("ok", ok); e.set("v", v); e.set("n", n); e.set("tree", tree); e.set("tree2", tree2); e.set("req", log.req); ev.push(e);
  }
  r.set("ev", ev); JV ks = JV::Arr(); for (size_t i = 0; i < in["kmlx"].size(); ++i) ks.push(XmlTree(in["kmlx"].at(i).s)); r.set("kml", ks); return r;
}
// {"plain":..,"x":..,"how":"ns"|"atom"}: the same document with and without prefixes
DRIVER(nsparse) {
  JV r = JV::Obj(); string err; ElementPtr e = in["how"].s == "ns" ? ParseNS(in["x"].s, &err) : ParseAtom(in["x"].s, &err);
  r.set("in", XmlTree(in["plain"].s)); r.set("ok", (bool)e); r.set("err", !err.empty()); r.set("raw", Tree(e)); return r;
}
