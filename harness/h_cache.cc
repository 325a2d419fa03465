// Drivers for the caches.
#include "drv.h"
#include "net.h"
#include "kml/base/referent.h"
using std::string;
namespace {
struct Item : public kmlbase::Referent {
  static int made, live; int n;
  static Item* CreateFromString(const string& d) { return d == "bad" ? NULL : new Item; }
  Item() : n(++made) { ++live; }
  ~Item() { --live; }
};
int Item::made, Item::live;
}
// {"cap":n,"urls":[..],"ops":[{"k","u","v"}..]}
DRIVER(netcache) {
  Item::made = Item::live = 0; ScriptedNet net; const JV& us = in["urls"];
  for (size_t i = 0; i < us.size(); ++i) net.web[us.at(i).s] = "ok";
  JV ev = JV::Arr();
  { kmlbase::NetCache<Item> c(&net, (size_t)in["cap"].num());
    for (size_t i = 0; i < in["ops"].size(); ++i) {
      const JV& o = in["ops"].at(i); string k = o["k"].s, u = o["u"].s; int ret = 0; net.log.clear();
      if (k == "lookup") { boost::intrusive_ptr<Item> p = c.LookUp(u); ret = p ? p->n : 0; }
      else if (k == "fetch") { boost::intrusive_ptr<Item> p = c.Fetch(u); ret = p ? p->n : 0; }
      else if (k == "save") { boost::intrusive_ptr<Item> p(new Item); ret = c.Save(u, p); }
      else if (k == "delete") ret = c.Delete(u);
      else if (k == "oldest") ret = c.RemoveOldest();
      else { net.down.erase(u); net.web[u] = o["v"].s; if (o["v"].s == "down") net.down.insert(u); }
      JV e = JV::Obj(); e.set("o", o); e.set("ret", ret); JV a = JV::Arr(); for (size_t j = 0; j < net.log.size(); ++j) a.push(net.log[j]);
      e.set("asked", a); e.set("size", (int)c.Size()); JV h = JV::Arr(); int n = 0;
      for (size_t j = 0; j < us.size(); ++j) { boost::intrusive_ptr<Item> p = c.LookUp(us.at(j).s); h.push(p ? p->n : 0); n += p ? 1 : 0; }
      e.set("have", h); e.set("live", Item::live == n); ev.push(e);
    }
  }
  JV r = JV::Obj(); r.set("ev", ev); r.set("freed", Item::live == 0); return r;
}
// {"cap":n,"web":[[url,bytes]..],"ops":[{"k":"kml|data","b","t"} or {"k":"net","u","bytes"} or {"k":"down","u"}]}
#include "kml/engine/kml_cache.h"
#include "kml/engine/kml_file.h"
#include "kml/engine/link_util.h"
namespace {
// every getter of hrefs gives the same answer for a parent and for the link itself
bool HrefsAgree(bool has, const string& t, int shape) {
  kmldom::KmlFactory* k = kmldom::KmlFactory::GetFactory(); bool good = true;
  // shape 0: no child, 1: a child without href, 2: a child with an href
  kmldom::LinkPtr l = k->CreateLink(); kmldom::IconPtr ic = k->CreateIcon(); kmldom::IconStyleIconPtr si = k->CreateIconStyleIcon(); kmldom::ItemIconPtr ii = k->CreateItemIcon();
  if (has) { l->set_href(t); ic->set_href(t); si->set_href(t); ii->set_href(t); }
  kmldom::NetworkLinkPtr nl = k->CreateNetworkLink(); kmldom::ModelPtr mo = k->CreateModel(); kmldom::GroundOverlayPtr go = k->CreateGroundOverlay(); kmldom::ScreenOverlayPtr so = k->CreateScreenOverlay(); kmldom::PhotoOverlayPtr po = k->CreatePhotoOverlay(); kmldom::IconStylePtr is = k->CreateIconStyle();
  if (shape) { nl->set_link(l); mo->set_link(k->CreateLink()); if (has) mo->get_link()->set_href(t); go->set_icon(ic); kmldom::IconPtr i2 = k->CreateIcon(), i3 = k->CreateIcon(); if (has) { i2->set_href(t); i3->set_href(t); } so->set_icon(i2); po->set_icon(i3); is->set_icon(si); }
  bool want = shape && has;
#define AG(call, w) { string h = "old"; bool b = kmlengine::call; if (b != (w) || h != ((w) ? t : "old")) good = false; }
  AG(GetHref(l, &h), has) AG(GetHref(ic, &h), has) AG(GetHref(si, &h), has) AG(GetHref(ii, &h), has)
  AG(GetLinkParentHref(nl, &h), want) AG(GetLinkParentHref(mo, &h), want) AG(GetIconParentHref(go, &h), want) AG(GetIconParentHref(so, &h), want) AG(GetIconParentHref(po, &h), want) AG(GetIconParentHref(is, &h), want)
  AG(GetHref(kmldom::LinkPtr(), &h), false)
#undef AG
  if (kmlengine::GetHref(l, NULL) || kmlengine::GetLinkParentHref(nl, NULL)) good = false;
  return good;
}
}
DRIVER(kmlcache) {
  ScriptedNet net; JV ev = JV::Arr();
  for (size_t i = 0; i < in["web"].size(); ++i) net.web[in["web"].at(i).at(0).s] = in["web"].at(i).at(1).s;
  { kmlengine::KmlCache c(&net, (size_t)in["cap"].num()); std::vector<kmlengine::KmlFilePtr> files;
    for (size_t i = 0; i < in["ops"].size(); ++i) {
      const JV& o = in["ops"].at(i); string k = o["k"].s; net.log.clear(); JV e = JV::Obj();
      if (k == "net") net.web[o["u"].s] = o["bytes"].s;
      else if (k == "down") net.web.erase(o["u"].s);
      else if (k == "kml" || k == "link") {
        kmlengine::KmlFilePtr f;
        if (k == "link") {   // a network link of one of the files made so far, or of a file that no cache made
          kmldom::NetworkLinkPtr nl = kmldom::KmlFactory::GetFactory()->CreateNetworkLink(); kmldom::LinkPtr l = kmldom::KmlFactory::GetFactory()->CreateLink();
          if (o["shape"].num() == 2) l->set_href(o["t"].s); if (o["shape"].num()) nl->set_link(l);
          kmlengine::KmlFilePtr none = kmlengine::KmlFile::CreateFromImport(kmldom::KmlFactory::GetFactory()->CreatePlacemark());
          f = kmlengine::FetchLink(files.empty() ? none : files[(o["f"].num() - 1) % files.size()], nl); e.set("hrefs", HrefsAgree(o["shape"].num() == 2, o["t"].s, (int)o["shape"].num()));
        } else f = o["b"].s == o["t"].s ? c.FetchKmlAbsolute(o["t"].s) : c.FetchKmlRelative(o["b"].s, o["t"].s); int n = 0;
        if (f) { for (size_t j = 0; j < files.size(); ++j) if (files[j] == f) n = (int)j + 1; if (!n) { files.push_back(f); n = (int)files.size(); } }
        e.set("file", n); e.set("url", f ? f->get_url() : ""); e.set("cache", !f || f->get_kml_cache() == &c);
        string x; if (f) { kmldom::ObjectPtr ob = kmldom::AsObject(f->get_root()); x = ob ? "<Placemark id='" + ob->get_id() + "'/>" : "?"; }
        e.set("c", x);
      } else if (k == "icon") {
        kmldom::KmlFactory* kf = kmldom::KmlFactory::GetFactory(); kmldom::OverlayPtr ov; if (o["f"].num() % 2) ov = kf->CreateGroundOverlay(); else ov = kf->CreateScreenOverlay();
        kmldom::IconPtr l = kf->CreateIcon(); if (o["shape"].num() == 2) l->set_href(o["t"].s); if (o["shape"].num()) ov->set_icon(l);
        kmlengine::KmlFilePtr none = kmlengine::KmlFile::CreateFromImport(kf->CreatePlacemark());
        string d; bool ok = kmlengine::FetchIcon(files.empty() ? none : files[(o["f"].num() - 1) % files.size()], ov, &d); e.set("ok", ok); e.set("data", ok ? d : ""); e.set("hrefs", HrefsAgree(o["shape"].num() == 2, o["t"].s, (int)o["shape"].num()));
      } else { string d; bool ok = c.FetchDataRelative(o["b"].s, o["t"].s, &d); e.set("ok", ok); e.set("data", ok ? d : ""); }
      JV a = JV::Arr(); for (size_t j = 0; j < net.log.size(); ++j) a.push(net.log[j]);
      e.set("asked", a); ev.push(e);
    }
  }
  JV r = JV::Obj(); r.set("ev", ev); return r;
}
