// Driver for text and attribute values: set through the API or parsed.
#include "drv.h"
#include <map>
#include "kml/dom.h"
#include "kml/engine.h"
#include "kml/base/attributes.h"
using std::string; using namespace kmldom;
namespace {
struct Target { ElementPtr (*make)(const string&); string (*get)(const ElementPtr&); };
std::map<string, Target>& Targets() {
  static std::map<string, Target> t;
  if (!t.empty()) return t;
  KmlFactory* F = KmlFactory::GetFactory(); (void)F;
#define TG(key, Cls, setter, getter) \
  { Target x; x.make = [](const string& s) -> ElementPtr { Cls##Ptr e = KmlFactory::GetFactory()->Create##Cls(); e->setter(s); return e; }; \
    x.get = [](const ElementPtr& e) -> string { Cls##Ptr c = As##Cls(e); return c ? c->getter : string("!type"); }; t[key] = x; }
  TG("Placemark/name", Placemark, set_name, get_name())
  TG("Placemark/description", Placemark, set_description, get_description())
  TG("Placemark/address", Placemark, set_address, get_address())
  TG("Placemark/phoneNumber", Placemark, set_phonenumber, get_phonenumber())
  TG("Placemark/styleUrl", Placemark, set_styleurl, get_styleurl())
  TG("Placemark@id", Placemark, set_id, get_id())
  TG("Placemark@targetId", Placemark, set_targetid, get_targetid())
  TG("Document@id", Document, set_id, get_id())
  TG("Folder/name", Folder, set_name, get_name())
  TG("Style@id", Style, set_id, get_id())
  TG("Snippet", Snippet, set_text, get_text())
  TG("linkSnippet", LinkSnippet, set_text, get_text())
  TG("SimpleData", SimpleData, set_text, get_text())
  TG("SimpleData@name", SimpleData, set_name, get_name())
  TG("gx:SimpleArrayData@name", GxSimpleArrayData, set_name, get_name())
  TG("gx:SimpleArrayData/gx:value", GxSimpleArrayData, add_gx_value, get_gx_value_array_at(0))
  TG("Data/value", Data, set_value, get_value())
  TG("Data/displayName", Data, set_displayname, get_displayname())
  TG("Data@name", Data, set_name, get_name())
  TG("SchemaData@schemaUrl", SchemaData, set_schemaurl, get_schemaurl())
  TG("Schema@name", Schema, set_name, get_name())
  TG("Schema@id", Schema, set_id, get_id())
  TG("SimpleField@name", SimpleField, set_name, get_name())
  TG("SimpleField@type", SimpleField, set_type, get_type())
  TG("SimpleField/displayName", SimpleField, set_displayname, get_displayname())
  TG("Link/href", Link, set_href, get_href())
  TG("Link/viewFormat", Link, set_viewformat, get_viewformat())
  TG("Link/httpQuery", Link, set_httpquery, get_httpquery())
  TG("Icon/href", Icon, set_href, get_href())
  TG("ItemIcon/href", ItemIcon, set_href, get_href())
  TG("BalloonStyle/text", BalloonStyle, set_text, get_text())
  TG("Pair/styleUrl", Pair, set_styleurl, get_styleurl())
  TG("Alias/targetHref", Alias, set_targethref, get_targethref())
  TG("Alias/sourceHref", Alias, set_sourcehref, get_sourcehref())
  TG("TimeStamp/when", TimeStamp, set_when, get_when())
  TG("TimeSpan/begin", TimeSpan, set_begin, get_begin())
  TG("TimeSpan/end", TimeSpan, set_end, get_end())
  TG("gx:Track/when", GxTrack, add_when, get_when_array_at(0))
  TG("gx:SoundCue/href", GxSoundCue, set_href, get_href())
  TG("kml@hint", Kml, set_hint, get_hint())
  TG("NetworkLinkControl/cookie", NetworkLinkControl, set_cookie, get_cookie())
  TG("NetworkLinkControl/message", NetworkLinkControl, set_message, get_message())
  TG("NetworkLinkControl/linkName", NetworkLinkControl, set_linkname, get_linkname())
  TG("NetworkLinkControl/linkDescription", NetworkLinkControl, set_linkdescription, get_linkdescription())
  TG("NetworkLinkControl/expires", NetworkLinkControl, set_expires, get_expires())
  TG("Update/targetHref", Update, set_targethref, get_targethref())
  TG("atom:author/atom:name", AtomAuthor, set_name, get_name())
  TG("atom:author/atom:uri", AtomAuthor, set_uri, get_uri())
  TG("atom:author/atom:email", AtomAuthor, set_email, get_email())
  TG("atom:link@href", AtomLink, set_href, get_href())
  TG("atom:link@rel", AtomLink, set_rel, get_rel())
  TG("atom:link@type", AtomLink, set_type, get_type())
  TG("atom:link@hreflang", AtomLink, set_hreflang, get_hreflang())
  TG("atom:link@title", AtomLink, set_title, get_title())
  TG("atom:category@term", AtomCategory, set_term, get_term())
  TG("atom:category@scheme", AtomCategory, set_scheme, get_scheme())
  TG("atom:category@label", AtomCategory, set_label, get_label())
  TG("atom:content@src", AtomContent, set_src, get_src())
  TG("atom:content@type", AtomContent, set_type, get_type())
  TG("atom:entry/atom:id", AtomEntry, set_id, get_id())
  TG("atom:entry/atom:title", AtomEntry, set_title, get_title())
  TG("atom:entry/atom:summary", AtomEntry, set_summary, get_summary())
  TG("atom:feed/atom:title", AtomFeed, set_title, get_title())
  TG("atom:feed/atom:updated", AtomFeed, set_updated, get_updated())
  TG("xal:Country/xal:CountryNameCode", XalCountry, set_countrynamecode, get_countrynamecode())
  TG("xal:AdministrativeArea/xal:AdministrativeAreaName", XalAdministrativeArea, set_administrativeareaname, get_administrativeareaname())
  TG("xal:SubAdministrativeArea/xal:SubAdministrativeAreaName", XalSubAdministrativeArea, set_subadministrativeareaname, get_subadministrativeareaname())
  TG("xal:Locality/xal:LocalityName", XalLocality, set_localityname, get_localityname())
  TG("xal:Thoroughfare/xal:ThoroughfareName", XalThoroughfare, set_thoroughfarename, get_thoroughfarename())
  TG("xal:Thoroughfare/xal:ThoroughfareNumber", XalThoroughfare, set_thoroughfarenumber, get_thoroughfarenumber())
  TG("xal:PostalCode/xal:PostalCodeNumber", XalPostalCode, set_postalcodenumber, get_postalcodenumber())
  return t;
}
string Key(const JV& e) {
  string k = e["ty"].s; if (!e["fld"].s.empty()) k += "/" + e["fld"].s; if (!e["at"].s.empty()) k += "@" + e["at"].s; return k;
}
}
DRIVER(texttargets) {
  JV r = JV::Obj(), a = JV::Arr();
  for (std::map<string, Target>::iterator i = Targets().begin(); i != Targets().end(); ++i) a.push(i->first);
  r.set("targets", a); return r;
}
// {"ev":[{"s":..,"ty":..,"fld":..,"at":..,"x": xml or ""}]}: x empty: set through the API.
DRIVER(text) {
  JV r = JV::Obj(), out = JV::Arr();
  for (size_t i = 0; i < in["ev"].size(); ++i) {
    const JV& e = in["ev"].at(i); JV o = e; o.o.clear();
    o.set("s", e["s"]); o.set("ty", e["ty"]); o.set("fld", e["fld"]); o.set("at", e["at"]);
    string key = Key(e); bool known = Targets().count(key) != 0;
    ElementPtr el; bool api = e["x"].s.empty();
    if (api) el = Targets()[key].make(e["s"].s); else el = Parse(e["x"].s, NULL);
    o.set("api", api); o.set("ok", (bool)el);
    string raw = el ? SerializeRaw(el) : "", pretty = el ? SerializePretty(el) : "";
    o.set("raw", XmlTree(raw)); o.set("pretty", XmlTree(pretty));
    ElementPtr b1 = Parse(raw, NULL), b2 = Parse(pretty, NULL);
    // what the getter says: of the element itself, and after reading back
    string g0 = known && el ? Targets()[key].get(el) : e["s"].s;
    string g1 = known ? (b1 ? Targets()[key].get(b1) : "!unparsable") : e["s"].s;
    string g2 = known ? (b2 ? Targets()[key].get(b2) : "!unparsable") : e["s"].s;
    o.set("get", g0); o.set("back", g1); o.set("backp", g2);
    out.push(o);
  }
  r.set("ev", out); return r;
}
