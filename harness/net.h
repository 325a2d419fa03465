// A scripted network: a table of URLs, with a count and a log of requests.
#ifndef VERIF_NET_H_
#define VERIF_NET_H_
#include <map>
#include <set>
#include <string>
#include <vector>
#include "kml/base/net_cache.h"
class ScriptedNet : public kmlbase::NetFetcher {
 public:
  virtual bool FetchUrl(const std::string& url, std::string* data) const {
    log.push_back(url);
    if (down.count(url)) return false;
    std::map<std::string, std::string>::const_iterator i = web.find(url.substr(0, url.find('#')));  // a fragment is the reader's business
    if (i == web.end()) return false;
    *data = i->second; return true;
  }
  std::map<std::string, std::string> web; std::set<std::string> down;
  mutable std::vector<std::string> log;
};
#endif
