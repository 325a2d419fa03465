// The child slots of every element type, by the API.
#ifndef VERIF_TREE_H_
#define VERIF_TREE_H_
#include <string>
#include <vector>
#include "kml/dom.h"
struct Slot {
  const char* name;  // as KmlSchema.tla names it
  bool multi;
  bool (*fits)(const kmldom::ElementPtr&);
  void (*put)(const kmldom::ElementPtr& parent, const kmldom::ElementPtr& child);
  void (*clear)(const kmldom::ElementPtr& parent);  // NULL: no such call
  bool (*has)(const kmldom::ElementPtr& parent);
  size_t (*size)(const kmldom::ElementPtr& parent);
  kmldom::ElementPtr (*at)(const kmldom::ElementPtr& parent, size_t i);
  kmldom::ElementPtr (*del)(const kmldom::ElementPtr& parent, size_t i);
};
const std::vector<Slot>& AllSlots();
const Slot* FindSlot(const kmldom::ElementPtr& parent, const std::string& name);
kmldom::ElementPtr NewElement(const std::string& tag);  // "IconStyleIcon" too
bool TreesDisjoint(const kmldom::ElementPtr& a, const kmldom::ElementPtr& b);
std::string TagOf(const kmldom::ElementPtr& e);
#endif
