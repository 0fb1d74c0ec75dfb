// Vocabularies (types, objects, predicates) that the harnesses build on.
#ifndef VERIF_VOCAB_H_
#define VERIF_VOCAB_H_

#include "ref.h"

namespace vocab {

using ref::Dom;

inline Dom Flat() {  // 7 ground atoms
  Dom d;
  d.name = "flat";
  d.types = {{"t", ""}};
  d.objs = {{"a", "t"}, {"b", "t"}};
  d.preds = {{"p0", {}}, {"p", {{"x", "t"}}}, {"r", {{"x", "t"}, {"y", "t"}}}};
  return d;
}
inline Dom Untyped() {
  Dom d;
  d.name = "untyped";
  d.types_section = false;
  d.objs = {{"a", ""}, {"b", ""}};
  d.preds = {{"p0", {}}, {"p", {{"x", ""}}}, {"r", {{"x", ""}, {"y", ""}}}};
  return d;
}
// Hierarchy with an empty type, a constant and objects at several levels.
inline Dom Hier() {  // 2 + 1 + 4 + ... ground atoms
  Dom d;
  d.name = "hier";
  d.types = {{"phys", ""}, {"mov", "phys"}, {"thr", "mov"}, {"emp", "phys"}, {"other", ""}};
  d.consts = {{"k", "phys"}};
  d.objs = {{"m", "mov"}, {"h", "thr"}};
  d.preds = {{"w", {}}, {"in", {{"x", "mov"}}}, {"on", {{"x", "thr"}, {"y", "phys"}}},
             {"no", {{"x", "emp"}}}};
  return d;
}
// As in the shipped example: "object" is written as the root type.
inline Dom Rooted() {
  Dom d;
  d.name = "rooted";
  d.types = {{"physobj", "object"}, {"movable", "physobj"}, {"box", "movable"}};
  d.consts = {{"table", "physobj"}};
  d.objs = {{"hook", "movable"}, {"b1", "box"}};
  d.preds = {{"inhand", {{"a", "movable"}}},
             {"on", {{"a", "movable"}, {"b", "physobj"}}},
             {"near", {{"a", "object"}}}};
  return d;
}
// Three objects, two unrelated types and an untyped object, ternary predicate.
inline Dom Mixed() {
  Dom d;
  d.name = "mixed";
  d.types = {{"t", ""}, {"u", ""}};
  d.objs = {{"a", "t"}, {"c", "u"}, {"b", "t"}, {"z", ""}};
  d.preds = {{"q", {{"x", "u"}}}, {"s", {{"x", "t"}, {"y", "u"}, {"z", "t"}}},
             {"g", {{"x", ""}}}};
  return d;
}
// Objects whose names coincide with variable names.
inline Dom Names() {
  Dom d;
  d.name = "names";
  d.types = {{"t", ""}};
  d.consts = {{"x", "t"}};
  d.objs = {{"y", "t"}};
  d.preds = {{"p", {{"x", "t"}}}, {"r", {{"y", "t"}, {"x", "t"}}}};
  return d;
}
inline Dom NoObjects() {
  Dom d;
  d.name = "noobjects";
  d.types = {{"t", ""}};
  d.preds = {{"p0", {}}, {"p", {{"x", "t"}}}};
  return d;
}
inline Dom ConstOnly() {
  Dom d;
  d.name = "constonly";
  d.types = {{"t", ""}, {"u", "t"}};
  d.consts = {{"a", "u"}, {"b", "t"}};
  d.preds = {{"p", {{"x", "t"}}}, {"v", {{"x", "u"}, {"y", "u"}}}};
  return d;
}
inline Dom Three() {
  Dom d;
  d.name = "three";
  d.types = {{"t", ""}};
  d.objs = {{"a", "t"}, {"b", "t"}, {"c", "t"}};
  d.preds = {{"p", {{"x", "t"}}}, {"e", {{"x", "t"}, {"y", "t"}}}};
  return d;
}
// Chain of types declared child first; several types before their parents.
inline Dom Chain() {
  Dom d;
  d.name = "chain";
  d.types = {{"c3", "c2"}, {"c2", "c1"}, {"c1", "c0"}, {"c0", ""}, {"side", "c1"}};
  d.consts = {{"o3", "c3"}};
  d.objs = {{"o1", "c1"}, {"s", "side"}, {"o0", "c0"}};
  d.preds = {{"p", {{"x", "c1"}}}, {"f", {{"x", "c2"}, {"y", "c0"}}}};
  return d;
}

// Names whose std::hash<std::string> is one and the same 64-bit number (with
// the standard library installed here; anywhere else they are ordinary names).
const std::vector<ref::Str> kTwinObjects = {"collide1northern", "dagczahuf4dn3uoe", "niw942zdg1hh6-4p"};
const std::vector<ref::Str> kTwinTypes = {"wall-and-ceiling", "g3g35wnq4v5z8za9"};
const std::vector<ref::Str> kTwinPredicates = {"some-other-thing", "umlbhb4mfi-czj0q"};
const std::vector<ref::Str> kTwinActions = {"jkdg6bdkjnzf7p7a", "hniwszo_ml3kc56a"};

inline Dom Twins() {
  Dom d;
  d.name = "twins";
  d.types = {{kTwinTypes[0], ""}, {kTwinTypes[1], ""}};
  d.consts = {{kTwinObjects[0], kTwinTypes[0]}};
  d.objs = {{kTwinObjects[1], kTwinTypes[1]}, {kTwinObjects[2], kTwinTypes[0]}};
  d.preds = {{kTwinPredicates[0], {{"x", kTwinTypes[0]}}}, {kTwinPredicates[1], {{"x", kTwinTypes[0]}}},
             {"r", {{"x", kTwinTypes[1]}, {"y", ""}}}};
  return d;
}

inline std::vector<Dom> All() {
  return {Flat(), Untyped(), Hier(), Rooted(), Mixed(), Names(), NoObjects(), ConstOnly(),
          Three(), Chain(), Twins()};
}

inline std::vector<ref::Str> Types(const Dom& d) {
  std::vector<ref::Str> t = {""};
  std::set<ref::Str> seen = {""};
  for (const auto& v : d.types) {
    if (seen.insert(v.first).second) t.push_back(v.first);
    if (seen.insert(v.second).second) t.push_back(v.second);
  }
  return t;
}

}  // namespace vocab

#endif  // VERIF_VOCAB_H_
