// A pool of ground propositions over one loaded domain, with members chosen so
// that they share hash buckets for every bucket count a set goes through.
#ifndef VERIF_POOL_H_
#define VERIF_POOL_H_

#include "bridge.h"
#include "vocab.h"

namespace H {

struct Pool {
  ref::Dom d;
  std::unique_ptr<Pddl> pddl;
  std::vector<Proposition> all;

  std::vector<Proposition> same;  // pairs with one and the same hash

  explicit Pool(int nobj = 20) {
    d.types = {{"t", ""}};
    for (int i = 0; i < nobj; i++) d.objs.push_back({"o" + std::to_string(i), "t"});
    for (const auto& n : vocab::kTwinObjects) d.objs.push_back({n, "t"});
    d.preds = {{vocab::kTwinPredicates[0], {}},
               {vocab::kTwinPredicates[1], {}},
               {"p0", {}},
               {"q0", {}},
               {"p", {{"a", "t"}}},
               {"q", {{"a", "t"}}},
               {"r", {{"a", "t"}, {"b", "t"}}},
               {"s", {{"a", "t"}, {"b", "t"}, {"c", "t"}}}};
    pddl = Load(d);
    const std::vector<Object> o(pddl->objects().begin(), pddl->objects().begin() + nobj);
    for (const auto& n : vocab::kTwinObjects) {
      same.emplace_back(std::string("p"), std::vector<Object>{Object(*pddl, n)});
    }
    for (const auto& n : vocab::kTwinPredicates) same.emplace_back(n, std::vector<Object>{});
    for (size_t i = 2; i-- > 0;) {
      same.emplace_back(std::string("r"), std::vector<Object>{o[1], Object(*pddl, vocab::kTwinObjects[i])});
    }
    const std::vector<Object> none;
    all.emplace_back(std::string("p0"), none);
    all.emplace_back(std::string("q0"), none);
    for (const Object& a : o) {
      all.emplace_back(std::string("p"), std::vector<Object>{a});
      all.emplace_back(std::string("q"), std::vector<Object>{a});
      for (const Object& b : o) {
        all.emplace_back(std::string("r"), std::vector<Object>{a, b});
        for (const Object& c : o) {
          all.emplace_back(std::string("s"), std::vector<Object>{a, b, c});
        }
      }
    }
  }
  // The first n propositions of which many have equal hashes.
  std::vector<Proposition> twins(size_t n) const {
    return std::vector<Proposition>(same.begin(), same.begin() + static_cast<long>(n));
  }
  // n propositions whose hashes agree modulo m (as many as there are), then
  // ordinary ones.
  std::vector<Proposition> pick(size_t n, size_t collide, size_t m) const {
    std::map<size_t, std::vector<size_t>> by;
    for (size_t i = 0; i < all.size(); i++) {
      by[std::hash<Proposition>{}(all[i]) % m].push_back(i);
    }
    const std::vector<size_t>* best = nullptr;
    for (const auto& kv : by) {
      if (best == nullptr || kv.second.size() > best->size()) best = &kv.second;
    }
    std::vector<Proposition> r;
    std::set<size_t> used;
    for (size_t i = 0; i < best->size() && r.size() < std::min(n, collide); i++) {
      r.push_back(all[(*best)[i]]);
      used.insert((*best)[i]);
    }
    for (size_t i = 0; i < all.size() && r.size() < n; i++) {
      if (used.insert(i).second) r.push_back(all[i]);
    }
    return r;
  }
};

// All ways of inserting an element that the interface offers.
constexpr int kInsertVariants = 8;
inline bool InsertBy(int v, const Pddl& pddl, const Proposition& p, State* s) {
  switch (v) {
    case 0:
      return s->insert(p);
    case 1:
      return s->insert(Proposition(p));
    case 2:
      return s->emplace(p.name(), p.arguments());
    case 3:
      return s->emplace(pddl, p.to_string());
    case 4: {
      const std::vector<Proposition> one{p};
      return s->insert(one.begin(), one.end());
    }
    case 5: {
      const symbolic::PropositionRef ref(&p.name(), &p.arguments(),
                                         std::hash<std::string>{}(p.name()));
      return s->insert(ref);
    }
    case 6: {
      const symbolic::SignedProposition sp(Proposition(p), true);
      return s->insert(static_cast<const symbolic::PropositionBase&>(sp));
    }
    default: {  // an element of the set itself when it is already there
      for (const Proposition& q : *s) {
        if (q == p) return s->insert(q);
      }
      const Proposition* two[1] = {&p};
      (void)two;
      return s->insert(static_cast<const symbolic::PropositionBase&>(p));
    }
  }
}
constexpr int kEraseVariants = 3;
inline bool EraseBy(int v, const Pddl& pddl, const Proposition& p, State* s) {
  switch (v) {
    case 0:
      return s->erase(p);
    case 1: {
      const symbolic::PropositionRef ref(&p.name(), &p.arguments(),
                                         std::hash<std::string>{}(p.name()));
      return s->erase(ref);
    }
    default: {
      for (const Proposition& q : *s) {
        if (q == p) return s->erase(q);
      }
      return s->erase(Proposition(pddl, p.to_string()));
    }
  }
}

}  // namespace H

#endif  // VERIF_POOL_H_
