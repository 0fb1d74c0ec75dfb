// Axioms whose implications hold under conditions.
#ifndef VERIF_COND_AXIOMS_H_
#define VERIF_COND_AXIOMS_H_

#include "axioms.h"

namespace H {

struct CondVocab {
  ref::Dom d;
  std::vector<std::pair<ref::Str, ref::Str>> atoms = {{"p", "?x"}, {"q", "?x"}, {"n", ""}, {"p", "a"}};
  struct Rule {
    int ctx;
    std::vector<int> cond, eff;  // +-(atom+1)
    bool split;                  // one condition for each effect
  };
  std::vector<Rule> rules;
  ref::F atom(int l) const {
    const auto& a = atoms[static_cast<size_t>(std::abs(l) - 1)];
    const ref::F f = a.second.empty() ? ref::A(a.first) : ref::A(a.first, {a.second});
    return l > 0 ? f : ref::Not(f);
  }
  ref::E effect(int l) const {
    const auto& a = atoms[static_cast<size_t>(std::abs(l) - 1)];
    const std::vector<ref::Str> args = a.second.empty() ? std::vector<ref::Str>{} : std::vector<ref::Str>{a.second};
    return l > 0 ? ref::Add(a.first, args) : ref::Del(a.first, args);
  }
  ref::Op op(const Rule& r) const {
    ref::Op o;
    o.name = "axiom";
    o.params = {{"x", "t"}};
    o.pre = atom(r.ctx);
    std::vector<ref::F> c;
    for (int l : r.cond) c.push_back(atom(l));
    const ref::F cond = c.size() == 1 ? c[0] : ref::And(c);
    std::vector<ref::E> e;
    for (int l : r.eff) e.push_back(r.split ? ref::When(cond, effect(l)) : effect(l));
    const ref::E list = e.size() == 1 ? e[0] : ref::Lst(e);
    o.eff = r.split ? list : ref::When(cond, list);
    return o;
  }
  CondVocab() {
    d.name = "conditional";
    d.types = {{"t", ""}};
    d.consts = {{"a", "t"}};
    d.objs = {{"b", "t"}};
    d.preds = {{"p", {{"x", "t"}}}, {"q", {{"x", "t"}}}, {"n", {}}};
    const std::vector<int> ctx = {1, -1, 2, -2, 3, -3};
    const std::vector<std::vector<int>> conds = {{1}, {-1}, {2}, {-2}, {3}, {-3}, {4}, {-4}, {1, -3}, {-2, 4}};
    const std::vector<std::vector<int>> effs = {{1}, {-1}, {2}, {-2}, {3}, {-3}, {4}, {2, -3}, {-1, 2}};
    size_t n = 0;
    for (int c : ctx) {
      for (const auto& k : conds) {
        for (const auto& e : effs) rules.push_back({c, k, e, n++ % 2 == 0});
      }
    }
  }
};

struct Ground {
  int ctx;
  std::vector<int> cond, eff;  // +-(bit+1)
};

// The ground rules of some axioms of the vocabulary, one for each object.
inline std::vector<Ground> GroundRules(const CondVocab& v, const std::vector<size_t>& idx, const ref::World& w) {
  std::vector<Ground> rules;
  for (size_t i : idx) {
    for (const char* x : {"a", "b"}) {
      auto ground = [&](int l) {
        const auto& a = v.atoms[static_cast<size_t>(std::abs(l) - 1)];
        const std::vector<ref::Str> args =
            a.second.empty() ? std::vector<ref::Str>{} : std::vector<ref::Str>{a.second == "?x" ? x : a.second};
        const int b = w.bit_of.at(ref::ground_name(a.first, args)) + 1;
        return l > 0 ? b : -b;
      };
      Ground g;
      g.ctx = ground(v.rules[i].ctx);
      for (int l : v.rules[i].cond) g.cond.push_back(ground(l));
      for (int l : v.rules[i].eff) g.eff.push_back(ground(l));
      rules.push_back(g);
    }
  }
  return rules;
}

}  // namespace H

#endif  // VERIF_COND_AXIOMS_H_
