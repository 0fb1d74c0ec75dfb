// Actions whose effects can trigger the axioms of a vocabulary.
#ifndef VERIF_AXIOM_ACTIONS_H_
#define VERIF_AXIOM_ACTIONS_H_

#include "axioms.h"

namespace ref {

// Actions over a vocabulary: each effect as an action of its own.
// (every `stride`-th combination of two effects).
inline std::vector<Op> AxiomActions(const AxiomVocab& v, size_t stride = 1) {
  std::vector<Op> out;
  auto add = [&](Vars ps, E e) {
    Op o;
    o.name = "act" + std::to_string(out.size());
    o.params = std::move(ps);
    o.eff = std::move(e);
    out.push_back(o);
  };
  for (const Pred& p : v.d.preds) {
    // Direct: the predicate's own parameters, in order and reversed.
    std::vector<Str> a;
    for (const auto& x : p.params) a.push_back("?" + x.first);
    add(p.params, Add(p.name, a));
    add(p.params, Del(p.name, a));
    if (p.params.size() == 2) {
      const Vars rev = {p.params[1], p.params[0]};
      add(rev, Add(p.name, a));
      add(rev, Del(p.name, a));
      add({p.params[0]}, EAll({p.params[1]}, Add(p.name, a)));
      add({p.params[1]}, EAll({p.params[0]}, Del(p.name, a)));
    }
    if (p.params.size() == 3) {
      const Vars rot = {p.params[2], p.params[0], p.params[1]};
      add(rot, Add(p.name, a));
      add(rot, Del(p.name, a));
      add({p.params[1], p.params[0]}, EAll({p.params[2]}, Add(p.name, a)));
      add({p.params[2]}, EAll({p.params[1], p.params[0]}, Del(p.name, a)));
      add({p.params[0]}, Add(p.name, {a[0], a[0], a[0]}));
      add({p.params[1]}, Del(p.name, {a[1], a[1], a[1]}));
    }
    if (p.params.size() == 1) {
      add({}, EAll(p.params, Add(p.name, a)));
      add({}, EAll(p.params, Del(p.name, a)));
      add(p.params, When(A(p.name, a), Del(p.name, a)));
      add(p.params, When(Not(A(p.name, a)), Add(p.name, a)));
    }
  }
  size_t count = 0;
  // Two effects in one action, over differently named parameters.
  for (const Pred& p : v.d.preds) {
    for (const Pred& q : v.d.preds) {
      for (int s = 0; s < 4; s++) {
        Vars ps;
        std::vector<Str> a, b;
        for (const auto& x : p.params) {
          ps.push_back({"a" + x.first, x.second});
          a.push_back("?a" + x.first);
        }
        for (const auto& x : q.params) {
          ps.insert(ps.begin(), {x.first, x.second});
          b.push_back("?" + x.first);
        }
        if (ps.size() > 3) continue;
        if (count++ % stride != 0) continue;
        add(ps, Lst({s & 1 ? Del(p.name, a) : Add(p.name, a),
                          s & 2 ? Del(q.name, b) : Add(q.name, b)}));
      }
    }
  }
  // With constants.
  if (!v.d.consts.empty()) {
    const Var c = v.d.consts[0];
    for (const Pred& p : v.d.preds) {
      if (p.params.empty()) continue;
      std::vector<Str> a(p.params.size(), c.first);
      add({}, Add(p.name, a));
      add({}, Del(p.name, a));
      if (p.params.size() == 2) {
        add({{"x", p.params[1].second}}, Add(p.name, {c.first, "?x"}));
        add({{"y", p.params[1].second}}, Del(p.name, {c.first, "?y"}));
      }
    }
  }
  return out;
}

// Actions in which one effect may write what the condition of another reads.
inline std::vector<Op> ConditionalActions(const AxiomVocab& v, size_t stride = 1) {
  std::vector<Op> out;
  size_t count = 0;
  for (const Pred& p : v.d.preds) {
    for (const Pred& q : v.d.preds) {
      for (const Pred& r : v.d.preds) {
        for (int s = 0; s < 16; s++) {
          if (count++ % stride != 0) continue;
          Op o;
          o.name = "cond" + std::to_string(out.size());
          // Parameters of one name and type are shared between the effects.
          std::map<Str, Str> names;
          auto args = [&](const Pred& x) {
            std::vector<Str> a;
            for (size_t i = 0; i < x.params.size(); i++) {
              const Str n = "v" + std::to_string(i) + x.params[i].second;
              if (names.insert({n, n}).second) o.params.push_back({n, x.params[i].second});
              a.push_back("?" + n);
            }
            return a;
          };
          const auto pa = args(p), qa = args(q), ra = args(r);
          const E e = s & 1 ? Del(p.name, pa) : Add(p.name, pa);
          const F c = s & 2 ? Not(A(q.name, qa)) : A(q.name, qa);
          const E f = When(c, s & 4 ? Del(r.name, ra) : Add(r.name, ra));
          if (p.name == r.name) continue;
          o.eff = s & 8 ? Lst({f, e}) : Lst({e, f});
          if (o.params.size() <= 3) out.push_back(o);
        }
      }
    }
  }
  return out;
}

}  // namespace ref

#endif  // VERIF_AXIOM_ACTIONS_H_
