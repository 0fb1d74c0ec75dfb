// Reference semantics of derivation rules: stratified least fixpoint.
#ifndef VERIF_DERIVED_H_
#define VERIF_DERIVED_H_

#include "ref.h"

namespace ref {

struct Rules {
  struct Rule {
    int pred;
    std::vector<std::vector<int>> ranges;
    CF body;
  };
  const World& w;
  std::vector<Rule> rules;
  std::vector<int> stratum;  // by predicate; -1: not derived
  bool stratified = true;
  Mask derived = 0;  // all derived propositions
  int strata = 0;

  static void Deps(const CF& c, bool neg, std::vector<std::pair<int, bool>>* out) {
    if (c.k == F::ATOM) {
      if (c.pk == CF::PRED) out->push_back({c.pred, neg});
      return;
    }
    for (const CF& x : c.kids) Deps(x, neg != (c.k == F::NOT), out);
  }

  explicit Rules(const World& world) : w(world), stratum(world.d.preds.size(), -1) {
    for (const Der& r : w.d.ders) {
      World::Scope s;
      for (const Var& v : r.params) s.vars.push_back(v.first);
      rules.push_back({w.pred_id.at(r.pred), w.ranges(r.params), w.compile(r.body, s)});
      stratum[rules.back().pred] = 0;
    }
    // reach[i][j]: 0 none, 1 positively only, 2 through some negation
    const size_t n = stratum.size();
    std::vector<std::vector<int>> reach(n, std::vector<int>(n, 0));
    for (const Rule& r : rules) {
      std::vector<std::pair<int, bool>> d;
      Deps(r.body, false, &d);
      for (const auto& x : d) {
        if (stratum[x.first] < 0) continue;
        reach[r.pred][x.first] = std::max(reach[r.pred][x.first], x.second ? 2 : 1);
      }
    }
    for (size_t k = 0; k < n; k++) {
      for (size_t i = 0; i < n; i++) {
        for (size_t j = 0; j < n; j++) {
          if (reach[i][k] && reach[k][j]) {
            reach[i][j] = std::max(reach[i][j], std::max(reach[i][k], reach[k][j]));
          }
        }
      }
    }
    for (size_t i = 0; i < n; i++) {
      if (reach[i][i] == 2) stratified = false;
    }
    if (!stratified) return;
    // Longest chain of negations below each predicate.
    for (size_t round = 0; round <= n; round++) {
      for (const Rule& r : rules) {
        std::vector<std::pair<int, bool>> d;
        Deps(r.body, false, &d);
        for (const auto& x : d) {
          if (stratum[x.first] < 0) continue;
          stratum[r.pred] = std::max(stratum[r.pred], stratum[x.first] + (x.second ? 1 : 0));
        }
      }
    }
    for (int s : stratum) strata = std::max(strata, s + 1);
    for (size_t b = 0; b < w.bits(); b++) {
      if (stratum[w.ground[b].pred] >= 0) derived |= Mask(1) << b;
    }
  }

  Mask close(Mask m) const {
    m &= ~derived;
    for (int s = 0; s < strata; s++) {
      for (;;) {
        Mask add = 0;
        for (const Rule& r : rules) {
          if (stratum[r.pred] != s) continue;
          World::product(r.ranges, [&](const std::vector<int>& t) {
            const int b = w.bit(r.pred, t);
            if (b < 0) return;
            World::Env env = t;
            if (w.eval(r.body, env, m)) add |= Mask(1) << b;
          });
        }
        if ((m | add) == m) break;
        m |= add;
      }
    }
    return m;
  }
};

}  // namespace ref

#endif  // VERIF_DERIVED_H_
