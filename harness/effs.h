// Systematic generation of effect lists over a vocabulary.
#ifndef VERIF_EFFS_H_
#define VERIF_EFFS_H_

#include "forms.h"

namespace effs {

using forms::Gen;
using forms::Setting;
using ref::E;
using ref::F;
using ref::Vars;

inline std::vector<E> Literals(const Setting& s, const Vars& scope) {
  std::vector<E> out;
  for (const F& a : forms::Atoms(s, scope)) {
    out.push_back(ref::Add(a.pred, a.args));
    out.push_back(ref::Del(a.pred, a.args));
  }
  return out;
}

inline Vars Join(const Vars& a, const Vars& b) {
  Vars v = a;
  v.insert(v.end(), b.begin(), b.end());
  return v;
}

// Takes about n elements, evenly spread, always the same ones.
template <typename T>
std::vector<T> Pick(const std::vector<T>& v, size_t n, size_t offset = 0) {
  if (v.size() <= n) return v;
  std::vector<T> o;
  const size_t step = v.size() / n;
  for (size_t i = offset % step; i < v.size(); i += step) o.push_back(v[i]);
  return o;
}

// Effects without conditions: literals, pairs, triples, forall, nested forall.
inline std::vector<E> Plain(const Setting& s, const Vars& scope, size_t width) {
  std::vector<E> out = {ref::Lst()};
  const auto lits = Literals(s, scope);
  for (const E& l : lits) out.push_back(l);
  for (const E& a : lits) {
    for (const E& b : lits) out.push_back(ref::Lst({a, b}));
  }
  const auto few = Pick(lits, width);
  for (const E& a : few) {
    for (const E& b : few) {
      for (const E& c : few) out.push_back(ref::Lst({a, ref::Lst({b}), c}));
    }
  }
  for (const Vars& q : s.quants) {
    const Vars in = Join(scope, q);
    const auto il = Literals(s, in);
    for (const E& l : il) {
      out.push_back(ref::EAll(q, l));
      for (const E& o : Pick(lits, width)) out.push_back(ref::Lst({o, ref::EAll(q, l)}));
    }
    for (const E& a : Pick(il, width)) {
      for (const E& b : Pick(il, width, 1)) out.push_back(ref::EAll(q, ref::Lst({a, b})));
    }
    for (const Vars& q2 : s.quants) {
      for (const E& l : Pick(Literals(s, Join(in, q2)), 2 * width)) {
        out.push_back(ref::EAll(q, ref::EAll(q2, l)));
        out.push_back(ref::EAll(q, ref::Lst({few[0], ref::EAll(q2, l)})));
      }
    }
  }
  return out;
}

// Conditions over a scope: small formulas and some larger ones.
inline std::vector<F> Conditions(const Setting& s, Gen* g, const Vars& scope, size_t n) {
  std::vector<F> out = Pick(g->UpTo(2, scope), n);
  for (const F& f : Pick(g->Exactly(3, scope), n / 2)) out.push_back(f);
  return out;
}

// Effects with conditions, alone, combined, nested and under forall.
inline std::vector<E> Conditional(const Setting& s, const Vars& scope, size_t width) {
  Gen g(s);
  std::vector<E> out;
  const auto lits = Literals(s, scope);
  const auto conds = Conditions(s, &g, scope, 3 * width);
  std::vector<E> simple;
  for (const F& c : conds) {
    for (const E& l : Pick(lits, 2 * width)) simple.push_back(ref::When(c, l));
  }
  for (const E& e : simple) out.push_back(e);
  // A literal beside a condition that may read what the literal writes.
  for (const E& l : lits) {
    for (const F& c : Pick(conds, 2 * width)) {
      for (const E& l2 : Pick(lits, width, 1)) out.push_back(ref::Lst({l, ref::When(c, l2)}));
    }
  }
  // Two conditions that may read each other's results.
  for (const E& a : Pick(simple, 4 * width)) {
    for (const E& b : Pick(simple, 4 * width, 3)) out.push_back(ref::Lst({a, b}));
  }
  // Nested conditions and several effects under one condition.
  for (const F& c : Pick(conds, width)) {
    for (const E& e : Pick(simple, 3 * width, 2)) {
      out.push_back(ref::When(c, e));
      out.push_back(ref::When(c, ref::Lst({e, Pick(lits, 3)[0]})));
    }
    for (const Vars& q : s.quants) {
      for (const E& l : Pick(Literals(s, Join(scope, q)), 2 * width)) {
        out.push_back(ref::When(c, ref::EAll(q, l)));
      }
    }
  }
  for (const Vars& q : s.quants) {
    const Vars in = Join(scope, q);
    const auto il = Literals(s, in);
    const auto ic = Conditions(s, &g, in, 3 * width);
    std::vector<E> inner;
    for (const F& c : ic) {
      for (const E& l : Pick(il, 2 * width)) inner.push_back(ref::When(c, l));
    }
    for (const E& e : inner) out.push_back(ref::EAll(q, e));
    for (const E& e : Pick(inner, 3 * width)) {
      for (const E& l : Pick(il, width)) out.push_back(ref::EAll(q, ref::Lst({l, e})));
      for (const E& l : Pick(lits, width)) out.push_back(ref::Lst({l, ref::EAll(q, e)}));
      for (const E& f : Pick(simple, width)) out.push_back(ref::Lst({f, ref::EAll(q, e)}));
    }
    for (const Vars& q2 : s.quants) {
      const Vars in2 = Join(in, q2);
      for (const F& c : Pick(Conditions(s, &g, in2, 2 * width), width)) {
        for (const E& l : Pick(Literals(s, in2), width)) {
          out.push_back(ref::EAll(q, ref::EAll(q2, ref::When(c, l))));
          out.push_back(ref::EAll(q, ref::When(Pick(ic, 2)[0], ref::EAll(q2, l))));
        }
      }
    }
  }
  return out;
}

// Three to eight effects side by side: literals, conditional effects, lists and
// forall effects in every place.  Every predicate is either only added or only
// deleted within one effect, so that none is contradictory.
inline std::vector<E> WideEffects(const Setting& s, const Vars& scope, size_t stride, bool conditional) {
  auto atoms = [&](const Vars& sc) {
    std::vector<F> at;
    for (F& f : forms::AllAtoms(s, sc, stride)) {
      for (const ref::Pred& p : s.d.preds) {
        if (p.name == f.pred) {
          at.push_back(std::move(f));
          break;
        }
      }
    }
    return at;
  };
  const auto at = atoms(scope);
  std::vector<std::vector<F>> inner;
  for (const Vars& q : s.quants) inner.push_back(atoms(Join(scope, q)));
  const auto conds = conditional ? forms::WideForms(s, scope, 97) : std::vector<F>{};
  std::vector<std::vector<F>> inner_conds;
  for (const Vars& q : s.quants) {
    inner_conds.push_back(conditional ? Pick(forms::WideForms(s, Join(scope, q), 397), 60) : std::vector<F>{});
  }
  auto lit = [&](const F& a, size_t signs) {
    size_t p = 0;
    while (s.d.preds[p].name != a.pred) p++;
    return (signs >> p & 1) != 0 ? ref::Del(a.pred, a.args) : ref::Add(a.pred, a.args);
  };
  std::vector<E> out;
  size_t count = 0;
  const size_t n = std::max<size_t>(40, 2 * at.size());
  for (size_t k = 3; k <= 8; k++) {
    for (size_t i = 0; i < n; i++) {
      for (size_t shape = 0; shape < 6; shape++) {
        if (count++ % 2 != 0 && stride > 1) continue;
        const size_t signs = i + shape;
        std::vector<E> v;
        for (size_t j = 0; j < k; j++) {
          const size_t z = i + j * (1 + i % 4);
          const size_t kind = (i + j * (shape + 1)) % 5;
          const size_t q = s.quants.empty() ? 0 : (i + j) % s.quants.size();
          if (kind == 1 && conditional && !conds.empty() && !at.empty()) {
            v.push_back(ref::When(conds[(z * 7 + k) % conds.size()], lit(at[z % at.size()], signs)));
          } else if (kind == 2 && !s.quants.empty() && !inner[q].empty()) {
            v.push_back(ref::EAll(s.quants[q], lit(inner[q][z * 3 % inner[q].size()], signs)));
          } else if (kind == 3 && !at.empty()) {
            v.push_back(ref::Lst({lit(at[z % at.size()], signs), ref::Lst(), lit(at[(z + 1) % at.size()], signs)}));
          } else if (kind == 4 && conditional && !s.quants.empty() && !inner[q].empty() && !inner_conds[q].empty()) {
            v.push_back(ref::EAll(s.quants[q],
                                  ref::When(inner_conds[q][(z + k) % inner_conds[q].size()],
                                            ref::Lst({lit(inner[q][z % inner[q].size()], signs),
                                                      lit(inner[q][(z * 5 + 1) % inner[q].size()], signs)}))));
          } else if (!at.empty()) {
            v.push_back(lit(at[z % at.size()], signs));
          }
        }
        out.push_back(ref::Lst(std::move(v)));
      }
    }
  }
  return out;
}

}  // namespace effs

#endif  // VERIF_EFFS_H_
