// Reading normal forms of the code under test, and their expected truth.
#ifndef VERIF_NORMAL_H_
#define VERIF_NORMAL_H_

#include "bridge.h"
#include "symbolic/normal_form.h"

namespace H {

using symbolic::DisjunctiveFormula;

// Truth of a normal form, read off its propositions by name.
struct Dnf {
  struct Conj {
    Mask pos = 0, neg = 0;
    bool never = false;  // contains a literal that is false in every state
  };
  bool truth = false;  // the constant true
  std::vector<Conj> conj;

  Dnf(const Bridge& br, const std::optional<DisjunctiveFormula>& f, const std::string& what) {
    if (!f.has_value()) return;
    truth = f->empty();
    CHECK(truth == f->conjunctions.empty(), "empty() of " << what);
    for (const auto& c : f->conjunctions) {
      Conj k;
      for (const Proposition& p : c.pos()) {
        CHECK(!c.neg().contains(p), what << " contains " << Bridge::Name(p) << " and its negation");
        Literal(br, p, true, &k);
      }
      for (const Proposition& p : c.neg()) {
        CHECK(!c.pos().contains(p), what << " contains " << Bridge::Name(p) << " and its negation");
        Literal(br, p, false, &k);
      }
      CHECK((k.pos & k.neg) == 0, "inconsistent conjunction in " << what);
      conj.push_back(k);
    }
  }
  static void Literal(const Bridge& br, const Proposition& p, bool positive, Conj* k) {
    const ref::World& w = br.w;
    bool value = false;
    std::vector<int> id;
    for (const Object& o : p.arguments()) {
      auto it = w.obj_id.find(o.name());
      if (it == w.obj_id.end()) FAIL("literal " << Bridge::Name(p) << " names " << o.name());
      id.push_back(it->second);
    }
    if (w.pred_id.count(p.name())) {
      auto it = br.bit.find(Bridge::Name(p));
      if (it != br.bit.end()) {
        (positive ? k->pos : k->neg) |= Mask(1) << it->second;
        return;
      }  // otherwise not a well-typed instance: false in every state
    } else if (p.name() == "=") {
      CHECK(id.size() == 2, "equality with " << id.size() << " arguments");
      value = id[0] == id[1];
    } else if (w.is_type(p.name())) {
      CHECK(id.size() == 1, "type predicate with " << id.size() << " arguments");
      value = w.subtype(w.obj_type[id[0]], p.name());
    } else {
      FAIL("unknown predicate in literal " << Bridge::Name(p));
    }
    if (value != positive) k->never = true;
  }
  bool eval(Mask m) const {
    if (truth) return true;
    for (const Conj& c : conj) {
      if (!c.never && (m & c.pos) == c.pos && (m & c.neg) == 0) return true;
    }
    return false;
  }
};

// Effects read as a condition on the state after them.
inline bool Satisfied(const ref::World& w, const ref::CE& e, ref::World::Env& env, Mask m) {
  using ref::E;
  switch (e.k) {
    case E::ADD:
    case E::DEL: {
      bool v;
      if (e.pk != ref::CF::PRED) {
        v = w.static_atom(e, env);
      } else {
        const int b = w.atom_bit(e, env);
        v = b >= 0 && (m >> b & 1);
      }
      return v == (e.k == E::ADD);
    }
    case E::LIST:
      for (const ref::CE& x : e.kids) {
        if (!Satisfied(w, x, env, m)) return false;
      }
      return true;
    case E::WHEN:
      return !w.eval(e.cond, env, m) || Satisfied(w, e.kids[0], env, m);
    case E::ALL: {
      bool ok = true;
      ref::World::product(e.ranges, [&](const std::vector<int>& t) {
        if (!ok) return;
        env.resize(static_cast<size_t>(e.base));
        env.insert(env.end(), t.begin(), t.end());
        ok = Satisfied(w, e.kids[0], env, m);
      });
      env.resize(static_cast<size_t>(e.base));
      return ok;
    }
  }
  return false;
}

// The cost of distributing the negation of a normal form.
inline double NegationCost(const DisjunctiveFormula& f) {
  double n = 1;
  for (const auto& c : f.conjunctions) n *= static_cast<double>(std::max<size_t>(1, c.size()));
  return n * static_cast<double>(f.conjunctions.size() + 1);
}

// Upper bounds (number of conjunctions, literals per conjunction) that keep
// the conversion of a formula affordable.
struct Size {
  double conj = 1, lits = 1;
};
inline Size Estimate(const ref::CF& c) {
  using ref::F;
  auto conjoin = [](const Size& a, const Size& b) { return Size{a.conj * b.conj, a.lits + b.lits}; };
  auto disjoin = [](const Size& a, const Size& b) { return Size{a.conj + b.conj, std::max(a.lits, b.lits)}; };
  Size s{1, 0};
  switch (c.k) {
    case F::ATOM:
      return {1, 1};
    case F::AND:
      for (const auto& x : c.kids) s = conjoin(s, Estimate(x));
      return s;
    case F::OR:
      s = {0, 0};
      for (const auto& x : c.kids) s = disjoin(s, Estimate(x));
      return s;
    case F::NOT: {
      const Size k = Estimate(c.kids[0]);
      double n = 1;
      for (int i = 0; i < k.conj && n < 1e9; i++) n *= std::max(1.0, k.lits);
      return {n, k.conj};
    }
    case F::ALL:
    case F::EX: {
      const Size k = Estimate(c.kids[0]);
      double n = 1;
      for (const auto& r : c.ranges) n *= static_cast<double>(r.size());
      if (c.k == F::EX) return {k.conj * n, k.lits};
      s = {1, 0};
      for (int i = 0; i < n && s.conj < 1e9; i++) s = conjoin(s, k);
      return s;
    }
  }
  return s;
}

}  // namespace H

#endif  // VERIF_NORMAL_H_
