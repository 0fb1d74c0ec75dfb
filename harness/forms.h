// Systematic generation of formulas over a vocabulary.
#ifndef VERIF_FORMS_H_
#define VERIF_FORMS_H_

#include "vocab.h"

namespace forms {

using ref::F;
using ref::Str;
using ref::Var;
using ref::Vars;

struct Setting {
  Str name;
  ref::Dom d;
  Vars params;
  std::vector<Vars> quants;   // variable lists to quantify over
  std::vector<Str> consts;    // object names usable as terms
  std::vector<Str> types;     // type predicates to use
  bool eq = true;
};

// Atoms whose terms are the innermost variables in scope and the constants.
inline std::vector<F> Atoms(const Setting& s, const Vars& scope) {
  std::vector<Str> terms;
  std::set<Str> seen;
  for (size_t i = scope.size(); i-- > 0 && terms.size() < 2;) {
    if (seen.insert(scope[i].first).second) terms.push_back("?" + scope[i].first);
  }
  for (const Str& c : s.consts) terms.push_back(c);
  std::vector<F> out;
  for (const ref::Pred& p : s.d.preds) {
    const size_t k = p.params.size();
    if (k > 0 && terms.empty()) continue;
    size_t n = 1;
    for (size_t i = 0; i < k; i++) n *= terms.size();
    for (size_t c = 0; c < n; c++) {
      std::vector<Str> a;
      size_t x = c;
      for (size_t i = 0; i < k; i++, x /= terms.size()) a.push_back(terms[x % terms.size()]);
      // ternary atoms: only those that mention some variable, to keep it small
      if (k >= 3 && c % 3 == 1) continue;
      out.push_back(ref::A(p.name, a));
    }
  }
  if (s.eq) {
    for (size_t i = 0; i < terms.size(); i++) {
      for (size_t j = i; j < terms.size(); j++) {
        if (i == j && i > 0) continue;
        out.push_back(ref::A("=", {terms[i], terms[j]}));
      }
    }
  }
  for (const Str& t : s.types) {
    for (size_t i = 0; i < terms.size() && i < 2; i++) out.push_back(ref::A(t, {terms[i]}));
  }
  return out;
}

struct Gen {
  const Setting& s;
  std::map<std::pair<int, Str>, std::vector<F>> memo;
  explicit Gen(const Setting& st) : s(st) {}

  static Str Key(const Vars& scope) {
    Str k;
    for (const Var& v : scope) k += v.first + ":" + v.second + " ";
    return k;
  }
  // All formulas with exactly n nodes.
  const std::vector<F>& Exactly(int n, const Vars& scope) {
    const auto key = std::make_pair(n, Key(scope));
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    std::vector<F> out;
    if (n == 1) {
      out = Atoms(s, scope);
      out.push_back(ref::And());
      out.push_back(ref::Or());
    } else {
      for (const F& f : Exactly(n - 1, scope)) {
        out.push_back(ref::Not(f));
        if (n <= 3) {
          out.push_back(ref::And({f}));
          out.push_back(ref::Or({f}));
        }
      }
      for (const Vars& q : s.quants) {
        Vars inner = scope;
        inner.insert(inner.end(), q.begin(), q.end());
        for (const F& f : Exactly(n - 1, inner)) {
          out.push_back(ref::All(q, f));
          out.push_back(ref::Ex(q, f));
        }
      }
      for (int a = 1; a + 1 < n; a++) {
        // std::map keeps references valid
        const std::vector<F>& l = Exactly(a, scope);
        const std::vector<F>& r = Exactly(n - 1 - a, scope);
        for (const F& f : l) {
          for (const F& g : r) {
            out.push_back(ref::And({f, g}));
            out.push_back(ref::Or({f, g}));
          }
        }
      }
    }
    return memo[key] = std::move(out);
  }
  std::vector<F> UpTo(int n, const Vars& scope) {
    std::vector<F> out;
    for (int i = 1; i <= n; i++) {
      const auto& v = Exactly(i, scope);
      out.insert(out.end(), v.begin(), v.end());
    }
    return out;
  }
  // Quantifier prefixes (with a negation at each place or not) over matrices
  // of two or three literals.
  std::vector<F> Prefixes(int depth, const Vars& scope, size_t stride) {
    std::vector<F> out;
    size_t count = 0;
    std::function<void(int, const Vars&, const std::function<F(F)>&)> go =
        [&](int left, const Vars& sc, const std::function<F(F)>& wrap) {
          if (left == 0) {
            const std::vector<F> at = Atoms(s, sc);
            for (size_t i = 0; i < at.size(); i++) {
              for (size_t j = 0; j < at.size(); j++) {
                for (int c = 0; c < 8; c++) {
                  if (count++ % stride != 0) continue;
                  const F x = c & 1 ? ref::Not(at[i]) : at[i];
                  const F y = c & 2 ? ref::Not(at[j]) : at[j];
                  const F z = at[(i + 2 * j + 1) % at.size()];
                  const F m = c & 4 ? ref::Or({x, ref::And({y, z})}) : ref::And({x, ref::Or({y, z}), ref::And()});
                  out.push_back(wrap(m));
                }
              }
            }
            return;
          }
          for (const Vars& q : s.quants) {
            for (int k = 0; k < 4; k++) {
              Vars inner = sc;
              inner.insert(inner.end(), q.begin(), q.end());
              go(left - 1, inner, [&, k](F f) {
                F g = k & 1 ? ref::All(q, std::move(f)) : ref::Ex(q, std::move(f));
                return wrap(k & 2 ? ref::Not(std::move(g)) : std::move(g));
              });
            }
          }
        };
    go(depth, scope, [](F f) { return f; });
    return out;
  }
};

inline std::vector<Setting> Settings() {
  std::vector<Setting> v;
  {
    Setting s;
    s.name = "flat";
    s.d = vocab::Flat();
    s.params = {{"x", "t"}};
    s.quants = {{{"x", "t"}}, {{"y", "t"}}};
    s.consts = {"a"};
    v.push_back(s);
    s.name = "flat, two parameters";
    s.params = {{"y", "t"}, {"x", "t"}};
    s.quants = {{{"x", "t"}, {"z", "t"}}, {{"z", "t"}}};
    s.consts = {};
    v.push_back(s);
    s.name = "flat, no parameters";
    s.params = {};
    s.quants = {{{"x", "t"}, {"y", "t"}}, {{"x", "t"}}};
    s.consts = {"b"};
    v.push_back(s);
  }
  {
    Setting s;
    s.name = "untyped";
    s.d = vocab::Untyped();
    s.params = {{"x", ""}};
    s.quants = {{{"y", ""}}, {{"x", ""}}};
    s.consts = {"b"};
    s.types = {"object"};
    v.push_back(s);
  }
  {
    Setting s;
    s.name = "hier";
    s.d = vocab::Hier();
    s.params = {{"x", "phys"}};
    s.quants = {{{"x", "thr"}}, {{"y", "mov"}}, {{"y", "emp"}}, {{"z", "phys"}}};
    s.consts = {"k"};
    s.types = {"thr", "mov"};
    v.push_back(s);
    s.name = "hier, empty ranges";
    s.params = {{"x", "mov"}};
    s.quants = {{{"y", "emp"}, {"z", "mov"}}, {{"z", "mov"}, {"y", "emp"}}, {{"z", "other"}}, {{"w", ""}}};
    s.consts = {};
    s.types = {"emp", "other"};
    v.push_back(s);
  }
  {
    Setting s;
    s.name = "rooted";
    s.d = vocab::Rooted();
    s.params = {{"x", "box"}};
    s.quants = {{{"y", "physobj"}}, {{"x", "object"}}};
    s.consts = {"table", "hook"};
    s.types = {"movable"};
    s.eq = false;
    v.push_back(s);
  }
  {
    Setting s;
    s.name = "mixed";
    s.d = vocab::Mixed();
    s.params = {{"x", "u"}};
    s.quants = {{{"y", "t"}}, {{"x", ""}}};
    s.consts = {"b"};
    s.types = {"u"};
    v.push_back(s);
  }
  {
    Setting s;
    s.name = "names";
    s.d = vocab::Names();
    s.params = {{"x", "t"}};
    s.quants = {{{"y", "t"}}, {{"x", "t"}}};
    s.consts = {"x", "y"};
    v.push_back(s);
  }
  {
    Setting s;
    s.name = "no objects";
    s.d = vocab::NoObjects();
    s.params = {};
    s.quants = {{{"x", "t"}}, {{"y", ""}}};
    s.types = {"t"};
    v.push_back(s);
  }
  {
    Setting s;
    s.name = "chain";
    s.d = vocab::Chain();
    s.params = {{"x", "c1"}};
    s.quants = {{{"y", "c2"}}, {{"y", "c0"}}, {{"x", "side"}}};
    s.consts = {"o3"};
    s.types = {"c2"};
    s.eq = false;
    v.push_back(s);
  }
  {
    Setting s;
    s.name = "three";
    s.d = vocab::Three();
    s.d.preds.pop_back();
    s.d.preds.push_back({"q", {{"x", "t"}}});
    s.params = {{"x", "t"}};
    s.quants = {{{"x", "t"}}, {{"y", "t"}}};
    v.push_back(s);
  }
  // A domain may only mention constants, so every name used as a term is one.
  for (Setting& s : v) {
    for (const Str& c : s.consts) {
      for (size_t i = 0; i < s.d.objs.size(); i++) {
        if (s.d.objs[i].first != c) continue;
        s.d.consts.push_back(s.d.objs[i]);
        s.d.objs.erase(s.d.objs.begin() + static_cast<long>(i));
        break;
      }
    }
  }
  return v;
}

// Predicates of four and three arguments, four parameters.
inline Setting WideSetting() {
  Setting s;
  s.name = "wide";
  s.d.name = "wide";
  s.d.types = {{"t", ""}, {"u", ""}, {"v", "t"}};
  s.d.consts = {{"k", "v"}};
  s.d.objs = {{"b", "t"}, {"c", "u"}};
  s.d.preds = {{"q", {{"a", "t"}, {"b", "u"}, {"c", "t"}, {"d", "t"}}},
               {"s", {{"x", "t"}, {"y", "t"}, {"z", "u"}}},
               {"p", {{"x", "v"}}}};
  s.params = {{"w", "t"}, {"x", "t"}, {"y", "u"}, {"z", "t"}};
  s.quants = {{{"e", "t"}, {"f", "u"}, {"x", "t"}}, {{"z", "v"}, {"w", "t"}}, {{"y", "t"}}};
  s.consts = {"k"};
  s.types = {"v"};
  return s;
}

// Atoms over every variable in scope and every constant.
inline std::vector<F> AllAtoms(const Setting& s, const Vars& scope, size_t stride) {
  std::vector<Str> terms;
  std::set<Str> seen;
  for (size_t i = scope.size(); i-- > 0;) {
    if (seen.insert(scope[i].first).second) terms.push_back("?" + scope[i].first);
  }
  for (const Str& c : s.consts) terms.push_back(c);
  std::vector<F> out;
  size_t count = 0;
  for (const ref::Pred& p : s.d.preds) {
    const size_t k = p.params.size();
    if (k > 0 && terms.empty()) continue;
    size_t n = 1;
    for (size_t i = 0; i < k; i++) n *= terms.size();
    for (size_t c = 0; c < n; c++) {
      std::vector<Str> a;
      size_t x = c;
      for (size_t i = 0; i < k; i++, x /= terms.size()) a.push_back(terms[x % terms.size()]);
      if (k < 3 || count++ % stride == 0) out.push_back(ref::A(p.name, a));
    }
  }
  for (size_t i = 0; s.eq && i + 1 < terms.size(); i++) out.push_back(ref::A("=", {terms[i], terms[i + 1]}));
  for (const Str& t : s.types) {
    for (const Str& x : terms) out.push_back(ref::A(t, {x}));
  }
  return out;
}

// Connectives of three to seven arguments, some of them connectives again;
// quantifiers over several variables; towers of up to seven connectives.
inline std::vector<F> WideForms(const Setting& s, const Vars& scope, size_t stride) {
  std::vector<F> out;
  size_t count = 0;
  auto emit = [&](F f) {
    if (count++ % stride == 0) out.push_back(std::move(f));
  };
  auto lits = [&](const std::vector<F>& at, size_t i, size_t step, size_t k, size_t signs) {
    std::vector<F> v;
    for (size_t j = 0; j < k; j++) {
      F a = at[(i + j * step) % at.size()];
      v.push_back(signs >> j & 1 ? ref::Not(std::move(a)) : std::move(a));
    }
    return v;
  };
  auto wide = [&](const Vars& sc, const std::function<F(F)>& wrap) {
    const std::vector<F> at = AllAtoms(s, sc, stride);
    if (at.empty()) return;
    for (const F& a : at) emit(wrap(a));
    for (const F& a : at) emit(wrap(ref::Not(a)));
    for (size_t k = 3; k <= 7; k++) {
      for (size_t i = 0; i < at.size(); i++) {
        const size_t step = 1 + (i + k) % 5;
        for (size_t signs : {size_t(0), i, ~i, (i * 5) ^ k}) {
          const std::vector<F> v = lits(at, i, step, k, signs);
          emit(wrap(ref::And(v)));
          emit(wrap(ref::Or(v)));
          // A connective (empty, single or wide) in each place.
          for (size_t j = 0; j < k; j += 1 + i % 3) {
            std::vector<F> n = v, m = v;
            n[j] = i & 1 ? ref::And(lits(at, i + 1, step, j % 4, signs))
                         : ref::Not(ref::Or(lits(at, i + 1, step, j % 4, signs)));
            emit(wrap(ref::Or(n)));
            m[j] = i & 1 ? ref::Or(lits(at, i + 1, step, j % 4, signs))
                         : ref::Not(ref::And(lits(at, i + 1, step, j % 4, signs)));
            emit(wrap(ref::And(m)));
          }
        }
      }
    }
  };
  wide(scope, [](F f) { return f; });
  for (const Vars& q : s.quants) {
    Vars in = scope;
    in.insert(in.end(), q.begin(), q.end());
    wide(in, [&](F f) { return ref::Ex(q, std::move(f)); });
    wide(in, [&](F f) { return ref::All(q, std::move(f)); });
    wide(in, [&](F f) { return ref::Not(ref::All(q, std::move(f))); });
  }
  // Towers.
  for (size_t code = 0; code < 729; code++) {
    Vars sc = scope;
    std::vector<std::function<F(F)>> w;
    size_t x = code;
    bool any = false;
    for (size_t level = 0; level < 6; level++, x /= 3) {
      const Vars q = s.quants.empty() ? Vars{} : s.quants[(level + code) % s.quants.size()];
      const std::vector<F> at = AllAtoms(s, sc, stride);
      if (x % 3 == 0 || q.empty() || at.empty()) {
        w.push_back([](F f) { return ref::Not(std::move(f)); });
      } else if (x % 3 == 1) {
        const F a = at[(code + level) % at.size()];
        if (code & 1) {
          w.push_back([a](F f) { return ref::And({a, std::move(f)}); });
        } else {
          w.push_back([a](F f) { return ref::Or({std::move(f), a}); });
        }
      } else {
        sc.insert(sc.end(), q.begin(), q.begin() + 1);
        const Vars one(q.begin(), q.begin() + 1);
        if ((code >> level) & 1) {
          w.push_back([one](F f) { return ref::All(one, std::move(f)); });
        } else {
          w.push_back([one](F f) { return ref::Ex(one, std::move(f)); });
        }
        any = true;
      }
    }
    (void)any;
    const std::vector<F> at = AllAtoms(s, sc, stride);
    if (at.empty()) continue;
    F f = at[code % at.size()];
    for (size_t i = w.size(); i-- > 0;) f = w[i](std::move(f));
    emit(std::move(f));
  }
  return out;
}

}  // namespace forms

#endif  // VERIF_FORMS_H_
