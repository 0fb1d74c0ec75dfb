// C27: axioms as constraints: consistency checks, single axioms, and normal
// forms with axioms.
#include "axioms.h"
#include "effs.h"
#include "normal.h"

namespace {
using namespace H;
using forms::Setting;
using ref::AxiomSystem;
using ref::AxiomVocab;
using symbolic::Axiom;

// Formulas and effects over a vocabulary.
struct Menu {
  Setting s;
  std::vector<ref::F> forms, goals;
  std::vector<ref::E> effects;
};

Menu MakeMenu(const AxiomVocab& v, bool t) {
  Menu m;
  m.s.name = v.name;
  m.s.d = v.d;
  m.s.eq = !v.d.types.empty();
  for (const auto& c : v.d.consts) m.s.consts.push_back(c.first);
  if (m.s.consts.size() > 1) m.s.consts.resize(1);
  if (!v.d.types.empty()) {
    m.s.params = {{"x", v.d.types[0].first}};
    m.s.quants = {{{"z", v.d.types.back().first}}, {{"z", v.d.types[0].first}}};
    if (v.name == "typed") m.s.types = {"u"};
  }
  forms::Gen g(m.s);
  auto add = [](auto* to, auto from) { to->insert(to->end(), from.begin(), from.end()); };
  const size_t k = t ? 4 : 1;
  add(&m.forms, g.UpTo(2, m.s.params));
  add(&m.forms, effs::Pick(g.Exactly(3, m.s.params), 80 * k, 7));
  add(&m.forms, effs::Pick(g.Exactly(4, m.s.params), 60 * k, 5));
  add(&m.forms, effs::Pick(g.Exactly(5, m.s.params), 60 * k, 11));
  add(&m.forms, effs::Pick(forms::WideForms(m.s, m.s.params, 1), 40 * k, 3));
  add(&m.goals, effs::Pick(g.UpTo(3, {}), 40 * k, 1));
  add(&m.goals, effs::Pick(forms::WideForms(m.s, {}, 1), 20 * k, 2));
  add(&m.effects, effs::Pick(effs::Plain(m.s, m.s.params, 2), 60 * k, 3));
  add(&m.effects, effs::Pick(effs::Conditional(m.s, m.s.params, 1), 60 * k, 5));
  add(&m.effects, effs::Pick(effs::WideEffects(m.s, m.s.params, 1, false), 20 * k, 1));
  return m;
}

// A conjunction as (positive, negative), only if all literals are propositions
// of the universe.
using Cube = std::pair<Mask, Mask>;

struct Run {
  const ref::World& w;
  const AxiomSystem& sys;
  const Bridge& br;
  const Pddl& pddl;
  std::vector<Mask> masks;  // consistent states
  std::string set;

  // The normal form with axioms, against the truth in consistent states.
  template <typename Truth>
  void Equivalent(const std::optional<DisjunctiveFormula>& f, const std::string& what, Truth truth) const {
    const Dnf dnf(br, f, what);
    for (Mask m : masks) {
      R.transitions++;
      CHECK(dnf.eval(m) == truth(m), what << " is " << dnf.eval(m) << " in the consistent state " << w.show(m)
                                          << " with\n"
                                          << set);
    }
  }
  // No conjunction contradicts the axioms.
  void Possible(const std::optional<DisjunctiveFormula>& f, const std::string& what) const {
    if (!f.has_value()) return;
    for (const auto& c : f->conjunctions) {
      Cube k = Masks(c);
      CHECK(sys.forced(&k.first, &k.second), what << " has a conjunction that contradicts the axioms\n" << set);
    }
  }
  // Literals that do not depend on the state: equalities and types.
  static std::set<std::string> Fixed(const Bridge& br, const DisjunctiveFormula::Conjunction& c) {
    std::set<std::string> out;
    for (const Proposition& p : c.pos()) {
      if (!br.bit.count(Bridge::Name(p))) out.insert(Bridge::Name(p));
    }
    for (const Proposition& p : c.neg()) {
      if (!br.bit.count(Bridge::Name(p))) out.insert("not " + Bridge::Name(p));
    }
    return out;
  }
  Cube Masks(const DisjunctiveFormula::Conjunction& c) const {
    Cube k{0, 0};
    for (const Proposition& p : c.pos()) {
      auto it = br.bit.find(Bridge::Name(p));
      if (it != br.bit.end()) k.first |= Mask(1) << it->second;
    }
    for (const Proposition& p : c.neg()) {
      auto it = br.bit.find(Bridge::Name(p));
      if (it != br.bit.end()) k.second |= Mask(1) << it->second;
    }
    return k;
  }
  using Key = std::pair<Cube, std::set<std::string>>;
  std::set<Key> Keys(const DisjunctiveFormula& f) const {
    std::set<Key> out;
    for (const auto& c : f.conjunctions) out.insert({Masks(c), Fixed(br, c)});
    return out;
  }
  // Normalising with axioms (the result of call) against normalising without.
  // A normal form made without axioms is not concerned with them: equivalent in
  // every state.
  template <typename Truth>
  void Plain(const std::optional<DisjunctiveFormula>& f, const std::string& what, Truth truth) const {
    const Dnf dnf(br, f, what);
    for (Mask m : ref::StateMasks(w, 6)) {
      R.transitions++;
      CHECK(dnf.eval(m) == truth(m), "without axioms, " << what << " is " << dnf.eval(m) << " in " << w.show(m)
                                                       << " with\n"
                                                       << set);
    }
  }
  static bool Same(const std::optional<DisjunctiveFormula>& f, const std::optional<DisjunctiveFormula>& g) {
    return f.has_value() == g.has_value() && (!f.has_value() || *f == *g);
  }
  template <typename Call, typename Truth>
  void Closed(const std::optional<DisjunctiveFormula>& plain, const std::string& what, Call call, Truth truth) const {
    std::optional<DisjunctiveFormula> f;
    std::string error;
    bool possible = true;
    std::set<Key> want;
    if (plain.has_value()) {
      for (const Key& k : Keys(*plain)) {
        Key c = k;
        if (!sys.forced(&c.first.first, &c.first.second)) possible = false;
        want.insert(c);
      }
    }
    if (Throws([&] { f = call(); }, &error)) {
      CHECK(!possible, what << ": " << error << " with\n" << set);
      R.extra["contradictory_forms"]++;
      return;
    }
    CHECK(f.has_value() || !plain.has_value() || !possible, what << " has no normal form with\n" << set);
    Equivalent(f, what, truth);
    if (possible && f.has_value()) {
      CHECK(plain.has_value() && Keys(*f) == want, what << ": a conjunction is not completed by the axioms\n" << set);
    }
  }
};

void Single(const Run& r, const ref::Dom& d) {
  // Each axiom alone: its own instances.
  for (size_t a = 0; a < d.axioms.size(); a++) {
    ref::Dom one = d;
    one.axioms = {d.axioms[a]};
    one.actions.clear();
    const ref::World w1(one);
    const AxiomSystem s1(w1);
    const Axiom& ax = *r.pddl.axioms()[a];
    const std::string name = ref::text(d.axioms[a], true);
    for (Mask m : ref::StateMasks(r.w, 8)) {
      const State st = r.br.state(m);
      const bool valid = s1.valid(m);
      CHECK(ax.IsConsistent(st) == valid, r.w.show(m) << " should be " << (valid ? "" : "in") << "consistent with "
                                                      << name);
      CHECK(r.br.mask(st) == m, "state changed by a consistency check of " << name);
      R.transitions++;
    }
    const Mask full = r.w.full();
    if (r.w.bits() > 8) continue;
    for (Mask pos = 0; pos <= full; pos++) {
      const Mask rest = full & ~pos;
      for (Mask neg = rest;; neg = (neg - 1) & rest) {
        Mask p = pos, q = neg;
        const bool ok = s1.forced(&p, &q);
        const PartialState st = r.br.partial(pos, neg);
        // The axiom's consequences may in turn trigger the others.
        Mask p2 = pos, q2 = neg;
        if (!ok || r.sys.forced(&p2, &q2)) {
          CHECK(ax.IsConsistent(st) == ok, r.w.show(pos) << " / not " << r.w.show(neg) << " should be "
                                                         << (ok ? "" : "in") << "consistent with " << name);
        }
        R.transitions++;
        if (neg == 0) break;
      }
    }
  }
  // All of them, in the order given.
  const Mask full = r.w.full();
  if (r.w.bits() > 8) return;
  std::vector<std::shared_ptr<Axiom>> rev(r.pddl.axioms().rbegin(), r.pddl.axioms().rend());
  for (Mask pos = 0; pos <= full; pos++) {
    const Mask rest = full & ~pos;
    for (Mask neg = rest;; neg = (neg - 1) & rest) {
      Mask p = pos, q = neg;
      const bool ok = r.sys.forced(&p, &q);
      const PartialState st = r.br.partial(pos, neg);
      CHECK(Axiom::IsConsistent(r.pddl.axioms(), st) == ok && Axiom::IsConsistent(rev, st) == ok,
            r.w.show(pos) << " / not " << r.w.show(neg) << " should be " << (ok ? "" : "in") << "consistent with\n"
                          << r.set);
      R.transitions++;
      if (neg == 0) break;
    }
  }
}

// One pass of a single axiom over a state.
void Passes(const Run& r, const ref::Dom& d) {
  if (r.sys.contradictory() || d.axioms.size() != 1) return;
  const Axiom& ax = *r.pddl.axioms()[0];
  for (Mask m : ref::StateMasks(r.w, 8)) {
    const State st = r.br.state(m);
    const auto o = r.sys.explore(m, 0, true);
    if (!o.unique()) continue;
    State s = st;
    const bool changed = ax.Apply(&s);
    CHECK(changed == !r.sys.valid(m), "Apply() returns " << changed << " in " << r.w.show(m) << " with\n" << r.set);
    CHECK((r.br.mask(s) != m) == changed, "Apply() returns " << changed << " but takes " << r.w.show(m) << " to "
                                                             << r.w.show(r.br.mask(s)) << " with\n"
                                                             << r.set);
    CHECK(r.br.mask(ax.Apply(st)) == r.br.mask(s), "the two forms of Apply() differ in " << r.w.show(m));
    CHECK(r.br.mask(st) == m, "state changed");
    for (size_t i = 0; changed && ax.Apply(&s); i++) CHECK(i < 100, "Apply() never settles with\n" << r.set);
    CHECK(r.br.mask(s) == *o.ends.begin(), "repeated Apply() takes " << r.w.show(m) << " to "
                                                                     << r.w.show(r.br.mask(s)) << " with\n"
                                                                     << r.set);
    R.transitions++;
  }
  if (r.w.bits() > 7) return;
  const Mask full = r.w.full();
  for (Mask pos = 0; pos <= full; pos++) {
    const Mask rest = full & ~pos;
    for (Mask neg = rest;; neg = (neg - 1) & rest) {
      Mask p = pos, q = neg;
      if (r.sys.forced(&p, &q)) {
        PartialState s = r.br.partial(pos, neg);
        const PartialState before = s;
        int changed = ax.Apply(&s);
        const bool more = p != pos || q != neg;
        CHECK(changed == (more ? 1 : 0), "Apply() returns " << changed << " in " << r.w.show(pos) << " / not "
                                                            << r.w.show(neg) << " with\n"
                                                            << r.set);
        const PartialState copy = ax.Apply(before);
        CHECK(r.br.mask(copy.pos()) == r.br.mask(s.pos()) && r.br.mask(copy.neg()) == r.br.mask(s.neg()),
              "the two forms of Apply() differ");
        for (size_t i = 0; changed > 0; i++) {
          CHECK(i < 100, "Apply() never settles with\n" << r.set);
          changed = ax.Apply(&s);
        }
        CHECK(r.br.mask(s.pos()) == p && r.br.mask(s.neg()) == q,
              "repeated Apply() takes " << r.w.show(pos) << " / not " << r.w.show(neg) << " to "
                                        << r.w.show(r.br.mask(s.pos())) << " / not " << r.w.show(r.br.mask(s.neg()))
                                        << " with\n"
                                        << r.set);
        R.transitions++;
      }
      if (neg == 0) break;
    }
  }
}

bool Connective(const ref::F& f) { return f.k != ref::F::ATOM && f.k != ref::F::NOT; }

void One(const AxiomVocab& v, const Menu& menu, const std::vector<size_t>& idx, size_t share, size_t salt, bool checks) {
  ref::Dom d = v.d;
  for (size_t i : idx) d.axioms.push_back(v.axioms[i]);
  std::vector<ref::F> fs;
  std::vector<ref::E> es;
  for (size_t i = salt % share; i < menu.forms.size(); i += share) fs.push_back(menu.forms[i]);
  for (size_t i = salt % share; i < menu.effects.size(); i += share) es.push_back(menu.effects[i]);
  for (size_t i = 0; i < fs.size(); i++) {
    ref::Op op;
    op.name = "pre" + std::to_string(i);
    op.params = menu.s.params;
    op.pre = fs[i];
    d.actions.push_back(op);
  }
  for (size_t i = 0; i < es.size(); i++) {
    ref::Op op;
    op.name = "eff" + std::to_string(i);
    op.params = menu.s.params;
    op.eff = es[i];
    d.actions.push_back(op);
  }
  d.goal = menu.goals[salt % menu.goals.size()];
  const ref::World w(d);
  const AxiomSystem sys(w);
  if (sys.ill_typed || sys.oscillates()) return;
  auto pddl = Load(d, false);
  const Bridge br(w, *pddl);
  Run r{w, sys, br, *pddl, {}, ""};
  for (size_t i : idx) r.set += ref::text(v.axioms[i], true) + "\n";
  for (Mask m : ref::StateMasks(w, 8)) {
    if (sys.valid(m)) r.masks.push_back(m);
  }
  R.states += r.masks.size();
  if (checks) {
    Single(r, d);
    Passes(r, d);
  }
  ref::World::Env env;
  const ref::CF goal = w.compile(d.goal, {});
  if (Estimate(goal).conj <= 500) {
    auto truth = [&](Mask m) { return w.eval(goal, env, m); };
    const std::string what = "the goal " + ref::text(d.goal);
    const auto plain = DisjunctiveFormula::NormalizeGoal(*pddl);
    r.Plain(plain, "the normal form of " + what, truth);
    CHECK(r.Same(plain, DisjunctiveFormula::Create(*pddl, pddl->goal(), {}, {})) &&
              r.Same(plain, DisjunctiveFormula::Create(*pddl, pddl->goal().symbol(), {}, {})),
          "NormalizeGoal differs from Create for " << what);
    r.Closed(plain, what, [&] { return DisjunctiveFormula::NormalizeGoal(*pddl, true); }, truth);
    const auto with = DisjunctiveFormula::Create(*pddl, pddl->goal(), {}, {}, true);
    r.Equivalent(with, "normal form of " + what, truth);
    if (Connective(d.goal)) r.Possible(with, "normal form of " + what);
  }
  const auto tuples = w.tuples(w.ranges(menu.s.params));
  for (size_t i = 0; i < d.actions.size(); i++) {
    const bool is_pre = i < fs.size();
    const ref::COp c = w.compile(d.actions[i]);
    if (is_pre && Estimate(c.pre).conj > 500) continue;
    const Action& a = pddl->actions()[i];
    for (const auto& t : tuples) {
      env = t;
      const std::string call = w.call(c.name, t);
      const std::string what =
          (is_pre ? "normal form of " + ref::text(fs[i]) : "normal form of the effects " + ref::text(es[i - fs.size()])) +
          " with " + w.call("args", t);
      auto truth = [&](Mask m) { return is_pre ? w.eval(c.pre, env, m) : Satisfied(w, c.eff, env, m); };
      std::optional<DisjunctiveFormula> plain, with;
      std::string error;
      const auto args = br.args(t);
      if (Throws([&] {
            plain = is_pre ? DisjunctiveFormula::NormalizePreconditions(*pddl, call)
                           : DisjunctiveFormula::NormalizePostconditions(*pddl, call);
          }, &error)) {
        CHECK(!is_pre && error.find("Invalid condition") != std::string::npos, what << ": " << error);
        continue;  // C14
      }
      r.Plain(plain, what, truth);
      const auto made = is_pre ? DisjunctiveFormula::Create(*pddl, a.preconditions(), a.parameters(), args)
                               : DisjunctiveFormula::Create(*pddl, a.postconditions(), a.parameters(), args);
      CHECK(r.Same(plain, made), "Normalize... differs from Create for " << what);
      if (plain.has_value()) {
        const auto direct = is_pre ? DisjunctiveFormula(*pddl, a.preconditions(), a.parameters(), args)
                                   : DisjunctiveFormula(*pddl, a.postconditions(), a.parameters(), args);
        CHECK(direct == *plain, "the constructor differs from Create for " << what);
      }
      if (Throws([&] {
            with = is_pre ? DisjunctiveFormula::Create(*pddl, a.preconditions(), a.parameters(), args, true)
                          : DisjunctiveFormula::Create(*pddl, a.postconditions(), a.parameters(), args, true);
          }, &error)) {
        CHECK(!is_pre && error.find("Invalid condition") != std::string::npos, what << ": " << error);
        for (Mask m : r.masks) CHECK(!truth(m), what << " is rejected: " << error << " with\n" << r.set);
      } else {
        r.Equivalent(with, what, truth);
        if (!is_pre || Connective(fs[i])) r.Possible(with, what);
      }
      r.Closed(plain, what, [&] {
        return is_pre ? DisjunctiveFormula::NormalizePreconditions(*pddl, call, true)
                      : DisjunctiveFormula::NormalizePostconditions(*pddl, call, true);
      }, truth);
      r.Closed(plain, what + " (of both conditions)", [&]() -> std::optional<DisjunctiveFormula> {
        auto both = DisjunctiveFormula::NormalizeConditions(*pddl, call, true);
        if (!both.has_value()) return {};
        CHECK((is_pre ? both->second : both->first).empty(), "the other condition of " << what);
        return is_pre ? both->first : both->second;
      }, truth);
      R.traces++;
    }
  }
}

std::string Title(const AxiomVocab& v, const std::vector<size_t>& s) {
  std::string x = v.name + ":";
  for (size_t i : s) x += "\n" + ref::text(v.axioms[i], true);
  return x;
}

}  // namespace

void H::Main() {
  R.case_cpu_s = 300;
  const bool t = R.thorough;
  static const std::vector<AxiomVocab> vs = ref::AxiomVocabs();
  for (const AxiomVocab& v : vs) {
    auto menu = std::make_shared<Menu>(MakeMenu(v, t));
    const size_t n = v.axioms.size();
    for (size_t i = 0; i < n; i++) {
      R.kase([&] { return Title(v, {i}); }, [&] { One(v, *menu, {i}, t ? 2 : 6, i, true); });
    }
    const size_t step2 = t ? 1 : 5, step3 = t ? 53 : 997;
    for (size_t i = 0; i < n; i++) {
      R.kase([&] { return v.name + ": pairs with " + ref::text(v.axioms[i], true); },
             [&] {
               for (size_t j = i % step2; j < n; j += step2) {
                 if (j != i) One(v, *menu, {i, j}, t ? 8 : 40, i * n + j, (i + j) % (t ? 2 : 9) == 0);
               }
             });
      R.kase([&] { return v.name + ": triples with " + ref::text(v.axioms[i], true); },
             [&] {
               for (size_t x = i % step3; x < n * n; x += step3) {
                 const size_t j = x / n, k = x % n;
                 if (i != j && j != k && i != k) One(v, *menu, {i, j, k}, t ? 8 : 20, x, x % 3 == 0);
               }
             });
    }
  }
  static const std::vector<ref::AxiomFamily> families = ref::AxiomFamilies(t);
  for (const auto& f : families) {
    auto menu = std::make_shared<Menu>(MakeMenu(f.v, t));
    for (size_t k = 0; k < f.sets.size(); k++) {
      R.kase([&] { return Title(f.v, f.sets[k]); }, [&] { One(f.v, *menu, f.sets[k], t ? 3 : 10, k, k % 3 == 0 || t); });
    }
  }
}
