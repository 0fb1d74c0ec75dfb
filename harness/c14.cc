// C14: normalised conditions are logically equivalent to the originals.
#include "bridge.h"
#include "effs.h"
#include "normal.h"

namespace {
using namespace H;
using forms::Setting;

std::vector<Mask> States(const ref::World& w, size_t limit) {
  std::set<Mask> s = {0, w.full()};
  if (w.bits() <= limit) {
    for (Mask m = 0; m < w.full(); m++) s.insert(m);
  } else {
    for (size_t i = 0; i < w.bits(); i++) {
      for (size_t j = 0; j < w.bits(); j++) {
        s.insert(Mask(1) << i | Mask(1) << j);
        s.insert(w.full() & ~(Mask(1) << i | Mask(1) << j));
      }
    }
  }
  return {s.begin(), s.end()};
}

template <typename Truth>
void Compare(const Bridge& br, const std::vector<Mask>& masks, const std::optional<DisjunctiveFormula>& f,
             bool negated, const std::string& what, Truth truth) {
  const Dnf dnf(br, f, what);
  for (Mask m : masks) {
    R.transitions++;
    const bool want = truth(m) != negated;
    CHECK(dnf.eval(m) == want, what << " is " << !want << " in " << br.w.show(m)
                                    << (f.has_value() ? "" : " (no normal form)"));
  }
  R.extra["max_conjunctions"] = std::max<uint64_t>(R.extra["max_conjunctions"], dnf.conj.size());
}

std::string Chunk(const std::string& first, size_t b, size_t e) {
  return std::to_string(b) + ".." + std::to_string(e) + " (first: " + first + ")";
}

void Preconditions(const Setting& s, const std::vector<ref::F>& fs, size_t chunk, size_t limit, const char* tag) {
  for (size_t b = 0; b < fs.size(); b += chunk) {
    const size_t e = std::min(fs.size(), b + chunk);
    R.kase([&] { return "setting " + s.name + ": " + tag + " " + Chunk(ref::text(fs[b]), b, e); },
           [&] {
             ref::Dom d = s.d;
             for (size_t i = b; i < e; i++) {
               ref::Op op;
               op.name = "act" + std::to_string(i);
               op.params = s.params;
               op.pre = fs[i];
               d.actions.push_back(op);
             }
             const ref::World w(d);
             auto pddl = Load(d);
             const Bridge br(w, *pddl);
             const std::vector<Mask> masks = States(w, limit);
             const auto tuples = w.tuples(w.ranges(s.params));
             for (size_t i = b; i < e; i++) {
               const ref::COp c = w.compile(d.actions[i - b]);
               if (Estimate(c.pre).conj > 5000) {
                 R.extra["too_large"]++;
                 continue;
               }
               const Action& a = pddl->actions()[i - b];
               for (size_t k = 0; k < tuples.size(); k++) {
                 const auto& t = tuples[k];
                 const std::vector<Object> args = br.args(t);
                 ref::World::Env env = t;
                 const std::string what = "normal form of " + ref::text(fs[i]) + " with " + w.call("args", t);
                 auto truth = [&](Mask m) { return w.eval(c.pre, env, m); };
                 const auto f = DisjunctiveFormula::Create(*pddl, a.preconditions(), a.parameters(), args);
                 Compare(br, masks, f, false, what, truth);
                 if (f.has_value() && NegationCost(*f) < 20000) {
                   DisjunctiveFormula copy = *f;
                   Compare(br, masks, symbolic::Negate(*pddl, std::move(copy)), true, "negated " + what, truth);
                   R.extra["negations"]++;
                 }
                 const auto g = DisjunctiveFormula::NormalizePreconditions(*pddl, w.call(c.name, t));
                 CHECK(g.has_value() == f.has_value() && (!f.has_value() || *f == *g),
                       "NormalizePreconditions differs from Create: " << what);
                 const auto h = DisjunctiveFormula::NormalizeConditions(*pddl, w.call(c.name, t));
                 CHECK(h.has_value() == f.has_value(), "NormalizeConditions: " << what);
                 if (h.has_value()) {
                   CHECK(h->first == *f && h->second.empty(), "NormalizeConditions: " << what);
                 }
                 R.states++;
               }
               R.traces++;
             }
           });
  }
}

void Goals(const Setting& s, const std::vector<ref::F>& fs, size_t stride) {
  std::vector<ref::F> sub;
  for (size_t i = 0; i < fs.size(); i += stride) sub.push_back(fs[i]);
  for (size_t b = 0; b < sub.size(); b += 25) {
    const size_t e = std::min(sub.size(), b + 25);
    R.kase([&] { return "setting " + s.name + ": goals " + Chunk(ref::text(sub[b]), b, e); },
           [&] {
             for (size_t i = b; i < e; i++) {
               ref::Dom d = s.d;
               d.goal = sub[i];
               const ref::World w(d);
               const ref::CF c = w.compile(d.goal, {});
               if (Estimate(c).conj > 5000) continue;
               auto pddl = Load(d);
               const Bridge br(w, *pddl);
               ref::World::Env env;
               Compare(br, States(w, 7), DisjunctiveFormula::NormalizeGoal(*pddl), false,
                       "normal form of the goal " + ref::text(sub[i]), [&](Mask m) { return w.eval(c, env, m); });
               R.traces++;
             }
           });
  }
}

void Effects(const Setting& s, const std::vector<ref::E>& es, size_t chunk, const char* tag) {
  for (size_t b = 0; b < es.size(); b += chunk) {
    const size_t e = std::min(es.size(), b + chunk);
    R.kase([&] { return "setting " + s.name + ": " + tag + " " + Chunk(ref::text(es[b]), b, e); },
           [&] {
             ref::Dom d = s.d;
             for (size_t i = b; i < e; i++) {
               ref::Op op;
               op.name = "act" + std::to_string(i);
               op.params = s.params;
               op.eff = es[i];
               d.actions.push_back(op);
             }
             const ref::World w(d);
             auto pddl = Load(d);
             const Bridge br(w, *pddl);
             const std::vector<Mask> masks = States(w, 7);
             const auto tuples = w.tuples(w.ranges(s.params));
             for (size_t i = b; i < e; i++) {
               const ref::COp c = w.compile(d.actions[i - b]);
               const Action& a = pddl->actions()[i - b];
               for (const auto& t : tuples) {
                 const std::vector<Object> args = br.args(t);
                 ref::World::Env env = t;
                 const std::string what = "normal form of the effects " + ref::text(es[i]) + " with " + w.call("args", t);
                 std::optional<DisjunctiveFormula> f;
                 std::string error;
                 auto truth = [&](Mask m) { return Satisfied(w, c.eff, env, m); };
                 if (Throws([&] {
                       f = DisjunctiveFormula::Create(*pddl, a.postconditions(), a.parameters(), args);
                     }, &error)) {
                   // Rejecting effects that can never be satisfied is fine.
                   CHECK(error.find("Invalid condition") != std::string::npos, what << ": " << error);
                   for (Mask m : masks) CHECK(!truth(m), what << " is rejected: " << error);
                   R.extra["rejected"]++;
                   continue;
                 }
                 Compare(br, masks, f, false, what, truth);
                 const auto g = DisjunctiveFormula::NormalizePostconditions(*pddl, w.call(c.name, t));
                 CHECK(g.has_value() == f.has_value() && (!f.has_value() || *f == *g),
                       "NormalizePostconditions differs from Create: " << what);
                 const auto h = DisjunctiveFormula::NormalizeConditions(*pddl, w.call(c.name, t));
                 CHECK(h.has_value() == f.has_value(), "NormalizeConditions: " << what);
                 if (h.has_value()) {
                   CHECK(h->first.empty() && h->second == *f, "NormalizeConditions: " << what);
                 }
                 R.states++;
               }
               R.traces++;
             }
           });
  }
}

// The lines a normal form must print, each group as a set.
template <typename Groups>
std::string Printed(const Bridge& br, const char* outer, const char* inner, const Groups& groups) {
  std::string want = std::string("(") + outer + "\n";
  for (const auto& g : groups) {
    want += std::string("(") + inner + "\n";
    std::set<std::string> lines;
    for (const Proposition& p : g.pos()) lines.insert(br.Name(p));
    for (const Proposition& p : g.neg()) lines.insert("not " + br.Name(p));
    for (const auto& l : lines) want += l + "\n";
    want += ")\n";
  }
  return want + ")\n";
}
template <typename T>
std::string Print(const T& f) {
  std::ostringstream o;
  o << f;
  std::istringstream is(o.str());
  std::string out;
  std::set<std::string> lines;
  for (std::string line; std::getline(is, line);) {
    const size_t a = line.find_first_not_of(" \t");
    if (a == std::string::npos) continue;
    line = line.substr(a);
    if (line[0] != '(' && line[0] != ')') {
      lines.insert(line);
      continue;
    }
    for (const auto& l : lines) out += l + "\n";
    lines.clear();
    out += line + "\n";
  }
  return out;
}

// Conjunctions of disjunctions: every list of up to three clauses over three
// propositions, and every pair of clauses over four.
void Clauses(size_t atoms, size_t max_clauses) {
  const ref::Dom d = vocab::Flat();
  const std::vector<size_t> bits = {0, 1, 4, 6};
  size_t n = 1;
  for (size_t i = 0; i < atoms; i++) n *= 3;
  for (size_t first = 0; first < n; first++) {
    R.kase([&] { return "conjunctions of up to " + std::to_string(max_clauses) + " clauses over " +
                        std::to_string(atoms) + " propositions, the first is number " + std::to_string(first); },
           [&] {
             const ref::World w(d);
             auto pddl = Load(d);
             const Bridge br(w, *pddl);
             std::vector<PartialState> clause;
             std::vector<std::pair<Mask, Mask>> mask;
             for (size_t c = 0; c < n; c++) {
               Mask pos = 0, neg = 0;
               size_t x = c;
               for (size_t i = 0; i < atoms; i++, x /= 3) {
                 if (x % 3 == 1) pos |= Mask(1) << bits[i];
                 if (x % 3 == 2) neg |= Mask(1) << bits[i];
               }
               clause.push_back(br.partial(pos, neg));
               mask.push_back({pos, neg});
             }
             std::vector<Mask> states;
             for (size_t m = 0; m < (size_t(1) << atoms); m++) {
               Mask s = 0;
               for (size_t i = 0; i < atoms; i++) s |= Mask(m >> i & 1) << bits[i];
               states.push_back(s);
             }
             std::vector<size_t> list;
             std::function<void()> go = [&] {
               symbolic::ConjunctiveFormula cnf;
               for (size_t c : list) cnf.disjunctions.push_back(clause[c]);
               std::string what = "clauses";
               for (size_t c : list) what += " " + std::to_string(c);
               CHECK(Print(cnf) == Printed(br, "and", "or", cnf.disjunctions), what << " print as " << Print(cnf));
               auto truth = [&](Mask m) {
                 for (size_t c : list) {
                   if ((m & mask[c].first) == 0 && (~m & mask[c].second) == 0) return false;
                 }
                 return true;
               };
               const auto f = DisjunctiveFormula::Create(*pddl, std::move(cnf));
               Compare(br, states, f, false, what, truth);
               if (f.has_value()) {
                 CHECK(Print(*f) == Printed(br, "or", "and", f->conjunctions),
                       "normal form of " << what << " prints as " << Print(*f));
                 DisjunctiveFormula same = *f;
                 CHECK(same == *f, "copy of the normal form of " << what);
                 if (!same.empty()) {
                   same.conjunctions.pop_back();
                   CHECK(!(same == *f), "normal forms of different length are equal: " << what);
                   same = *f;
                   Compare(br, states, symbolic::Negate(*pddl, std::move(same)), true, "negated " + what, truth);
                 }
               }
               R.states++;
               if (list.size() == max_clauses) return;
               for (size_t c = 1; c < n; c++) {  // 0 is the clause without literals
                 list.push_back(c);
                 go();
                 list.pop_back();
               }
             };
             if (first > 0) {
               list.push_back(first);
               go();
             } else {
               const auto f = DisjunctiveFormula::Create(*pddl, symbolic::ConjunctiveFormula());
               Compare(br, states, f, false, "no clauses", [](Mask) { return true; });
             }
             R.traces++;
           });
  }
}

// Both conditions of an action at once.
void Both(const Setting& s, const std::vector<ref::F>& fs, const std::vector<ref::E>& es) {
  const size_t chunk = 40;
  for (size_t b = 0; b < fs.size(); b += chunk) {
    R.kase([&] { return "setting " + s.name + ": both conditions " + Chunk(ref::text(fs[b]), b, b + chunk); },
           [&] {
             ref::Dom d = s.d;
             for (size_t i = b; i < std::min(fs.size(), b + chunk); i++) {
               ref::Op op;
               op.name = "act" + std::to_string(i);
               op.params = s.params;
               op.pre = fs[i];
               op.eff = es[(i * 7) % es.size()];
               d.actions.push_back(op);
             }
             const ref::World w(d);
             auto pddl = Load(d);
             const Bridge br(w, *pddl);
             const std::vector<Mask> masks = States(w, 7);
             for (const ref::Op& op : d.actions) {
               const ref::COp c = w.compile(op);
               if (Estimate(c.pre).conj > 5000) continue;
               for (const auto& t : w.tuples(w.ranges(s.params))) {
                 const std::string call = w.call(op.name, t);
                 std::optional<DisjunctiveFormula> f, g;
                 std::optional<std::pair<DisjunctiveFormula, DisjunctiveFormula>> h;
                 f = DisjunctiveFormula::NormalizePreconditions(*pddl, call);
                 const bool threw = Throws([&] { g = DisjunctiveFormula::NormalizePostconditions(*pddl, call); });
                 const bool threw2 = Throws([&] { h = DisjunctiveFormula::NormalizeConditions(*pddl, call); });
                 CHECK(!threw2 || threw, "NormalizeConditions fails for " << ref::text(op));
                 if (threw2) continue;
                 CHECK(h.has_value() == (f.has_value() && g.has_value()),
                       "NormalizeConditions gives " << (h.has_value() ? "a" : "no") << " result for " << ref::text(op));
                 if (!h.has_value()) continue;
                 CHECK(h->first == *f && h->second == *g, "NormalizeConditions of " << ref::text(op));
                 ref::World::Env env = t;
                 Compare(br, masks, h->first, false, "the precondition of " + call,
                         [&](Mask m) { return w.eval(c.pre, env, m); });
                 Compare(br, masks, h->second, false, "the effects of " + call,
                         [&](Mask m) { return Satisfied(w, c.eff, env, m); });
                 R.states++;
               }
               R.traces++;
             }
           });
  }
}

}  // namespace

void H::Main() {
  const bool t = R.thorough;
  R.case_cpu_s = 300;
  static std::vector<Setting> settings = forms::Settings();
  for (const Setting& s : settings) {
    forms::Gen g(s);
    Preconditions(s, g.UpTo(3, s.params), 100, 7, "formulas up to 3 nodes");
    Preconditions(s, effs::Pick(g.Exactly(4, s.params), t ? 20000 : 800), 100, 7, "formulas of 4 nodes");
    Preconditions(s, effs::Pick(g.Prefixes(1, s.params, 1), t ? 10000 : 800), 50, 7, "prefix length 1");
    Preconditions(s, effs::Pick(g.Prefixes(2, s.params, 7), t ? 4000 : 300), 25, 7, "prefix length 2");
    Goals(s, g.UpTo(2, {}), t ? 1 : 2);
    Goals(s, g.Exactly(3, {}), t ? 3 : 17);
    Effects(s, effs::Pick(effs::Plain(s, s.params, 2), t ? 6000 : 800), 60, "unconditional effects");
    Effects(s, effs::Pick(effs::Conditional(s, s.params, t ? 4 : 1), t ? 8000 : 900), 60, "conditional effects");
    {
      // Conditions whose results cannot hold.
      std::vector<ref::E> es;
      const auto lits = effs::Literals(s, s.params);
      for (const ref::F& c : effs::Conditions(s, &g, s.params, t ? 60 : 14)) {
        for (size_t i = 0; i < lits.size(); i += 2) {
          const ref::E none = ref::When(c, ref::Lst({lits[i], lits[i + 1]}));
          es.push_back(none);
          es.push_back(ref::Lst({lits[(i + 2) % lits.size()], none}));
          es.push_back(ref::Lst({none, ref::When(ref::Not(c), lits[i])}));
          for (const ref::Vars& q : s.quants) es.push_back(ref::EAll(q, none));
        }
      }
      Effects(s, effs::Pick(es, t ? 4000 : 300), 60, "effects that cannot hold");
    }
    Preconditions(s, effs::Pick(forms::WideForms(s, s.params, 1), t ? 6000 : 400), 25, 7, "wide formulas");
    Goals(s, effs::Pick(forms::WideForms(s, {}, 1), t ? 1000 : 100), 1);
    Effects(s, effs::Pick(effs::WideEffects(s, s.params, 1, false), t ? 1000 : 150), 60, "wide effects");
  }
  {
    // Quantifiers over many objects.
    static Setting many;
    many.name = "many";
    many.d.name = "many";
    many.d.types = {{"t", ""}, {"u", "t"}};
    for (int i = 0; i < 6; i++) many.d.objs.push_back({std::string(1, static_cast<char>('a' + i)), i % 2 ? "u" : "t"});
    many.d.preds = {{"p", {{"x", "t"}}}, {"r", {{"x", "t"}, {"y", "t"}}}};
    many.params = {{"x", "u"}};
    std::vector<ref::F> fs;
    const std::vector<ref::F> one = {ref::A("p", {"?y"}), ref::Not(ref::A("p", {"?y"})), ref::A("r", {"?y", "?x"}),
                                     ref::Not(ref::A("r", {"?x", "?y"})), ref::A("u", {"?y"}), ref::A("=", {"?x", "?y"}),
                                     ref::Not(ref::A("=", {"?x", "?y"}))};
    const std::vector<ref::F> two = {ref::A("r", {"?y", "?z"}), ref::Not(ref::A("r", {"?z", "?y"})),
                                     ref::And({ref::A("p", {"?z"}), ref::A("r", {"?y", "?x"})}),
                                     ref::And({ref::A("r", {"?y", "?z"}), ref::Not(ref::A("=", {"?y", "?z"}))})};
    for (const char* ty : {"t", "u"}) {
      for (const auto& f : one) {
        for (bool all : {false, true}) {
          const ref::F q = all ? ref::All({{"y", ty}}, f) : ref::Ex({{"y", ty}}, f);
          fs.push_back(q);
          fs.push_back(ref::Not(q));
        }
      }
      for (const auto& f : two) {
        for (const char* tz : {"t", "u"}) {
          fs.push_back(ref::Ex({{"y", ty}, {"z", tz}}, f));
          fs.push_back(ref::Ex({{"y", ty}}, ref::Ex({{"z", tz}}, f)));
          if (f.k == ref::F::ATOM || f.k == ref::F::NOT) {
            fs.push_back(ref::All({{"y", ty}, {"z", tz}}, f));
            fs.push_back(ref::Not(ref::Ex({{"y", ty}, {"z", tz}}, f)));
            fs.push_back(ref::All({{"y", ty}}, ref::All({{"z", tz}}, f)));
          }
        }
      }
    }
    Preconditions(many, fs, 10, 7, "quantifiers over many objects");
    std::vector<ref::E> es;
    for (const char* ty : {"t", "u"}) {
      for (const char* tz : {"t", "u"}) {
        es.push_back(ref::EAll({{"y", ty}, {"z", tz}}, ref::Add("r", {"?y", "?z"})));
        es.push_back(ref::EAll({{"y", ty}}, ref::EAll({{"z", tz}}, ref::Del("r", {"?z", "?y"}))));
      }
      es.push_back(ref::EAll({{"y", ty}}, ref::Lst({ref::Add("p", {"?y"}), ref::Del("r", {"?y", "?x"}), ref::Del("r", {"?x", "?x"})})));
      es.push_back(ref::EAll({{"y", ty}}, ref::When(ref::A("p", {"?y"}), ref::Add("r", {"?y", "?x"}))));
    }
    Effects(many, es, 5, "effects over many objects");
    es.clear();
    static Setting several = many;
    several.name = several.d.name = "several";
    several.d.consts.swap(several.d.objs);
    // Several conditional effects and quantified effects side by side.
    const std::vector<ref::E> part = {
        ref::When(ref::A("p", {"a"}), ref::Add("p", {"b"})),
        ref::When(ref::A("p", {"c"}), ref::Del("p", {"b"})),
        ref::When(ref::A("r", {"?x", "?x"}), ref::Add("p", {"d"})),
        ref::When(ref::Not(ref::A("p", {"a"})), ref::Add("r", {"a", "b"})),
        ref::When(ref::A("p", {"e"}), ref::Del("r", {"?x", "f"})),
        ref::Add("p", {"f"}),
        ref::EAll({{"y", "u"}}, ref::Add("r", {"e", "?y"})),
        ref::EAll({{"y", "u"}}, ref::Del("r", {"?y", "c"})),
        ref::EAll({{"y", "u"}}, ref::Add("r", {"c", "c"}))};
    for (unsigned m = 1; m < (1u << part.size()); m++) {
      if (__builtin_popcount(m) > 5) continue;
      std::vector<ref::E> list;
      for (size_t i = 0; i < part.size(); i++) {
        if (m >> i & 1) list.push_back(part[i]);
      }
      es.push_back(ref::Lst(list));
    }
    Effects(several, es, 20, "several effects");
  }
  Clauses(3, t ? 4 : 3);
  Clauses(4, t ? 3 : 2);
  for (const Setting& s : settings) {
    forms::Gen g(s);
    Both(s, effs::Pick(g.UpTo(3, s.params), t ? 8000 : 800), effs::Pick(effs::Plain(s, s.params, 2), 501));
  }
  static const Setting wide = forms::WideSetting();
  Preconditions(wide, effs::Pick(forms::WideForms(wide, wide.params, 7), t ? 3000 : 300), 25, 7, "wide formulas");
  Preconditions(wide, forms::AllAtoms(wide, wide.params, 1), 60, 7, "atoms");
  Effects(wide, effs::Pick(effs::WideEffects(wide, wide.params, 7, false), t ? 1000 : 150), 60, "wide effects");
}
