// C12: axiom closure yields a consistent state and changes nothing else.
#include "axioms.h"
#include "cond_axioms.h"
#include "bridge.h"

namespace {
using namespace H;
using ref::AxiomSystem;
using ref::AxiomVocab;

void One(const AxiomVocab& v, const std::vector<size_t>& idx, bool partial) {
  ref::Dom d = v.d;
  for (size_t i : idx) d.axioms.push_back(v.axioms[i]);
  const ref::World w(d);
  const AxiomSystem sys(w);
  if (sys.ill_typed) return;
  if (sys.oscillates()) {  // firing need not end: excluded
    R.extra["oscillating_sets"]++;
    return;
  }
  // The problem's own initial state must not make loading diverge.
  const auto init = sys.explore(0, 0, true);
  R.extra["model_states"] += init.nodes;
  const bool apply = init.unique();
  auto pddl = Load(d, apply);
  const Bridge br(w, *pddl);
  std::string set;
  auto show = [&] {
    for (size_t i : idx) set += ref::text(v.axioms[i], true) + "\n";
    return set;
  };
  CHECK(br.mask(pddl->initial_state()) == (apply ? *init.ends.begin() : 0), "initial state with " << show());
  for (Mask m : ref::StateMasks(w, 8)) {
    const State st = br.state(m);
    const bool valid = sys.valid(m);
    CHECK(pddl->IsValidState(st) == valid, w.show(m) << " should be reported "
                                                     << (valid ? "valid" : "invalid") << " with\n"
                                                     << show());
    R.states++;
    const auto o = m == 0 ? init : sys.explore(m, 0, true);
    R.extra["model_states"] += o.nodes;
    R.transitions += o.edges;
    if (o.cyclic) {
      R.extra["orders_without_end"]++;
      continue;
    }
    if (o.fails()) {
      CHECK(Throws([&] { pddl->ConsistentState(st); }), w.show(m) << " has no consistent state with\n" << show());
      R.extra["no_consistent_state"]++;
      continue;
    }
    if (o.error) continue;  // fails in some orders only
    const Mask got = br.mask(pddl->ConsistentState(st));
    CHECK(sys.valid(got), "closing " << w.show(m) << " gives " << w.show(got) << ", which is not consistent with\n"
                                     << show());
    CHECK(o.ends.count(got), "closing " << w.show(m) << " gives " << w.show(got)
                                        << ", which no firing order reaches, with\n"
                                        << show());
    if (o.unique()) R.extra["confluent"]++;
    if (valid) CHECK(got == m, "valid state changed");
    CHECK(br.mask(st) == m, "state changed");
    R.traces++;
  }
  if (!partial) return;
  std::vector<std::pair<Mask, Mask>> partials;
  if (w.bits() <= 8) {
    for (Mask pos = 0; pos <= w.full(); pos++) {
      const Mask rest = w.full() & ~pos;
      for (Mask neg = rest;; neg = (neg - 1) & rest) {
        partials.emplace_back(pos, neg);
        if (neg == 0) break;
      }
    }
  } else {
    const auto masks = ref::StateMasks(w, 8);
    for (size_t i = 0; i < masks.size(); i++) {
      for (size_t j = i % 7; j < masks.size(); j += 7) partials.emplace_back(masks[i], masks[j] & ~masks[i]);
    }
  }
  for (const auto& [pos, neg] : partials) {
    {
      const PartialState st = br.partial(pos, neg);
      Mask p = pos, q = neg;
      const bool ok = sys.forced(&p, &q);
      PartialState got;
      const bool threw = Throws([&] { got = pddl->ConsistentState(st); });
      R.transitions++;
      CHECK(threw == !ok, "closing the partial state " << w.show(pos) << " / not " << w.show(neg)
                                                       << (threw ? " fails" : " does not fail") << " with\n"
                                                       << show());
      CHECK(pddl->IsValidState(st) == ok, "validity of the partial state " << w.show(pos) << " / not "
                                                                           << w.show(neg) << " with\n"
                                                                           << show());
      if (ok) {
        CHECK(br.mask(got.pos()) == p && br.mask(got.neg()) == q,
              "closing the partial state " << w.show(pos) << " / not " << w.show(neg) << " gives "
                                           << w.show(br.mask(got.pos())) << " / not "
                                           << w.show(br.mask(got.neg())) << " instead of " << w.show(p)
                                           << " / not " << w.show(q) << " with\n"
                                           << show());
      }
      CHECK(br.mask(st.pos()) == pos && br.mask(st.neg()) == neg, "partial state changed");
      R.extra["partial_states"]++;
    }
  }
}

// Conditional axioms: on partial states an effect is forced once its condition
// is known, like a context.
// Partial states and validity; complete states where no literal leads to its
// own negation and every order of firing ends.
void Conditional(const ref::World& w, const std::vector<Ground>& rules, const Pddl& pddl, const std::string& set,
                 const std::vector<std::pair<Mask, Mask>>& partials, bool complete) {
  const Bridge br(w, pddl);
  auto bit = [](int l) { return Mask(1) << (std::abs(l) - 1); };
  const size_t n = 2 * w.bits();
  std::vector<std::vector<char>> reach(n, std::vector<char>(n, 0));
  for (const Ground& g : rules) {
    for (int e : g.eff) {
      reach[ref::lit_id(g.ctx)][ref::lit_id(e)] = 1;
      for (int c : g.cond) reach[ref::lit_id(c)][ref::lit_id(e)] = 1;
    }
  }
  for (size_t k = 0; k < n; k++) {
    for (size_t i = 0; i < n; i++) {
      for (size_t j = 0; j < n; j++) reach[i][j] |= reach[i][k] & reach[k][j];
    }
  }
  bool tame = true;
  for (size_t l = 0; l < n; l++) {
    tame &= !reach[l][l ^ 1];
    if (reach[l][l] && reach[l][l ^ 1]) {  // firing need not end: excluded
      R.extra["oscillating_sets"]++;
      return;
    }
  }
  for (const auto& [pos, neg] : partials) {
    Mask p = pos, q = neg;
    bool ok = true;
    auto known = [&](int l) { return ((l > 0 ? p : q) & bit(l)) != 0; };
    for (bool changed = true; changed && ok;) {
      changed = false;
      for (const Ground& g : rules) {
        if (!known(g.ctx) || !std::all_of(g.cond.begin(), g.cond.end(), known)) continue;
        for (int l : g.eff) {
          if (known(l)) continue;
          (l > 0 ? p : q) |= bit(l);
          changed = true;
        }
      }
      ok = (p & q) == 0;
    }
    const PartialState st = br.partial(pos, neg);
    PartialState got;
    const bool threw = Throws([&] { got = pddl.ConsistentState(st); });
    CHECK(threw == !ok, "closing the partial state " << w.show(pos) << " / not " << w.show(neg)
                                                     << (threw ? " fails" : " does not fail") << " with\n"
                                                     << set);
    CHECK(pddl.IsValidState(st) == ok,
          "validity of the partial state " << w.show(pos) << " / not " << w.show(neg) << " with\n" << set);
    if (ok) {
      CHECK(br.mask(got.pos()) == p && br.mask(got.neg()) == q,
            "closing the partial state " << w.show(pos) << " / not " << w.show(neg) << " gives "
                                         << w.show(br.mask(got.pos())) << " / not " << w.show(br.mask(got.neg()))
                                         << " instead of " << w.show(p) << " / not " << w.show(q) << " with\n"
                                         << set);
    }
    R.transitions++;
    R.extra["partial_states"]++;
  }
  if (!complete) return;
  auto enabled = [&](const Ground& g, Mask m) {
    auto holds = [&](int l) { return ref::lit_holds(l, m); };
    return holds(g.ctx) && std::all_of(g.cond.begin(), g.cond.end(), holds) &&
           !std::all_of(g.eff.begin(), g.eff.end(), holds);
  };
  // Ends reachable by firing one effect after the other; nothing if some order
  // never ends.
  std::map<Mask, std::optional<std::set<Mask>>> memo;
  std::set<Mask> open;
  std::function<std::optional<std::set<Mask>>(Mask)> ends = [&](Mask m) -> std::optional<std::set<Mask>> {
    const auto it = memo.find(m);
    if (it != memo.end()) return it->second;
    if (!open.insert(m).second) return {};
    std::optional<std::set<Mask>> out = std::set<Mask>();
    bool any = false;
    for (const Ground& g : rules) {
      if (!enabled(g, m)) continue;
      any = true;
      for (int l : g.eff) {
        if (ref::lit_holds(l, m)) continue;
        const auto x = ends(m ^ bit(l));
        if (!x) {
          out = {};
        } else if (out) {
          out->insert(x->begin(), x->end());
        }
      }
    }
    if (!any) out = std::set<Mask>{m};
    open.erase(m);
    memo[m] = out;
    return out;
  };
  for (Mask m = 0; m <= w.full(); m++) {
    const State st = br.state(m);
    const bool valid = std::none_of(rules.begin(), rules.end(), [&](const Ground& g) { return enabled(g, m); });
    CHECK(pddl.IsValidState(st) == valid,
          w.show(m) << " should be reported " << (valid ? "valid" : "invalid") << " with\n" << set);
    R.states++;
    if (!tame) continue;
    const auto o = ends(m);
    if (!o) {
      R.extra["orders_without_end"]++;
      continue;
    }
    const Mask got = br.mask(pddl.ConsistentState(st));
    CHECK(o->count(got),
          "closing " << w.show(m) << " gives " << w.show(got) << ", which no firing order reaches, with\n" << set);
    R.traces++;
  }
}

void Conditionals(const CondVocab& v, const std::vector<size_t>& idx) {
  ref::Dom d = v.d;
  std::string set;
  for (size_t i : idx) {
    d.axioms.push_back(v.op(v.rules[i]));
    set += ref::text(d.axioms.back(), true) + "\n";
  }
  const ref::World w(d);
  const std::vector<Ground> rules = GroundRules(v, idx, w);
  std::vector<std::pair<Mask, Mask>> partials;
  for (Mask pos = 0; pos <= w.full(); pos++) {
    const Mask rest = w.full() & ~pos;
    for (Mask neg = rest;; neg = (neg - 1) & rest) {
      partials.emplace_back(pos, neg);
      if (neg == 0) break;
    }
  }
  const auto pddl = Load(d, false);
  Conditional(w, rules, *pddl, set, partials, true);
}

// n propositions, each forced by the one before (as a context, or as the
// condition of an axiom that is always on, or all in one axiom), declared in several orders: closing
// takes one pass or as many as there are propositions.
void Chain(size_t n, int kind, size_t order) {
  const bool conditional = kind > 0;
  ref::Dom d;
  d.name = "chain";
  d.types_section = false;
  d.preds.push_back({"on", {}});
  for (size_t i = 0; i < n; i++) d.preds.push_back({"c" + std::to_string(i), {}});
  auto sign = [&](size_t i) { return i % 3 != 1; };
  auto lit = [&](size_t i) {
    const ref::F f = ref::A("c" + std::to_string(i));
    return sign(i) ? f : ref::Not(f);
  };
  auto eff = [&](size_t i) {
    return sign(i) ? ref::Add("c" + std::to_string(i)) : ref::Del("c" + std::to_string(i));
  };
  std::vector<size_t> links;
  for (size_t i = 0; i + 1 < n; i++) links.push_back(i);
  if (order == 1) std::reverse(links.begin(), links.end());
  if (order == 2) std::rotate(links.begin(), links.begin() + static_cast<long>(n / 2), links.end());
  for (size_t i : links) {
    ref::Op o;
    o.name = "axiom";
    o.pre = conditional ? ref::A("on") : lit(i);
    o.eff = conditional ? ref::When(lit(i), eff(i + 1)) : eff(i + 1);
    d.axioms.push_back(o);
  }
  if (kind == 2) {  // one axiom for the whole chain
    std::vector<ref::E> all;
    for (const ref::Op& o : d.axioms) all.push_back(o.eff);
    d.axioms.resize(1);
    d.axioms[0].eff = ref::Lst(all);
  }
  const ref::World w(d);
  auto ground = [&](size_t i) {
    const int b = w.bit_of.at(ref::ground_name("c" + std::to_string(i), {})) + 1;
    return sign(i) ? b : -b;
  };
  const int on = w.bit_of.at(ref::ground_name("on", {})) + 1;
  std::vector<Ground> rules;
  for (size_t i : links) {
    Ground g;
    g.ctx = conditional ? on : ground(i);
    if (conditional) g.cond = {ground(i)};
    g.eff = {ground(i + 1)};
    rules.push_back(g);
  }
  // From every link on, alone and with every other proposition contradicted.
  std::vector<std::pair<Mask, Mask>> partials;
  auto add = [&](const std::vector<int>& lits) {
    Mask p = 0, q = 0;
    for (int l : lits) (l > 0 ? p : q) |= Mask(1) << (std::abs(l) - 1);
    partials.emplace_back(p, q);
  };
  add({});
  for (size_t i = 0; i < n; i++) {
    add({ground(i)});
    add({on, ground(i)});
    for (size_t j = i % 7; j < n; j += 7) {
      if (i != j) add({on, ground(i), -ground(j)});
    }
  }
  const auto pddl = Load(d, false);
  Conditional(w, rules, *pddl, "a chain of " + std::to_string(n) + " propositions", partials, false);
  const Bridge br(w, *pddl);
  // The complete state in which nothing in the chain holds except link k.
  for (size_t k = 0; k < n; k++) {
    Mask m = Mask(1) << (on - 1);
    for (size_t i = 0; i < n; i++) {
      if (sign(i) == (i == k)) m |= Mask(1) << (std::abs(ground(i)) - 1);
    }
    Mask want = m;
    for (size_t i = k; i < n; i++) {
      const Mask b = Mask(1) << (std::abs(ground(i)) - 1);
      want = sign(i) ? want | b : want & ~b;
    }
    const Mask got = br.mask(pddl->ConsistentState(br.state(m)));
    CHECK(got == want, "closing " << w.show(m) << " gives " << w.show(got) << " in a chain of " << n);
    R.states++;
  }
}

}  // namespace

void H::Main() {
  R.case_cpu_s = 200;
  const bool t = R.thorough;
  for (size_t n : t ? std::vector<size_t>{2, 5, 17, 33, 51, 52, 60, 62} : std::vector<size_t>{5, 33, 62}) {
    for (size_t order = 0; order < 3; order++) {
      for (int c = 0; c < 3; c++) {
        R.kase([&] { return "chain of " + std::to_string(n) + ", order " + std::to_string(order); },
               [&] { Chain(n, c, order); });
      }
    }
  }
  static const CondVocab cv;
  const size_t nc = cv.rules.size(), stepc = t ? 7 : 199;
  for (size_t i = 0; i < nc; i++) {
    R.kase([&] { return "conditional: " + ref::text(cv.op(cv.rules[i]), true); },
           [&] {
             if (t || i % 2 == 0) Conditionals(cv, {i});
             for (size_t j = i % stepc; j < nc; j += stepc) {
               Conditionals(cv, {i, j});
               if (j % 5 == 0) Conditionals(cv, {j, (i + 3 * j + 1) % nc, i});
             }
           });
  }
  static const std::vector<ref::AxiomFamily> families = ref::AxiomFamilies(t);
  for (const auto& f : families) {
    for (size_t k = 0; k < f.sets.size(); k++) {
      R.kase(
          [&] {
            std::string x = f.v.name + ":";
            for (size_t i : f.sets[k]) x += "\n" + ref::text(f.v.axioms[i], true);
            return x;
          },
          [&] { One(f.v, f.sets[k], t || k % 3 == 0 || f.v.d.preds.size() < 8); });
    }
  }
  static const std::vector<AxiomVocab> vs = ref::AxiomVocabs();
  for (const AxiomVocab& v : vs) {
    const size_t n = v.axioms.size();
    R.kase([&] { return v.name + ": no axioms"; }, [&] { One(v, {}, true); });
    for (size_t i = 0; i < n; i++) {
      R.kase([&] { return v.name + ": " + ref::text(v.axioms[i], true); }, [&] { One(v, {i}, true); });
    }
    const size_t step2 = t ? 1 : 3, step3 = t ? 11 : 211;
    for (size_t i = 0; i < n; i++) {
      R.kase([&] { return v.name + ": pairs with " + ref::text(v.axioms[i], true); },
             [&] {
               for (size_t j = i % step2; j < n; j += step2) {
                 if (j != i) One(v, {i, j}, t || (i + j) % 4 == 0);
               }
             });
    }
    for (size_t i = 0; i < n; i++) {
      R.kase([&] { return v.name + ": triples with " + ref::text(v.axioms[i], true); },
             [&] {
               for (size_t x = i % step3; x < n * n; x += step3) {
                 const size_t j = x / n, k = x % n;
                 if (i != j && j != k && i != k) One(v, {i, j, k}, x % 4 == 0);
               }
             });
    }
    for (size_t i = 0; i < n; i++) {
      R.kase([&] { return v.name + ": larger sets from " + ref::text(v.axioms[i], true); },
             [&] {
               for (size_t s : {1, 3, 7, 13, 29}) {
                 One(v, {i, (i + s) % n, (i + 2 * s) % n, (i + 4 * s) % n, (i + 5 * s) % n}, s == 7);
               }
             });
    }
  }
}
