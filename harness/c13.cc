// C13: actions trigger exactly the axioms their effects enable.
#include "axiom_actions.h"
#include "bridge.h"
#include "cond_axioms.h"

namespace {
using namespace H;
using ref::AxiomSystem;
using ref::AxiomVocab;

std::vector<ref::Op> WithConditional(const AxiomVocab& v, size_t stride) {
  std::vector<ref::Op> acts = ref::AxiomActions(v, stride);
  for (const ref::Op& o : ref::ConditionalActions(v, stride * (R.thorough ? 7 : 11))) acts.push_back(o);
  return acts;
}

void One(const AxiomVocab& v, const std::vector<ref::Op>& actions, const std::vector<size_t>& idx) {
  ref::Dom d = v.d;
  for (size_t i : idx) d.axioms.push_back(v.axioms[i]);
  d.actions = actions;
  const ref::World w(d);
  const AxiomSystem sys(w);
  if (sys.ill_typed || sys.oscillates()) {
    R.extra["excluded_sets"]++;
    return;
  }
  auto pddl = Load(d, false);
  const Bridge br(w, *pddl);
  const std::vector<Mask> masks = ref::StateMasks(w, 8);
  std::vector<State> states;
  for (Mask m : masks) states.push_back(br.state(m));
  for (size_t k = 0; k < d.actions.size(); k++) {
    const ref::COp c = w.compile(d.actions[k]);
    const Action& a = pddl->actions()[k];
    for (const auto& t : w.tuples(c.ranges)) {
      const std::vector<Object> args = br.args(t);
      const std::string call = w.call(c.name, t);
      for (size_t j = 0; j < masks.size(); j++) {
        const Mask m = masks[j];
        const auto ch = w.change(c, t, m);
        if (ch.ill_typed || ch.error) continue;
        const ref::Bag pending = ref::bag_of(ch.seq);
        const auto o = sys.explore(m, pending, false);
        R.extra["model_states"] += o.nodes;
        R.transitions += o.edges;
        R.states++;
        auto what = [&] {
          std::string s;
          for (size_t i : idx) s += ref::text(v.axioms[i], true) + "\n";
          return ref::text(d.actions[k].eff) + " " + call + " in " + w.show(m) + " with\n" + s;
        };
        if (o.fails()) {
          CHECK(Throws([&] { a.Apply(states[j], args); }), "not rejected: " << what());
          continue;
        }
        if (o.error || o.cyclic) continue;
        const Mask got = br.mask(a.Apply(states[j], args));
        CHECK(o.ends.count(got), "gives " << w.show(got) << ", which no order of firing gives (one gives "
                                          << w.show(*o.ends.begin()) << "): " << what());
        R.traces++;
        if (o.unique()) R.extra["one_outcome"]++;
        if ((m + k) % 5 == 0) {
          const State next = pddl->NextState(states[j], call);
          CHECK(br.mask(next) == got, "NextState: " << what());
          State in_place = states[j];
          a.Apply(args, &in_place);
          CHECK(in_place == next, "in place: " << what());
        }
        CHECK(states[j].size() == static_cast<size_t>(__builtin_popcountll(m)), "state changed: " << what());
      }
    }
  }
}

// Actions with axioms whose implications have conditions, which are read when
// the axiom is applied.  All orders of elementary changes and of axioms are
// explored.
struct CondOrders {
  const std::vector<Ground>& rules;
  // Pending elementary changes +-(bit+1) and rules 1000 + i.
  using Node = std::pair<Mask, std::vector<int>>;
  std::set<Node> seen;
  std::set<Mask> ends;
  bool too_many = false;
  void go(const Node& n) {
    if (too_many || !seen.insert(n).second) return;
    if (seen.size() > 20000) {
      too_many = true;
      return;
    }
    if (n.second.empty()) {
      ends.insert(n.first);
      return;
    }
    for (size_t k = 0; k < n.second.size(); k++) {
      if (k > 0 && n.second[k] == n.second[k - 1]) continue;
      Node x = n;
      const int item = n.second[k];
      x.second.erase(x.second.begin() + static_cast<long>(k));
      if (item >= 1000) {
        const Ground& g = rules[static_cast<size_t>(item - 1000)];
        if (std::all_of(g.cond.begin(), g.cond.end(), [&](int l) { return ref::lit_holds(l, n.first); })) {
          x.second.insert(x.second.end(), g.eff.begin(), g.eff.end());
        }
      } else if (!ref::lit_holds(item, n.first)) {
        x.first ^= Mask(1) << (std::abs(item) - 1);
        for (size_t i = 0; i < rules.size(); i++) {
          if (rules[i].ctx == item) x.second.push_back(1000 + static_cast<int>(i));
        }
      }
      std::sort(x.second.begin(), x.second.end());
      go(x);
    }
  }
};

void Conditionals(const CondVocab& v, const std::vector<size_t>& idx, const std::vector<ref::Op>& actions) {
  ref::Dom d = v.d;
  std::string set;
  for (size_t i : idx) {
    d.axioms.push_back(v.op(v.rules[i]));
    set += ref::text(d.axioms.back(), true) + "\n";
  }
  d.actions = actions;
  const ref::World w(d);
  const std::vector<Ground> rules = GroundRules(v, idx, w);
  const size_t n = 2 * w.bits();
  std::vector<std::vector<char>> reach(n, std::vector<char>(n, 0));
  for (const Ground& g : rules) {
    for (int e : g.eff) reach[ref::lit_id(g.ctx)][ref::lit_id(e)] = 1;
  }
  for (size_t k = 0; k < n; k++) {
    for (size_t i = 0; i < n; i++) {
      for (size_t j = 0; j < n; j++) reach[i][j] |= reach[i][k] & reach[k][j];
    }
  }
  for (size_t l = 0; l < n; l++) {
    if (reach[l][l] && reach[l][l ^ 1]) {  // firing need not end: excluded
      R.extra["excluded_sets"]++;
      return;
    }
  }
  const auto pddl = Load(d, false);
  const Bridge br(w, *pddl);
  std::vector<State> states;
  for (Mask m = 0; m <= w.full(); m++) states.push_back(br.state(m));
  for (size_t k = 0; k < d.actions.size(); k++) {
    const ref::COp c = w.compile(d.actions[k]);
    const Action& a = pddl->actions()[k];
    for (const auto& t : w.tuples(c.ranges)) {
      const std::vector<Object> args = br.args(t);
      for (Mask m = 0; m <= w.full(); m++) {
        const auto ch = w.change(c, t, m);
        CondOrders o{rules, {}, {}, false};
        std::vector<int> pending = ch.seq;
        std::sort(pending.begin(), pending.end());
        o.go({m, pending});
        R.states++;
        R.transitions += o.seen.size();
        if (o.too_many) {
          R.extra["too_many_orders"]++;
          continue;
        }
        const Mask got = br.mask(a.Apply(states[m], args));
        CHECK(o.ends.count(got), w.call(c.name, t) << " " << ref::text(d.actions[k].eff) << " in " << w.show(m)
                                                   << " gives " << w.show(got)
                                                   << ", which no order of firing gives (one gives "
                                                   << w.show(*o.ends.begin()) << "), with\n" << set);
        if (o.ends.size() == 1) R.extra["one_outcome"]++;
        R.traces++;
      }
    }
  }
}

}  // namespace

void H::Main() {
  R.case_cpu_s = 200;
  const bool t = R.thorough;
  static const CondVocab cv;
  static const std::vector<ref::Op> cond_acts = [] {
    AxiomVocab v;
    v.d = cv.d;
    std::vector<ref::Op> acts = ref::AxiomActions(v, 3);
    for (const ref::Op& o : ref::ConditionalActions(v, 5)) acts.push_back(o);
    return acts;
  }();
  for (size_t i = 0; i < cv.rules.size(); i++) {
    R.kase([&] { return "conditional: " + ref::text(cv.op(cv.rules[i]), true); },
           [&] {
             const size_t n = cv.rules.size(), step = t ? 29 : 271;
             Conditionals(cv, {i}, cond_acts);
             for (size_t j = i % step; j < n; j += step) {
               Conditionals(cv, {j, i}, cond_acts);
               if (t || j % 2 == 0) Conditionals(cv, {i, (i + 3 * j + 1) % n, j}, cond_acts);
             }
           });
  }
  static const std::vector<ref::AxiomFamily> families = ref::AxiomFamilies(t);
  for (const auto& f : families) {
    static std::map<std::string, std::vector<ref::Op>> cache;
    const auto& acts = cache.emplace(f.v.name, WithConditional(f.v, t ? 5 : 29)).first->second;
    for (const auto& s : f.sets) {
      R.kase(
          [&] {
            std::string x = f.v.name + ":";
            for (size_t i : s) x += "\n" + ref::text(f.v.axioms[i], true);
            return x;
          },
          [&] { One(f.v, acts, s); });
    }
  }
  static const std::vector<AxiomVocab> vs = ref::AxiomVocabs();
  for (const AxiomVocab& v : vs) {
    static std::map<std::string, std::vector<ref::Op>> cache;
    const auto& acts = cache.emplace(v.name, WithConditional(v, 1)).first->second;
    const size_t n = v.axioms.size();
    for (size_t i = 0; i < n; i++) {
      R.kase([&] { return v.name + ": " + ref::text(v.axioms[i], true); }, [&] { One(v, acts, {i}); });
    }
    const size_t step2 = t ? 3 : 71, step3 = t ? 197 : 5003;
    for (size_t i = 0; i < n; i++) {
      R.kase([&] { return v.name + ": pairs with " + ref::text(v.axioms[i], true); },
             [&] {
               for (size_t j = i % step2; j < n; j += step2) {
                 if (j != i) One(v, acts, {i, j});
               }
             });
      R.kase([&] { return v.name + ": triples with " + ref::text(v.axioms[i], true); },
             [&] {
               for (size_t x = i % step3; x < n * n; x += step3) {
                 const size_t j = x / n, k = x % n;
                 if (i != j && j != k && i != k) One(v, acts, {i, j, k});
               }
             });
      R.kase([&] { return v.name + ": larger sets from " + ref::text(v.axioms[i], true); },
             [&] {
               for (size_t s : t ? std::vector<size_t>{3, 13, 29} : std::vector<size_t>{13}) {
                 One(v, acts, {i, (i + s) % n, (i + 2 * s) % n, (i + 4 * s) % n});
               }
             });
    }
  }
}
