// C19: plan and tuple checks agree with executing the actions one by one.
#include "search.h"
#include "symbolic/planning/breadth_first_search.h"

namespace {
using namespace H;
using ref::Menu;
using ref::Model;
using symbolic::Planner;

struct Ctx {
  const Model& model;
  const Pddl& pddl;
  const Bridge& br;
};

// All sequences of calls up to a length, valid or not.
void Sequences(const Ctx& c, Mask start, size_t length, bool from_initial) {
  const Model& m = c.model;
  std::vector<std::string> calls;
  const State first = c.br.state(start);
  std::function<void(Mask, const State&, bool, size_t)> go = [&](Mask s, const State& st, bool valid, size_t left) {
    auto what = [&] {
      std::string t = "from " + c.br.w.show(start) + ":";
      for (const auto& x : calls) t += " " + x;
      return t;
    };
    R.transitions++;
    if (from_initial) {
      const bool want = valid && m.is_goal(s);
      CHECK(c.pddl.IsValidPlan(calls) == want, what() << " should be " << (want ? "a" : "no") << " plan");
      R.extra[want ? "valid_plans" : "invalid_plans"]++;
    }
    if (calls.size() != 1) {
      const State all = c.pddl.ApplyActions(first, calls);
      const Mask got = c.br.mask(all);
      CHECK(got == s, what() << ": ApplyActions gives " << c.br.w.show(got) << " instead of " << c.br.w.show(s));
      CHECK(all == st, what() << ": ApplyActions differs from single steps");
    }
    if (left == 0) return;
    for (size_t k = 0; k < m.calls.size(); k++) {
      const auto n = m.next(s, k);
      if (!n) continue;
      const bool ok = m.applicable(s, k);
      const State next = c.pddl.NextState(st, m.calls[k].text);
      const Mask got = c.br.mask(next);
      CHECK(got == *n, what() << " then " << m.calls[k].text << " gives " << c.br.w.show(got) << " instead of "
                              << c.br.w.show(*n));
      CHECK(c.br.mask(st) == s, what() << ": state changed by " << m.calls[k].text);
      calls.push_back(m.calls[k].text);
      go(*n, next, valid && ok, left - 1);
      calls.pop_back();
    }
  };
  go(start, first, true, length);
}

// Triples of state, call and candidate next state.
void Tuples(const Ctx& c, const std::vector<Mask>& states, const std::vector<Mask>& candidates) {
  const Model& m = c.model;
  std::map<Mask, State> st;
  std::map<Mask, std::set<std::string>> text;
  auto get = [&](Mask x) -> const State& {
    auto it = st.find(x);
    if (it == st.end()) {
      it = st.emplace(x, c.br.state(x)).first;
      text[x] = symbolic::Stringify(it->second);
    }
    return it->second;
  };
  for (Mask s : states) {
    const State& a = get(s);
    const bool goal = m.is_goal(s);
    CHECK(c.pddl.IsGoalSatisfied(a) == goal && c.pddl.IsGoalSatisfied(text[s]) == goal, "goal in " << c.br.w.show(s));
    for (size_t k = 0; k < m.calls.size(); k++) {
      const auto n = m.next(s, k);
      if (!n) continue;
      const bool ok = m.applicable(s, k);
      const std::string& call = m.calls[k].text;
      CHECK(c.pddl.IsValidAction(a, call) == ok, "IsValidAction " << call << " in " << c.br.w.show(s));
      std::set<Mask> cand(candidates.begin(), candidates.end());
      cand.insert(*n);
      cand.insert(s);
      for (size_t b = 0; b < m.w.bits(); b++) {
        cand.insert(*n ^ Mask(1) << b);
        cand.insert(s ^ Mask(1) << b);
      }
      for (Mask x : cand) {
        const State& next = get(x);
        const bool want = ok && x == *n;
        R.transitions++;
        CHECK(c.pddl.IsValidTuple(a, call, next) == want,
              "(" << c.br.w.show(s) << ", " << call << ", " << c.br.w.show(x) << ") should be "
                  << (want ? "accepted" : "rejected"));
        if ((x + k) % 4 == 0 || want) {
          CHECK(c.pddl.IsValidTuple(text[s], call, text[x]) == want,
                "as text: (" << c.br.w.show(s) << ", " << call << ", " << c.br.w.show(x) << ")");
        }
      }
    }
    R.states++;
  }
}

void One(const Menu& menu, const std::vector<size_t>& which, size_t init, size_t goal, size_t budget) {
  const ref::Dom d = menu.with(which, init, goal);
  const Model model(d);
  if (!model.usable) FAIL("unusable menu");
  const auto root = model.settle(model.init);
  if (!root) {
    R.extra["excluded"]++;
    return;
  }
  auto pddl = Load(d);
  const Bridge br(model.w, *pddl);
  const Ctx c{model, *pddl, br};
  try {
    const Mask i = br.mask(pddl->initial_state());
    CHECK(i == *root, "initial state " << br.w.show(i) << " instead of " << br.w.show(*root));
    size_t length = 0, n = 1;
    while (length < 4 && n * std::max<size_t>(1, model.calls.size()) <= budget) {
      n *= std::max<size_t>(1, model.calls.size());
      length++;
    }
    R.extra["max_length"] = std::max<uint64_t>(R.extra["max_length"], length);
    Sequences(c, *root, std::max<size_t>(length, 1), true);
    // Settled states, and others (what the axioms and rules ask for is missing,
    // or more than they ask for is there).
    std::vector<Mask> states, others;
    for (Mask m = 0; m <= model.w.full(); m++) {
      const auto s = model.settle(m);
      (s && *s == m ? states : others).push_back(m);
      if (m == model.w.full()) break;
    }
    for (auto* v : {&states, &others}) {
      if (v->size() <= 16) continue;
      std::vector<Mask> some;
      for (size_t k = 0; k < v->size(); k += v->size() / (v == &states ? 12 : 7)) some.push_back((*v)[k]);
      *v = some;
    }
    Tuples(c, others, {0});
    Tuples(c, states, model.w.bits() <= 3 ? states : std::vector<Mask>{0, model.w.full()});
    for (size_t k = 0; k < states.size(); k += 3) Sequences(c, states[k], 2, false);
    // Every plan found by search is accepted.
    if (model.reachable(*root)) {
      const Planner planner(*pddl);
      symbolic::BreadthFirstSearch<Planner::Node> bfs(planner.root(), 3);
      size_t found = 0;
      for (const auto& path : bfs) {
        std::vector<std::string> calls;
        for (size_t k = 1; k < path.size(); k++) calls.push_back(path[k].action());
        CHECK(pddl->IsValidPlan(calls), "a plan found by search is rejected");
        if (++found > 300) break;
      }
      R.extra["search_plans"] += found;
    }
  } catch (const Failure& e) {
    throw Failure(e.key, e.what() + std::string("\n") + ref::domain_text(d) + ref::problem_text(d));
  }
  R.traces++;
}

// A binary counter: exactly one call is applicable in each state, and the only
// plan has 2^n - 1 calls.
ref::Dom Counter(size_t n, bool arguments) {
  ref::Dom d;
  d.name = "counter";
  auto bit = [&](size_t i) {
    return arguments ? ref::A("on", {"b" + std::to_string(i)}) : ref::A("b" + std::to_string(i));
  };
  if (arguments) {
    d.types = {{"bit", ""}};
    for (size_t i = 0; i < n; i++) d.consts.push_back({"b" + std::to_string(i), "bit"});
    d.preds = {{"on", {{"x", "bit"}}}};
  } else {
    for (size_t i = 0; i < n; i++) d.preds.push_back({"b" + std::to_string(i), {}});
  }
  std::vector<ref::F> goal;
  for (size_t i = 0; i < n; i++) {
    ref::Op op;
    op.name = "inc" + std::to_string(i);
    std::vector<ref::F> pre = {ref::Not(bit(i))};
    const ref::F me = bit(i);
    std::vector<ref::E> eff = {ref::Add(me.pred, me.args)};
    for (size_t k = 0; k < i; k++) {
      pre.push_back(bit(k));
      eff.push_back(ref::Del(bit(k).pred, bit(k).args));
    }
    op.pre = ref::And(pre);
    op.eff = ref::Lst(eff);
    d.actions.push_back(op);
    goal.push_back(bit(i));
  }
  d.goal = ref::And(goal);
  return d;
}

void LongPlans(size_t n, bool arguments) {
  const ref::Dom d = Counter(n, arguments);
  const size_t length = (size_t(1) << n) - 1;
  for (size_t at = 0; at <= length; at++) {
    R.kase([&] { return "plans of about " + std::to_string(length) + " calls, changed at " + std::to_string(at); },
           [&] {
             const Model m(d);
             auto pddl = Load(d);
             const Bridge br(m.w, *pddl);
             std::vector<size_t> plan;
             for (Mask s = 0; s != m.w.full();) {
               for (size_t k = 0; k < m.calls.size(); k++) {
                 if (!m.applicable(s, k)) continue;
                 plan.push_back(k);
                 s = *m.next(s, k);
                 break;
               }
             }
             if (plan.size() != length) FAIL("own bookkeeping");
             auto check = [&](const std::vector<size_t>& p, Mask start) {
               std::vector<std::string> calls;
               Mask s = start;
               bool valid = true;
               for (size_t k : p) {
                 calls.push_back(m.calls[k].text);
                 valid &= m.applicable(s, k);
                 s = *m.next(s, k);
               }
               const State end = pddl->ApplyActions(br.state(start), calls);
               CHECK(br.mask(end) == s, "ApplyActions from " << m.w.show(start) << " over " << calls.size() << " calls gives "
                                                             << Bridge::Show(end) << " instead of " << m.w.show(s));
               if (start == 0) {
                 const bool want = valid && m.is_goal(s);
                 CHECK(pddl->IsValidPlan(calls) == want,
                       "a sequence of " << calls.size() << " calls should be " << (want ? "a" : "no") << " plan");
                 R.extra[want ? "valid_plans" : "invalid_plans"]++;
               }
               R.transitions++;
             };
             // the plan up to here, without this call, with another call, with
             // one more call, with a neighbouring pair exchanged
             check({plan.begin(), plan.begin() + static_cast<long>(at)}, 0);
             for (size_t k = 0; k < m.calls.size(); k++) {
               auto p = plan;
               p.insert(p.begin() + static_cast<long>(at), k);
               check(p, 0);
               if (at == length) continue;
               p = plan;
               p[at] = k;
               check(p, 0);
               check(p, m.w.full() & 0x15);
             }
             if (at < length) {
               auto p = plan;
               p.erase(p.begin() + static_cast<long>(at));
               check(p, 0);
               check({plan.begin() + static_cast<long>(at), plan.end()}, 0);
             }
             for (size_t j = at + 1; j < length; j += 3) {
               auto p = plan;
               std::swap(p[at], p[j]);
               check(p, 0);
             }
             R.extra["max_length"] = std::max<uint64_t>(R.extra["max_length"], length + 1);
             R.states++;
             R.traces++;
           });
  }
}

}  // namespace

void H::Main() {
  R.case_cpu_s = 200;
  const bool t = R.thorough;
  const size_t budget = t ? 8000 : 700;
  static const std::vector<Menu> menus = ref::Menus();
  for (const Menu& m : menus) {
    const size_t n = m.actions.size();
    for (size_t init = 0; init < m.inits.size(); init++) {
      for (size_t i = 0; i < n; i++) {
        R.kase([&] { return m.name + ": action " + std::to_string(i) + " init " + std::to_string(init); },
               [&] {
                 for (size_t goal = 0; goal < m.goals.size(); goal++) {
                   if (i == 0) One(m, {}, init, goal, budget);
                   One(m, {i}, init, goal, budget);
                   for (size_t j = 0; j < n; j++) {
                     if (t || (i + j + goal) % 3 == 0) One(m, {i, j}, init, goal, budget);
                     const size_t k = (i + 2 * j + goal + 1) % n;
                     if (t || (i + j + goal) % 5 == 0) One(m, {i, j, k}, init, goal, budget);
                     if (t || (i + j + goal) % 13 == 0) One(m, {i, j, k, (k + 3) % n}, init, goal, budget);
                   }
                 }
               });
      }
    }
  }
  LongPlans(3, false);
  LongPlans(4, true);
  LongPlans(t ? 7 : 5, false);
}
