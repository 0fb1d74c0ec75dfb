// C24: queries do not disturb one another.
#include "model.h"
#include "probe.h"
#include "vocab.h"

namespace {
using namespace H;
using ref::Menu;
using symbolic::AStar;
using symbolic::BreadthFirstSearch;
using symbolic::DepthFirstSearch;
using symbolic::Planner;

struct Scenario {
  std::string name;
  ref::Dom d;
};

std::vector<Scenario> Scenarios() {
  std::vector<Scenario> v;
  for (const Menu& m : ref::Menus()) {
    const size_t n = m.actions.size();
    std::vector<size_t> all;
    for (size_t i = 0; i < n; i++) all.push_back(i);
    v.push_back({m.name + ", all actions", m.with(all, 1, 0)});
    v.push_back({m.name + ", few actions", m.with({1, n / 2, n - 1}, 2, 1)});
  }
  for (ref::Dom d : {vocab::Mixed(), vocab::Names()}) {
    // actions with quantified conditions and effects over every type
    size_t k = 0;
    for (const auto& p : d.preds) {
      std::vector<ref::Str> a;
      for (const auto& x : p.params) a.push_back("?" + x.first);
      ref::Op op;
      op.name = "act" + std::to_string(k++);
      op.params = p.params;
      op.pre = ref::Or({ref::Not(ref::A(p.name, a)), ref::Ex(p.params, ref::A(p.name, a))});
      op.eff = ref::Lst({ref::EAll(p.params, ref::When(ref::Not(ref::A(p.name, a)), ref::Add(p.name, a)))});
      d.actions.push_back(op);
      op.name = "act" + std::to_string(k++);
      op.pre = ref::All(p.params, ref::Or({ref::A(p.name, a), ref::Not(ref::A(p.name, a))}));
      op.eff = ref::Del(p.name, a);
      d.actions.push_back(op);
    }
    d.goal = ref::All(d.preds.back().params, [&] {
      std::vector<ref::Str> a;
      for (const auto& x : d.preds.back().params) a.push_back("?" + x.first);
      return ref::A(d.preds.back().name, a);
    }());
    v.push_back({"vocabulary " + d.name, d});
  }
  return v;
}

Texts TextsOf(const ref::World& w, Mask m) {
  Texts t;
  for (size_t i = 0; i < w.bits(); i++) {
    if (m >> i & 1) t.insert(w.names[i]);
  }
  return t;
}

std::vector<Query> Queries(const ref::Dom& d, bool many) {
  const ref::World w(d);
  std::vector<Query> qs = GlobalQueries(d, many ? 2 : 1);
  const Mask f = w.full();
  std::vector<Mask> ms = {0x5a5a5a5a5a5a5a5aull & f, 0x2492492492492492ull & f};
  if (many) {
    ms.push_back(0);
    ms.push_back(f);
  }
  for (Mask m : ms) {
    for (auto& q : StateQueries(TextsOf(w, m))) qs.push_back(std::move(q));
  }
  for (Mask m : ms) {
    if (m == f) continue;
    for (auto& q : PartialQueries(TextsOf(w, m & 0x3333333333333333ull), TextsOf(w, ~m & f & 0x6666666666666666ull))) {
      qs.push_back(std::move(q));
    }
  }
  std::vector<std::string> calls;
  for (const auto& op : d.actions) {
    const auto ts = w.tuples(w.ranges(op.params));
    if (!ts.empty() && calls.size() < (many ? 4 : 2)) calls.push_back(w.call(op.name, ts[ts.size() / 2]));
  }
  for (auto& q : NormalQueries(calls)) qs.push_back(std::move(q));
  return qs;
}

// A cyclic sequence in which every sequence of k symbols appears.
std::vector<size_t> DeBruijn(size_t n, size_t k) {
  std::vector<size_t> a(n * k, 0), out;
  std::function<void(size_t, size_t)> db = [&](size_t t, size_t p) {
    if (t > k) {
      if (k % p == 0) out.insert(out.end(), a.begin() + 1, a.begin() + 1 + static_cast<long>(p));
      return;
    }
    a[t] = a[t - p];
    db(t + 1, p);
    for (size_t j = a[t - p] + 1; j < n; j++) {
      a[t] = j;
      db(t + 1, t);
    }
  };
  a.resize(std::max(n * k, k + 1) + 1);
  db(1, 1);
  const std::vector<size_t> head(out.begin(), out.begin() + static_cast<long>(std::min(out.size(), k - 1)));
  out.insert(out.end(), head.begin(), head.end());
  return out;
}

std::vector<std::string> Fresh(const ref::Dom& d, const std::vector<Query>& qs) {
  std::vector<std::string> a;
  for (const Query& q : qs) a.push_back(q(*Load(d)));
  return a;
}

// Every ordered pair of queries, each on a problem loaded for it.
void Pairs(const Scenario& s, bool many) {
  const auto qs = Queries(s.d, many);
  for (size_t i = 0; i < qs.size(); i++) {
    R.kase([&] { return "scenario " + s.name + ": " + qs[i].name + ", then any other"; }, [&] {
      const auto fresh = Fresh(s.d, qs);
      for (size_t j = 0; j < qs.size(); j++) {
        auto p = Load(s.d);
        const std::string a = qs[i](*p);
        CHECK(a == fresh[i], qs[i].name << ": " << a << " instead of " << fresh[i]);
        const std::string b = qs[j](*p);
        CHECK(b == fresh[j], qs[j].name << " after " << qs[i].name << ": " << b << " instead of " << fresh[j]);
        const std::string c = qs[i](*p);
        CHECK(c == fresh[i], qs[i].name << " asked again after " << qs[j].name << ": " << c << " instead of " << fresh[i]);
        R.transitions += 3;
        R.traces++;
      }
      R.states++;
    });
  }
}

// Every sequence of k queries appears in one long history.
void Walk(const Scenario& s, bool many, size_t k, size_t parts) {
  auto qs = Queries(s.d, many);
  if (k > 2) {
    // a core of different kinds of query
    std::vector<Query> core;
    for (size_t i = 0; i < qs.size(); i += 2) core.push_back(qs[i]);
    qs = core;
  }
  const auto walk = DeBruijn(qs.size(), k);
  const size_t len = (walk.size() + parts - 1) / parts;
  for (size_t part = 0; part < parts; part++) {
    R.kase([&] {
      return "scenario " + s.name + ": all sequences of " + std::to_string(k) + " queries, part " + std::to_string(part);
    },
           [&] {
             const auto fresh = Fresh(s.d, qs);
             auto p = Load(s.d);
             const size_t b = part * len, e = std::min(walk.size(), b + len + k - 1);
             for (size_t i = b; i < e; i++) {
               const std::string a = qs[walk[i]](*p);
               if (a != fresh[walk[i]]) {
                 std::string h;
                 for (size_t j = i < 4 ? 0 : i - 4; j < i; j++) h += qs[walk[j]].name + "; ";
                 FAIL(qs[walk[i]].name << ": " << a << " instead of " << fresh[walk[i]] << " after ... " << h);
               }
               R.transitions++;
             }
             R.traces++;
             R.states++;
           });
  }
}

// Two problems at the same time, loaded and destroyed in every order.
void Two(const Scenario& s, const Scenario& t, bool many) {
  R.kase([&] { return "scenarios " + s.name + " and " + t.name; }, [&] {
    const auto qs = Queries(s.d, many), qt = Queries(t.d, many);
    const auto fs = Fresh(s.d, qs), ft = Fresh(t.d, qt);
    auto ask = [&](const Pddl& p, bool first, size_t i, const char* when) {
      const auto& q = first ? qs : qt;
      const auto& f = first ? fs : ft;
      i %= q.size();
      const std::string a = q[i](p);
      CHECK(a == f[i], q[i].name << " " << when << ": " << a << " instead of " << f[i]);
      R.transitions++;
    };
    const size_t n = std::max(qs.size(), qt.size());
    for (size_t i = 0; i < n; i++) {
      auto p = Load(s.d);
      if (i % 2) ask(*p, true, i, "before the other problem is loaded");
      auto q = Load(t.d);
      ask(*p, true, i, "after the other problem is loaded");
      for (size_t j = i; j < i + 5; j++) {
        ask(*q, false, j * 7, "beside the other problem");
        ask(*p, true, j * 5, "beside the other problem");
      }
      auto again = Load(s.d);
      ask(*again, true, i + 1, "on a second copy");
      ask(*p, true, i + 1, "beside a second copy");
      if (i % 3 == 0) {
        CHECK(Throws([&] { Pddl bad(R.scratch + "/nosuch.pddl"); }), "a missing file was loaded");
        CHECK(Throws([&] { Pddl bad(DomainFile(ref::domain_text(t.d), "e.pddl"), "(define (problem x) (:domain"); }),
              "an unfinished problem was loaded");
      }
      p.reset();
      ask(*q, false, i, "after the other problem is gone");
      ask(*again, true, i + 2, "after the first copy is gone");
      q.reset();
      ask(*again, true, i, "after the other problem is gone");
      R.traces++;
    }
    R.states++;
  });
}

// ------------------------------------------------- iterations in progress
// Something that produces answers step by step.
struct Susp {
  std::string name;
  std::function<std::function<std::optional<std::string>()>(const Pddl&)> start;
};

template <typename It, typename Show>
std::function<std::optional<std::string>()> Step(std::shared_ptr<void> keep, It begin, It end, Show show) {
  auto at = std::make_shared<It>(std::move(begin));
  auto stop = std::make_shared<It>(std::move(end));
  auto first = std::make_shared<bool>(true);
  return [=]() -> std::optional<std::string> {
    (void)keep;
    if (!*first) ++*at;
    *first = false;
    if (!(*at != *stop)) {
      *first = true;
      return {};
    }
    return show(*at);
  };
}

std::vector<Susp> Suspended(const ref::Dom& d) {
  std::vector<Susp> v;
  auto plan = [](const std::vector<Planner::Node>& path) {
    std::string o = "plan ";
    for (const auto& n : path) o += n.action() + Bridge::Show(n.state()) + ";";
    return o;
  };
  for (size_t i = 0; i < d.actions.size() && i < 4; i++) {
    v.push_back({"the parameters of " + d.actions[i].name, [i](const Pddl& p) {
                   const ParameterGenerator& g = p.actions()[i].parameter_generator();
                   return Step(nullptr, g.begin(), g.end(), [](const auto& it) { return ShowArgs(*it); });
                 }});
    v.push_back({"the parameters of a copy of " + d.actions[i].name, [i](const Pddl& p) {
                   auto g = std::make_shared<ParameterGenerator>(Action(p, p.actions()[i].name()).parameter_generator());
                   return Step(g, g->begin(), g->end(), [](const auto& it) { return ShowArgs(*it); });
                 }});
  }
  v.push_back({"the state index", [](const Pddl& p) {
                 const StateIndex& x = p.state_index();
                 return Step(nullptr, x.begin(), x.end(), [](const auto& it) { return (*it).to_string(); });
               }});
  v.push_back({"a copy of the state index", [](const Pddl& p) {
                 auto x = std::make_shared<StateIndex>(p.state_index());
                 return Step(x, x->begin(), x->end(), [](const auto& it) { return (*it).to_string(); });
               }});
  v.push_back({"the initial state", [](const Pddl& p) {
                 const State& s = p.initial_state();
                 return Step(nullptr, s.begin(), s.end(), [](const auto& it) { return (*it).to_string(); });
               }});
  v.push_back({"the children of the root", [](const Pddl& p) {
                 auto pl = std::make_shared<Planner>(p);
                 return Step(pl, pl->root().begin(), pl->root().end(),
                             [](const auto& it) { return (*it).action() + Bridge::Show((*it).state()); });
               }});
  v.push_back({"the children of the first child", [](const Pddl& p) {
                 auto pl = std::make_shared<std::pair<Planner, Planner::Node>>(Planner(p), Planner::Node());
                 pl->second = pl->first.root();
                 for (const auto& c : pl->first.root()) {
                   pl->second = c;
                   break;
                 }
                 return Step(pl, pl->second.begin(), pl->second.end(),
                             [](const auto& it) { return (*it).action() + Bridge::Show((*it).state()); });
               }});
  v.push_back({"breadth-first plans", [=](const Pddl& p) {
                 auto pl = std::make_shared<std::pair<Planner, std::shared_ptr<BreadthFirstSearch<Planner::Node>>>>(Planner(p), nullptr);
                 pl->second = std::make_shared<BreadthFirstSearch<Planner::Node>>(pl->first.root(), 2);
                 return Step(pl, pl->second->begin(), pl->second->end(), [=](const auto& it) { return plan(*it); });
               }});
  v.push_back({"depth-first plans", [=](const Pddl& p) {
                 auto pl = std::make_shared<std::pair<Planner, std::shared_ptr<DepthFirstSearch<Planner::Node>>>>(Planner(p), nullptr);
                 pl->second = std::make_shared<DepthFirstSearch<Planner::Node>>(pl->first.root(), 2);
                 return Step(pl, pl->second->begin(), pl->second->end(), [=](const auto& it) { return plan(*it); });
               }});
  return v;
}

std::vector<std::string> Run(const Susp& s, const Pddl& p) {
  auto next = s.start(p);
  std::vector<std::string> o;
  while (auto x = next()) {
    o.push_back(*x);
    if (o.size() > 5000) FAIL(s.name << " never ends");
  }
  return o;
}

void Interleaved(const Scenario& s, bool many, size_t steps) {
  const auto susp = Suspended(s.d);
  const auto qs = Queries(s.d, many);
  for (size_t i = 0; i < susp.size(); i++) {
    R.kase([&] { return "scenario " + s.name + ": " + susp[i].name + ", interrupted by a query"; }, [&] {
      const auto want = Run(susp[i], *Load(s.d));
      const auto fresh = Fresh(s.d, qs);
      for (size_t q = 0; q < qs.size(); q++) {
        for (size_t at = 0; at <= std::min<size_t>(steps, want.size()); at++) {
          auto p = Load(s.d);
          auto next = susp[i].start(*p);
          std::vector<std::string> got;
          for (size_t k = 0; k < at; k++) {
            if (auto x = next()) got.push_back(*x);
          }
          const std::string a = qs[q](*p);
          CHECK(a == fresh[q], qs[q].name << " during " << susp[i].name << ": " << a << " instead of " << fresh[q]);
          while (auto x = next()) {
            got.push_back(*x);
            if (got.size() > 5000) FAIL(susp[i].name << " never ends");
          }
          if (got != want) {
            std::string g, w;
            for (const auto& x : got) g += x + " ";
            for (const auto& x : want) w += x + " ";
            FAIL(susp[i].name << ", interrupted after " << at << " steps by " << qs[q].name << ": " << g << " instead of " << w);
          }
          R.transitions++;
        }
      }
      R.states++;
      R.traces++;
    });
    R.kase([&] { return "scenario " + s.name + ": " + susp[i].name + ", interleaved with any other"; }, [&] {
      auto p = Load(s.d);
      const auto want_i = Run(susp[i], *Load(s.d));
      for (size_t j = 0; j < susp.size(); j++) {
        const auto want_j = Run(susp[j], *Load(s.d));
        const size_t ni = std::min<size_t>(steps, want_i.size() + 1), nj = std::min<size_t>(steps, want_j.size() + 1);
        // every order of the first steps of both
        std::vector<int> order(ni, 0);
        order.insert(order.end(), nj, 1);
        do {
          auto a = susp[i].start(*p), b = susp[j].start(*p);
          std::vector<std::string> ga, gb;
          bool enda = false, endb = false;
          auto step = [&](int which) {
            bool& end = which == 0 ? enda : endb;
            if (end) return;
            auto x = (which == 0 ? a : b)();
            if (x) {
              (which == 0 ? ga : gb).push_back(*x);
            } else {
              end = true;
            }
          };
          for (int o : order) step(o);
          while (!enda || !endb) {
            step(0);
            step(1);
            if (ga.size() > 5000 || gb.size() > 5000) FAIL(susp[i].name << " or " << susp[j].name << " never ends");
          }
          if (ga != want_i || gb != want_j) {
            std::string o;
            for (int x : order) o += x == 0 ? 'a' : 'b';
            FAIL((ga != want_i ? susp[i].name : susp[j].name) << " gives something else when interleaved (" << o << ") with "
                                                              << (ga != want_i ? susp[j].name : susp[i].name));
          }
          R.transitions += order.size();
          R.traces++;
        } while (std::next_permutation(order.begin(), order.end()));
      }
      R.states++;
    });
  }
}

// --------------------------------------------------- copies and lifetimes
// Sequences of operations on three variables of one kind.
template <typename T>
void Lifetimes(const std::string& kind, const Scenario& s, std::function<std::vector<std::function<T(const Pddl&)>>(const Pddl&)> make,
               std::function<std::string(const Pddl&, const T&)> answer, size_t depth) {
  constexpr int kSlots = 3;
  const char* const names[] = {"make", "copy", "move", "copy-assign", "move-assign", "destroy", "use"};
  // operation: kind * 9 + to * 3 + from
  for (int first = 0; first < 9 * 7; first++) {
    R.kase([&] {
      return "scenario " + s.name + ": lifetimes of " + kind + " from " + names[first / 9] + " " + std::to_string(first / 3 % 3) +
             "<-" + std::to_string(first % 3);
    },
           [&] {
             auto pddl = Load(s.d);
             const auto makers = make(*pddl);
             std::vector<std::string> want;
             for (const auto& m : makers) {
               auto fresh = Load(s.d);
               want.push_back(answer(*fresh, m(*fresh)));
             }
             std::vector<int> seq;
             auto text = [&] {
               std::string h;
               for (int o : seq) {
                 h += std::string(names[o / 9]) + " " + std::to_string(o / 3 % 3) + "<-" + std::to_string(o % 3) + "; ";
               }
               return h;
             };
             auto run = [&]() -> bool {
               std::unique_ptr<T> slot[kSlots];
               int is[kSlots] = {-1, -1, -1};
               // two variables to begin with
               slot[0] = std::make_unique<T>(makers[0](*pddl));
               is[0] = 0;
               slot[1] = std::make_unique<T>(makers[1 % makers.size()](*pddl));
               is[1] = static_cast<int>(1 % makers.size());
               for (int o : seq) {
                 const int k = o / 9, to = o / 3 % 3, from = o % 3;
                 if (k == 0) {
                   if (static_cast<size_t>(from) >= makers.size()) return false;
                   slot[to] = std::make_unique<T>(makers[static_cast<size_t>(from)](*pddl));
                   is[to] = from;
                   continue;
                 }
                 if (k == 5) {
                   if (from != to || !slot[to]) return false;
                   slot[to].reset();
                   is[to] = -1;
                   continue;
                 }
                 if (k == 6) {
                   if (from != to || is[to] < 0) return false;
                   const std::string a = answer(*pddl, *slot[to]);
                   CHECK(a == want[static_cast<size_t>(is[to])],
                         kind << " after " << text() << ": " << a << " instead of " << want[static_cast<size_t>(is[to])]);
                   continue;
                 }
                 if (is[from] < 0 || !slot[from]) return false;
                 if (to == from && k != 3) return false;
                 if (k >= 3 && !slot[to]) return false;
                 if (k == 1) slot[to] = std::make_unique<T>(*slot[from]);
                 if (k == 2) slot[to] = std::make_unique<T>(std::move(*slot[from]));
                 if (k == 3) *slot[to] = *slot[from];
                 if (k == 4) *slot[to] = std::move(*slot[from]);
                 is[to] = is[from];
                 if ((k == 2 || k == 4) && to != from) is[from] = -2;
               }
               for (int i = 0; i < kSlots; i++) {
                 if (is[i] < 0) continue;
                 const std::string a = answer(*pddl, *slot[i]);
                 CHECK(a == want[static_cast<size_t>(is[i])],
                       kind << " after " << text() << ": " << a << " instead of " << want[static_cast<size_t>(is[i])]);
               }
               R.traces++;
               return true;
             };
             std::function<void(size_t)> go = [&](size_t left) {
               for (int o = 0; o < 9 * 7; o++) {
                 if (seq.empty() && o != first) continue;
                 seq.push_back(o);
                 R.transitions++;
                 if (run() && left > 1) go(left - 1);
                 seq.pop_back();
               }
             };
             go(depth);
             R.states++;
           });
  }
}

void AllLifetimes(const Scenario& s, size_t depth) {
  const ref::World w(s.d);
  const Mask f = w.full();
  std::vector<Texts> texts;
  for (Mask m : {Mask(0), f, Mask(0x5a5a5a5a5a5a5a5aull & f)}) texts.push_back(TextsOf(w, m));
  Lifetimes<Action>(
      "actions", s,
      [](const Pddl& p) {
        std::vector<std::function<Action(const Pddl&)>> v;
        const size_t n = p.actions().size();
        v.push_back([](const Pddl& q) { return q.actions()[0]; });
        v.push_back([n](const Pddl& q) { return q.actions()[n - 1]; });
        v.push_back([n](const Pddl& q) { return Action(q, q.actions()[n / 2].name()); });
        return v;
      },
      [texts](const Pddl& p, const Action& a) {
        std::string o = a.name() + ShowParams(a.parameter_generator()) + a.preconditions().to_string();
        for (const Texts& t : texts) {
          const State st = ParseTexts(p, t);
          const PartialState ps(st, State());
          for (const std::vector<Object>& args : a.parameter_generator()) {
            o += a.IsValid(st, args) ? '+' : '-';
            o += ShowOpt(a.IsValid(ps, args));
            try {
              o += Bridge::Show(a.Apply(st, args)) + ShowPartial(a.Apply(ps, args));
            } catch (const std::exception&) {
              o += "error";
            }
          }
        }
        return o;
      },
      depth);
  Lifetimes<Formula>(
      "formulas", s,
      [](const Pddl&) {
        std::vector<std::function<Formula(const Pddl&)>> v;
        v.push_back([](const Pddl& q) { return q.goal(); });
        v.push_back([](const Pddl& q) { return Formula(q, q.goal().symbol()); });
        return v;
      },
      [texts](const Pddl& p, const Formula& x) {
        std::string o = x.to_string();
        for (const Texts& t : texts) {
          const State st = ParseTexts(p, t);
          o += x(st) ? '+' : '-';
          o += ShowOpt(x(PartialState(st, State()))) + ShowOpt(x(PartialState(State(), st)));
        }
        return o;
      },
      depth);
  Lifetimes<StateIndex>(
      "state indices", s,
      [](const Pddl&) {
        std::vector<std::function<StateIndex(const Pddl&)>> v;
        v.push_back([](const Pddl& q) { return q.state_index(); });
        v.push_back([](const Pddl& q) {
          std::vector<Predicate> less(q.predicates().begin() + 1, q.predicates().end());
          if (less.empty()) less = q.predicates();
          return StateIndex(less, true);
        });
        v.push_back([](const Pddl& q) {
          std::vector<Predicate> rev(q.predicates().rbegin(), q.predicates().rend());
          return StateIndex(rev, false);
        });
        return v;
      },
      [](const Pddl&, const StateIndex& x) {
        std::string o = std::to_string(x.size());
        size_t n = 0;
        for (const Proposition& prop : x) {
          o += " " + prop.to_string();
          if (x.GetPropositionIndex(prop) != n || x.GetProposition(n) != prop) o += "!";
          n++;
        }
        o += ShowTyped(x.pddl().objects());
        return o;
      },
      depth);
  Lifetimes<Predicate>(
      "predicates", s,
      [](const Pddl&) {
        std::vector<std::function<Predicate(const Pddl&)>> v;
        v.push_back([](const Pddl& q) { return q.predicates().front(); });
        v.push_back([](const Pddl& q) { return q.predicates().back(); });
        return v;
      },
      [](const Pddl&, const Predicate& x) {
        std::string o = x.to_string() + x.name() + ShowTyped(x.parameters()) + ShowParams(x.parameter_generator());
        return o + ShowTyped(x.pddl().objects());
      },
      depth);
  if (!s.d.ders.empty()) {
    Lifetimes<DerivedPredicate>(
        "derived predicates", s,
        [](const Pddl&) {
          std::vector<std::function<DerivedPredicate(const Pddl&)>> v;
          v.push_back([](const Pddl& q) { return q.derived_predicates().front(); });
          v.push_back([](const Pddl& q) { return q.derived_predicates().back(); });
          return v;
        },
        [texts](const Pddl& p, const DerivedPredicate& x) {
          std::string o = x.name() + ShowTyped(x.parameters()) + ShowParams(x.parameter_generator());
          for (const Texts& t : texts) {
            const State st = ParseTexts(p, t);
            o += Bridge::Show(DerivedPredicate::Apply(st, std::vector<DerivedPredicate>{x}));
          }
          return o;
        },
        depth);
  }
  if (s.d.consts.empty() && s.d.objs.empty()) return;
  Lifetimes<Object>(
      "objects", s,
      [](const Pddl&) {
        std::vector<std::function<Object(const Pddl&)>> v;
        v.push_back([](const Pddl& q) { return q.objects().front(); });
        v.push_back([](const Pddl& q) { return Object(q, q.objects().back().name()); });
        return v;
      },
      [](const Pddl& p, const Object& x) {
        std::string o = x.name() + " - " + x.type().name();
        for (const auto& t : x.type().ListTypes()) o += " " + t;
        for (const Object& y : p.objects()) o += x == y ? '=' : x < y ? '<' : '>';
        return o;
      },
      depth);
}

}  // namespace

void H::Main() {
  const bool t = R.thorough;
  R.case_cpu_s = 200;
  static const std::vector<Scenario> ss = Scenarios();
  for (size_t i = 0; i < ss.size(); i++) {
    Interleaved(ss[i], t, t ? 4 : 3);
    AllLifetimes(ss[i], t ? 3 : 2);
    Walk(ss[i], true, 2, 4);
    Walk(ss[i], false, 3, 8);
    Pairs(ss[i], t);
    for (size_t j = 0; j < ss.size(); j += t ? 1 : 3) Two(ss[i], ss[(i + j) % ss.size()], t);
  }
}
