// C18: best-first search returns the same plans, best candidates first.
#include "search.h"
#include "symbolic/planning/a_star.h"

namespace {
using namespace H;
using symbolic::AStar;
using symbolic::Planner;
using symbolic::SearchNode;

// Comparisons of paths (root first): true if a is worse than b.
constexpr int kOrders = 8;
const char* kOrderNames[kOrders] = {"none",          "short first",  "long first",        "small id first",
                                    "large id first", "weights",     "parity then length", "lexicographic"};
bool Worse(int order, const Ids& a, const Ids& b) {
  auto weight = [](const Ids& p) {
    int w = 0;
    for (size_t i = 1; i < p.size(); i++) w += 1 + (3 * p[i - 1] + 5 * p[i]) % 7;
    return w;
  };
  switch (order) {
    case 0:
      return false;
    case 1:
      return a.size() > b.size();
    case 2:
      return a.size() < b.size();
    case 3:
      return a.back() > b.back();
    case 4:
      return a.back() < b.back();
    case 5:
      return weight(a) > weight(b);
    case 6:
      return std::make_pair(a.back() % 2, a.size()) > std::make_pair(b.back() % 2, b.size());
    default:
      return a > b;
  }
}

struct Compare {
  int order;
  bool operator()(const SearchNode<GNode>& a, const SearchNode<GNode>& b) const {
    return Worse(order, Path(a), Path(b));
  }
  static Ids Path(const SearchNode<GNode>& n) {
    Ids p;
    for (const GNode& x : n.ancestors) p.push_back(x.id());
    p.push_back(n.node.id());
    CHECK(p == n.node.path(), "a candidate is ranked with the wrong ancestors");
    return p;
  }
};

// Replays what the search did: every candidate expanded or returned is ranked
// no worse than the others pending at that moment.
void BestFirst(const Graph& g, size_t depth, int order, const std::vector<Event>& events,
               const std::string& what) {
  Paths pending;
  std::set<Ids> done;
  auto add = [&](const Ids& p) {
    // Candidates at the depth limit that are no goals lead nowhere.
    if (p.size() > depth && !(g.goals >> p.back() & 1)) return;
    pending.push_back(p);
  };
  add({0});
  for (const Event& e : events) {
    const bool goal = g.goals >> e.path.back() & 1;
    if (e.k == Event::TEST) continue;
    CHECK(e.path.size() <= depth || goal, what << ": expanded beyond the depth limit");
    auto it = std::find(pending.begin(), pending.end(), e.path);
    if (it == pending.end()) {
      CHECK(done.count(e.path), what << ": expands a candidate that is not pending");
      continue;
    }
    for (const Ids& other : pending) {
      CHECK(!Worse(order, e.path, other),
            what << ": " << ShowPaths({e.path}) << "is taken before " << ShowPaths({other}));
    }
    done.insert(e.path);
    pending.erase(it);
    if (goal) continue;
    for (int s : g.succ[static_cast<size_t>(e.path.back())]) {
      if (g.exclude_ancestors && std::find(e.path.begin(), e.path.end(), s) != e.path.end()) continue;
      Ids p = e.path;
      p.push_back(s);
      add(p);
    }
  }
}

void OnGraph(const Graph& g, size_t depth, int order) {
  const Paths want = Solutions(g, depth);
  R.states++;
  R.transitions += want.size() + 1;
  auto what = [&] { return g.show() + " depth " + std::to_string(depth) + " order " + kOrderNames[order]; };
  const Compare cmp{order};
  Log log;
  const GNode root(&g, &log);
  AStar<GNode, Compare> search(cmp, root, depth);
  Paths got;
  bool parallel = false;
  for (const Ids& s : g.succ) {
    for (size_t i = 1; i < s.size(); i++) parallel |= std::count(s.begin(), s.end(), s[i]) > 1;
  }
  log.on = true;
  {
    auto it = search.begin();
    for (; it != search.end(); ++it) {
      got.push_back(Legal(g, *it, what()));
      CHECK(got.size() <= want.size(), what() << ": too many paths: " << ShowPaths(got));
      // The returned candidate leaves the queue here.
      log.events.push_back({Event::EXPAND, got.back()});
    }
  }
  log.on = false;
  if (!parallel) BestFirst(g, depth, order, log.events, what());
  Paths sorted = got;
  std::sort(sorted.begin(), sorted.end());
  CHECK(sorted == want, what() << ": paths " << ShowPaths(sorted) << " instead of " << ShowPaths(want));
  if (g.goals != 0 && R.states % 5 == 0 && want.size() <= 64) {
    AStar<GNode, Compare> other(cmp, root, depth + 1);
    auto b = other.begin();
    size_t i = 0;
    for (auto it = search.begin(); it != search.end(); ++it, i++) {
      auto copy = it;
      size_t k = i;
      for (; copy != search.end(); ++copy, k++) {
        CHECK(k < got.size() && Legal(g, *copy, what()) == got[k], what() << ": copied iterator");
      }
      CHECK(k == got.size(), what() << ": copied iterator ends early");
      CHECK(Legal(g, *it, what()) == got[i], what() << ": iterator after its copy moved");
      if (b != other.end()) ++b;
    }
    CHECK(i == got.size(), what() << ": second iteration");
  }
}

struct PlanCompare {
  int order;
  bool operator()(const SearchNode<Planner::Node>& a, const SearchNode<Planner::Node>& b) const {
    switch (order) {
      case 0:
        return a.ancestors.size() > b.ancestors.size();
      case 1:
        return a.ancestors.size() < b.ancestors.size();
      case 2:
        return a.node.state() < b.node.state();
      default:
        return a.node.state().size() < b.node.state().size();
    }
  }
};

}  // namespace

void H::Main() {
  R.case_cpu_s = 200;
  ForGraphs([](const Graph& g, size_t depth) {
    // Every order for small graphs, rotating through them for larger ones.
    if (g.succ.size() <= 3 || R.thorough) {
      for (int o = 0; o < kOrders; o++) OnGraph(g, depth, o);
    } else {
      OnGraph(g, depth, static_cast<int>((g.goals * 3 + depth * 5 + std::hash<std::string>{}(g.show()) / 7) % kOrders));
    }
  });
  ForLargeGraphs([](const Graph& g, size_t depth) {
    for (int o = 0; o < kOrders; o++) {
      if (R.thorough || (depth + static_cast<size_t>(o)) % 3 == 0) OnGraph(g, depth, o);
    }
  });
  ForProblems([](const ref::Model& model, const Pddl& pddl, const Bridge& br, Mask root, size_t depth,
                 const std::vector<Plan>& want) {
    const Planner planner(pddl);
    for (int order = 0; order < 4; order++) {
      if (order != static_cast<int>((depth + want.size()) % 4) && want.size() > 100) continue;
      const PlanCompare cmp{order};
      AStar<Planner::Node, PlanCompare> search(cmp, planner.root(), depth);
      std::vector<Plan> got;
      for (const auto& path : search) {
        got.push_back(LegalPlan(model, br, root, path));
        R.transitions++;
        CHECK(got.size() <= want.size(), "too many plans");
      }
      std::sort(got.begin(), got.end());
      CHECK(got == want, "order " << order << ": " << got.size() << " plans, " << want.size()
                                  << " expected, or different ones");
    }
  });
}
