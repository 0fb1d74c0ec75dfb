// C16: breadth-first search returns all plans within the depth, shortest first.
#include "search.h"
#include "symbolic/planning/breadth_first_search.h"

namespace {
using namespace H;
using symbolic::BreadthFirstSearch;
using symbolic::Planner;

template <typename Search>
Paths Collect(Search& bfs, const Graph& g, size_t expect, const std::string& what) {
  Paths got;
  for (const auto& path : bfs) {
    got.push_back(Legal(g, path, what));
    CHECK(got.size() < 2 || got[got.size() - 2].size() <= got.back().size(),
          what << ": a shorter path after a longer one: " << ShowPaths(got));
    CHECK(got.size() <= expect, what << ": too many paths: " << ShowPaths(got));
  }
  return got;
}

void OnGraph(const Graph& g, size_t depth) {
  const Paths want = Solutions(g, depth);
  R.states++;
  R.transitions += want.size() + 1;
  auto what = [&] { return g.show() + " depth " + std::to_string(depth); };
  const GNode root(&g, nullptr);
  BreadthFirstSearch<GNode> bfs(root, depth);
  const Paths order = Collect(bfs, g, want.size(), what());
  Paths got = order;
  std::sort(got.begin(), got.end());
  CHECK(got == want, what() << ": paths " << ShowPaths(got) << " instead of " << ShowPaths(want));
  if (g.goals != 0 && R.states % 3 == 0 && want.size() <= 64) {
    CHECK(Collect(bfs, g, want.size(), what()) == order, what() << ": a second iteration differs");
    // A copy of an iterator goes on by itself.
    size_t i = 0;
    for (auto it = bfs.begin(); it != bfs.end(); ++it, i++) {
      auto copy = it;
      size_t k = i;
      for (; copy != bfs.end(); ++copy, k++) {
        CHECK(k < order.size() && Legal(g, *copy, what()) == order[k], what() << ": copied iterator");
      }
      CHECK(k == order.size(), what() << ": copied iterator ends early");
      CHECK(Legal(g, *it, what()) == order[i], what() << ": iterator after its copy moved");
    }
    CHECK(i == order.size(), what() << ": iteration with copies");
    // Two searches advanced in turns, one of them verbose.
    std::ostringstream sink;
    auto* old = std::cout.rdbuf(sink.rdbuf());
    try {
      BreadthFirstSearch<GNode> other(root, depth + 1);
      BreadthFirstSearch<GNode> loud(root, depth, true);
      auto a = loud.begin();
      auto b = other.begin();
      for (size_t k = 0; k < order.size(); k++) {
        CHECK(a != loud.end() && Legal(g, *a, what()) == order[k], what() << ": searches in turns");
        ++a;
        if (b != other.end()) ++b;
      }
      CHECK(a == loud.end(), what() << ": searches in turns");
    } catch (...) {
      std::cout.rdbuf(old);
      throw;
    }
    std::cout.rdbuf(old);
  }
}

}  // namespace

void H::Main() {
  R.case_cpu_s = 200;
  ForGraphs(OnGraph);
  ForLargeGraphs(OnGraph);
  ForProblems([](const ref::Model& model, const Pddl& pddl, const Bridge& br, Mask root, size_t depth,
                 const std::vector<Plan>& want) {
    const Planner planner(pddl);
    BreadthFirstSearch<Planner::Node> bfs(planner.root(), depth);
    std::vector<Plan> got;
    for (const auto& path : bfs) {
      got.push_back(LegalPlan(model, br, root, path));
      R.transitions++;
      CHECK(got.size() < 2 || got[got.size() - 2].calls.size() <= got.back().calls.size(),
            "a shorter plan after a longer one");
      CHECK(got.size() <= want.size(), "too many plans");
    }
    std::sort(got.begin(), got.end());
    CHECK(got == want, got.size() << " plans, " << want.size() << " expected, or different ones");
  });
}
