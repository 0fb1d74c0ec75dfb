// C17: depth-first search returns the same plans as exhaustive enumeration.
#include "search.h"
#include "symbolic/planning/depth_first_search.h"

namespace {
using namespace H;
using symbolic::DepthFirstSearch;
using symbolic::Planner;

void OnGraph(const Graph& g, size_t depth) {
  const Paths want = Solutions(g, depth);
  R.states++;
  R.transitions += want.size() + 1;
  auto what = [&] { return g.show() + " depth " + std::to_string(depth); };
  const GNode root(&g, nullptr);
  DepthFirstSearch<GNode> dfs(root, depth);
  Paths order;
  for (const auto& path : dfs) {
    order.push_back(Legal(g, path, what()));
    CHECK(order.size() <= want.size(), what() << ": too many paths: " << ShowPaths(order));
  }
  Paths got = order;
  std::sort(got.begin(), got.end());
  CHECK(got == want, what() << ": paths " << ShowPaths(got) << " instead of " << ShowPaths(want));
  if (g.goals != 0 && R.states % 3 == 0 && want.size() <= 64) {
    // Copies of iterators, and a second search in turns with the first.
    DepthFirstSearch<GNode> other(root, depth + 1);
    auto b = other.begin();
    size_t i = 0;
    for (auto it = dfs.begin(); it != dfs.end(); ++it, i++) {
      auto copy = it;
      size_t k = i;
      for (; copy != dfs.end(); ++copy, k++) {
        CHECK(k < order.size() && Legal(g, *copy, what()) == order[k], what() << ": copied iterator");
      }
      CHECK(k == order.size(), what() << ": copied iterator ends early");
      CHECK(Legal(g, *it, what()) == order[i], what() << ": iterator after its copy moved");
      if (b != other.end()) ++b;
    }
    CHECK(i == order.size(), what() << ": second iteration");
  }
}

}  // namespace

void H::Main() {
  R.case_cpu_s = 200;
  ForGraphs(OnGraph);
  ForLargeGraphs(OnGraph);
  ForProblems([](const ref::Model& model, const Pddl& pddl, const Bridge& br, Mask root, size_t depth,
                 const std::vector<Plan>& want) {
    const Planner planner(pddl);
    DepthFirstSearch<Planner::Node> dfs(planner.root(), depth);
    std::vector<Plan> got;
    for (const auto& path : dfs) {
      got.push_back(LegalPlan(model, br, root, path));
      R.transitions++;
      CHECK(got.size() <= want.size(), "too many plans");
    }
    std::sort(got.begin(), got.end());
    CHECK(got == want, got.size() << " plans, " << want.size() << " expected, or different ones");
  });
}
