// Abstract search graphs, and the paths a search over them has to return.
#ifndef VERIF_SEARCH_H_
#define VERIF_SEARCH_H_

#include <functional>

#include "bridge.h"
#include "model.h"
#include "symbolic/planning/planner.h"

namespace H {

using Ids = std::vector<int>;
using Paths = std::vector<Ids>;

// A directed multigraph: ordered successor lists; node 0 is the root.
struct Graph {
  std::vector<Ids> succ;
  uint64_t goals = 0;
  bool exclude_ancestors = false;  // children skip nodes on the path, as planner nodes do

  std::string show() const {
    std::string s;
    for (size_t i = 0; i < succ.size(); i++) {
      s += std::to_string(i) + (goals >> i & 1 ? "*" : "") + ":";
      for (int x : succ[i]) s += " " + std::to_string(x);
      s += "; ";
    }
    return s + (exclude_ancestors ? "(without returning)" : "");
  }
};

// What the search did to the nodes, in order.
struct Event {
  enum K { TEST, EXPAND } k;
  Ids path;
};
struct Log {
  bool on = false;
  std::vector<Event> events;
};

// A node of a search: it knows the path that led to it.
class GNode {
 public:
  class iterator;

  GNode() = default;
  GNode(const Graph* g, Log* log) : g_(g), log_(log), path_{0} {}
  int id() const { return path_.back(); }
  int edge() const { return edge_; }
  const Ids& path() const { return path_; }
  explicit operator bool() const {
    if (path_.empty()) FAIL("a moved-from or empty node is tested");
    if (log_ != nullptr && log_->on) log_->events.push_back({Event::TEST, path_});
    return g_->goals >> id() & 1;
  }
  inline iterator begin() const;
  inline iterator end() const;
  friend std::ostream& operator<<(std::ostream& os, const GNode& n) {
    for (int i : n.path_) os << i << " ";
    return os;
  }

 private:
  const Graph* g_ = nullptr;
  Log* log_ = nullptr;
  Ids path_;
  int edge_ = -1;
};

class GNode::iterator {
 public:
  using iterator_category = std::input_iterator_tag;
  using value_type = GNode;
  using difference_type = ptrdiff_t;
  using pointer = const GNode*;
  using reference = const GNode&;
  iterator(const GNode* n, size_t i) : n_(n), i_(i) { skip(); }
  iterator& operator++() {
    i_++;
    skip();
    return *this;
  }
  bool operator==(const iterator& o) const { return i_ == o.i_; }
  bool operator!=(const iterator& o) const { return i_ != o.i_; }
  const GNode& operator*() const { return cur_; }

 private:
  void skip() {
    const Ids& s = n_->g_->succ[static_cast<size_t>(n_->id())];
    for (; i_ < s.size(); i_++) {
      if (n_->g_->exclude_ancestors &&
          std::find(n_->path_.begin(), n_->path_.end(), s[i_]) != n_->path_.end()) {
        continue;
      }
      cur_ = *n_;
      cur_.path_.push_back(s[i_]);
      cur_.edge_ = static_cast<int>(i_);
      return;
    }
    i_ = s.size();
  }
  const GNode* n_;
  size_t i_;
  GNode cur_;
};

inline GNode::iterator GNode::begin() const {
  if (path_.empty()) FAIL("a moved-from or empty node is expanded");
  if (log_ != nullptr && log_->on) log_->events.push_back({Event::EXPAND, path_});
  return iterator(this, 0);
}
inline GNode::iterator GNode::end() const { return iterator(this, g_->succ[static_cast<size_t>(id())].size()); }

// All paths of at most `depth` edges that end at their first goal, as node
// ids; a path along parallel edges appears once per choice of edges.
inline void Solutions(const Graph& g, size_t depth, Ids* path, Paths* out) {
  const int v = path->back();
  if (g.goals >> v & 1) {
    out->push_back(*path);
    return;
  }
  if (path->size() > depth) return;
  for (int s : g.succ[static_cast<size_t>(v)]) {
    if (g.exclude_ancestors && std::find(path->begin(), path->end(), s) != path->end()) continue;
    path->push_back(s);
    Solutions(g, depth, path, out);
    path->pop_back();
  }
}
inline Paths Solutions(const Graph& g, size_t depth) {
  Paths out;
  Ids p = {0};
  Solutions(g, depth, &p, &out);
  std::sort(out.begin(), out.end());
  return out;
}

// The path returned by a search, checked to be a chain of parent and child.
inline Ids Legal(const Graph& g, const std::vector<GNode>& path, const std::string& what) {
  Ids ids;
  CHECK(!path.empty(), what << ": empty path");
  for (size_t i = 0; i < path.size(); i++) {
    CHECK(!path[i].path().empty(), what << ": a moved-from node is returned");
    ids.push_back(path[i].id());
    CHECK(path[i].path() == ids, what << ": node " << i << " of a returned path has other ancestors");
    if (i > 0) {
      const Ids& s = g.succ[static_cast<size_t>(ids[i - 1])];
      const int e = path[i].edge();
      CHECK(e >= 0 && static_cast<size_t>(e) < s.size() && s[static_cast<size_t>(e)] == ids[i],
            what << ": not a child");
    }
  }
  return ids;
}

inline std::string ShowPaths(const Paths& p) {
  std::string s;
  for (const Ids& x : p) {
    s += "[";
    for (int i : x) s += std::to_string(i) + " ";
    s += "] ";
  }
  return s;
}

// Limits that no path without repeated nodes can reach.
const size_t kUnlimited[4] = {SIZE_MAX, size_t{1} << 31, size_t{1} << 32, size_t{1} << 63};

// Calls f(graph, depth) for small graphs: all graphs with up to two nodes and
// parallel edges, all with three nodes (self-loops included), four nodes (all
// or a share), with every set of goals, plus some structured larger ones.
template <typename Fn>
void ForGraphs(Fn f, bool all = true) {
  const bool t = R.thorough;
  all |= t;
  auto run = [&](const std::string& name, size_t n, uint64_t count, uint64_t step,
                 const std::function<void(uint64_t, Graph*)>& make, size_t max_depth, uint64_t batch) {
    for (uint64_t b = 0; b < count; b += batch * step) {
      R.kase([&] { return name + " from " + std::to_string(b); },
             [&] {
               for (uint64_t c = b; c < std::min(count, b + batch * step); c += step) {
                 Graph g;
                 g.succ.resize(n);
                 make(c, &g);
                 for (uint32_t goals = 0; goals < (1u << n); goals++) {
                   g.goals = goals;
                   for (int ex = 0; ex < 2; ex++) {
                     g.exclude_ancestors = ex != 0;
                     for (size_t depth = 0; depth <= max_depth; depth++) f(g, depth);
                     if (ex && n <= 3) {
                       for (size_t depth : kUnlimited) f(g, depth);
                     }
                   }
                 }
               }
             });
    }
  };
  // One or two nodes, up to two parallel edges between each pair.
  auto multi = [](size_t n) {
    return [n](uint64_t c, Graph* g) {
      for (size_t i = 0; i < n; i++) {
        for (size_t j = 0; j < n; j++, c /= 3) {
          for (uint64_t k = 0; k < c % 3; k++) g->succ[i].push_back(static_cast<int>(j));
        }
      }
    };
  };
  run("one node", 1, 3, 1, multi(1), 4, 3);
  run("two nodes", 2, 81, 1, multi(2), 4, 9);
  auto simple = [](size_t n, bool loops, bool reverse) {
    return [=](uint64_t c, Graph* g) {
      for (size_t i = 0; i < n; i++) {
        for (size_t j = 0; j < n; j++) {
          if (i == j && !loops) continue;
          if (c & 1) g->succ[i].push_back(static_cast<int>(j));
          c >>= 1;
        }
        if (reverse) std::reverse(g->succ[i].begin(), g->succ[i].end());
      }
    };
  };
  run("three nodes", 3, 512, 1, simple(3, true, false), 4, 16);
  run("three nodes, reversed", 3, 512, 1, simple(3, true, true), 3, 16);
  run("four nodes", 4, 4096, all ? 1 : 5, simple(4, false, false), t ? 4 : 3, 16);
  run("four nodes, reversed", 4, 4096, all ? 1 : 23, simple(4, false, true), t ? 4 : 3, 16);
  // Five nodes: edges only forward and one backward, depth four.
  run("five nodes", 5, 1024, all ? 1 : 11,
      [](uint64_t c, Graph* g) {
        for (int i = 0; i < 5; i++) {
          for (int j = i + 1; j < 5; j++) {
            if (c & 1) g->succ[static_cast<size_t>(i)].push_back(j);
            c >>= 1;
          }
        }
        g->succ[3].push_back(1);
      },
      4, 8);
}

// Calls f(graph, depth) for graphs that are long, wide or branching, with a few
// sets of goals each: chains with one more edge, stars, combs, layers.
template <typename Fn>
void ForLargeGraphs(Fn f) {
  const bool t = R.thorough;
  using Goals = std::vector<uint64_t>;
  auto each = [&](const Graph& base, const Goals& goals, size_t max_depth) {
    Graph g = base;
    for (uint64_t x : goals) {
      g.goals = x;
      for (int ex = 0; ex < 2; ex++) {
        g.exclude_ancestors = ex != 0;
        for (size_t depth = 0; depth <= max_depth; depth++) f(g, depth);
        if (ex) f(g, kUnlimited[g.succ.size() % 4]);
      }
    }
  };
  auto bit = [](size_t i) { return uint64_t{1} << i; };
  const size_t longest = t ? 14 : 10;
  for (size_t n = 5; n <= longest; n++) {
    R.kase([&] { return "chains of " + std::to_string(n) + " nodes with one more edge"; },
           [&] {
             for (size_t i = 0; i < n; i++) {
               for (size_t j = 0; j < n; j++) {
                 for (int front = 0; front < 2; front++) {
                   Graph g;
                   g.succ.resize(n);
                   for (size_t k = 0; k + 1 < n; k++) g.succ[k].push_back(static_cast<int>(k + 1));
                   g.succ[i].insert(front ? g.succ[i].begin() : g.succ[i].end(), static_cast<int>(j));
                   each(g, {bit(n - 1), bit(n - 1) | bit(n / 2), 0}, n + 1);
                 }
               }
             }
           });
  }
  for (size_t n : {20, 33, 62}) {
    R.kase([&] { return "long chains of " + std::to_string(n) + " nodes with one more edge"; },
           [&] {
             for (size_t i : {size_t{0}, size_t{1}, n / 2, n - 3}) {
               for (size_t j : {n / 2, n - 2, n - 1}) {
                 if (j <= i) continue;
                 Graph g;
                 g.succ.resize(n);
                 for (size_t k = 0; k + 1 < n; k++) g.succ[k].push_back(static_cast<int>(k + 1));
                 g.succ[i].push_back(static_cast<int>(j));
                 g.succ[n - 1].push_back(static_cast<int>(n - 2));
                 for (uint64_t x : {bit(n - 1), bit(n - 1) | bit(n / 2), uint64_t{0}}) {
                   g.goals = x;
                   for (int ex = 0; ex < 2; ex++) {
                     g.exclude_ancestors = ex != 0;
                     for (size_t depth : {n / 2, n - 2, n - 1, n, n + 3}) f(g, depth);
                   }
                 }
               }
             }
           });
  }
  // A chain whose nodes have many leaves each.
  for (size_t leaves : {7, 12, 20}) {
    R.kase([&] { return "a chain with " + std::to_string(leaves) + " leaves per node"; },
           [&] {
             const size_t n = 63 / (leaves + 1);
             for (int front = 0; front < 2; front++) {
               Graph g;
               g.succ.resize(n * (leaves + 1));
               uint64_t even = 0, all = 0;
               for (size_t k = 0; k < n; k++) {
                 for (size_t l = 0; l < leaves; l++) {
                   const size_t leaf = n + k * leaves + l;
                   g.succ[k].push_back(static_cast<int>(leaf));
                   all |= bit(leaf);
                   if (l % 2 == 0) even |= bit(leaf);
                 }
                 if (k + 1 < n) g.succ[k].insert(front ? g.succ[k].begin() : g.succ[k].end(), static_cast<int>(k + 1));
               }
               each(g, {all, even, bit(n), bit(n * (leaves + 1) - 1)}, n + 1);
             }
           });
  }
  const size_t widest = 62;
  for (size_t m = 2; m <= widest; m += 2) {
    R.kase([&] { return "stars and combs of width " + std::to_string(m); },
           [&] {
             Graph star, comb;
             star.succ.resize(m + 2);
             for (size_t k = 1; k <= m; k++) {
               star.succ[0].push_back(static_cast<int>(k));
               star.succ[k].push_back(static_cast<int>(m + 1));
             }
             const uint64_t mids = bit(m + 1) - 2;
             each(star, {bit(m + 1), mids, mids & 0x5555555555555555ull, bit(1) | bit(m + 1), bit(m) | bit(m + 1)}, 3);
             // A chain with a leaf at every node.
             const size_t n = m / 2;
             comb.succ.resize(2 * n);
             for (size_t k = 0; k < n; k++) {
               comb.succ[k].push_back(static_cast<int>(n + k));
               if (k + 1 < n) comb.succ[k].push_back(static_cast<int>(k + 1));
             }
             const uint64_t leaves = bit(2 * n) - bit(n);
             each(comb, {leaves, bit(2 * n - 1), bit(n), leaves & 0x3333333333333333ull}, n + 1);
             for (auto& s : comb.succ) std::reverse(s.begin(), s.end());
             each(comb, {leaves, bit(2 * n - 1)}, n + 1);
           });
  }
  for (size_t b : {2, 3, 4, 6, 9}) {
    const size_t layers = (b == 2 ? 8 : b == 3 ? 5 : b == 4 ? 4 : 3) + (t && b <= 6 ? 1 : 0);
    for (size_t k = 1; k <= layers; k++) {
      R.kase([&] { return std::to_string(k) + " layers of " + std::to_string(b) + " nodes"; },
             [&] {
               Graph g;
               g.succ.resize(1 + k * b);
               auto layer = [&](size_t l, std::vector<int>* out) {
                 for (size_t x = 0; x < b; x++) out->push_back(static_cast<int>(1 + l * b + x));
               };
               layer(0, &g.succ[0]);
               for (size_t l = 0; l + 1 < k; l++) {
                 for (size_t x = 0; x < b; x++) layer(l + 1, &g.succ[1 + l * b + x]);
               }
               const uint64_t last = bit(1 + k * b) - bit(1 + (k - 1) * b);
               each(g, {last, bit(k * b), last | bit(1), 0}, k + 1);
             });
    }
  }
}

// --------------------------------------------------------- real problems
struct Plan {
  std::vector<std::string> calls;
  bool operator<(const Plan& o) const { return calls < o.calls; }
  bool operator==(const Plan& o) const { return calls == o.calls; }
};

inline void Plans(const ref::Model& m, size_t depth, std::vector<Mask>* path, Plan* plan,
                  std::vector<Plan>* out) {
  if (m.is_goal(path->back())) {
    out->push_back(*plan);
    return;
  }
  if (plan->calls.size() >= depth) return;
  for (size_t c = 0; c < m.calls.size(); c++) {
    if (!m.applicable(path->back(), c)) continue;
    const Mask n = *m.next(path->back(), c);
    if (std::find(path->begin(), path->end(), n) != path->end()) continue;
    path->push_back(n);
    plan->calls.push_back(m.calls[c].text);
    Plans(m, depth, path, plan, out);
    plan->calls.pop_back();
    path->pop_back();
  }
}

// A path of planner nodes: legal, and read as a plan.
inline Plan LegalPlan(const ref::Model& m, const Bridge& br, Mask root,
                      const std::vector<symbolic::Planner::Node>& path) {
  Plan p;
  CHECK(!path.empty(), "empty path");
  Mask s = root;
  for (size_t i = 0; i < path.size(); i++) {
    const auto& n = path[i];
    CHECK(n.depth() == i, "depth of node " << i);
    if (i > 0) {
      size_t c = 0;
      while (c < m.calls.size() && m.calls[c].text != n.action()) c++;
      CHECK(c < m.calls.size(), "unknown action " << n.action());
      CHECK(m.applicable(s, c), "action " << n.action() << " is not applicable");
      s = *m.next(s, c);
      p.calls.push_back(n.action());
    }
    CHECK(br.mask(n.state()) == s, "state of node " << i);
    CHECK(m.is_goal(s) == (i + 1 == path.size()), "goal at node " << i);
  }
  return p;
}

// Calls f(model, pddl, bridge, root, depth, expected plans sorted).
template <typename Fn>
void ForProblems(Fn f) {
  const bool t = R.thorough;
  static const std::vector<ref::Menu> menus = ref::Menus();
  auto one = [&](const ref::Menu& menu, const std::vector<size_t>& which, size_t init, size_t goal, size_t depth) {
    const ref::Dom d = menu.with(which, init, goal);
    const ref::Model model(d);
    if (!model.usable) FAIL("unusable menu");
    const auto root = model.settle(model.init);
    if (!root || !model.reachable(*root)) {
      R.extra["excluded"]++;
      return;
    }
    auto pddl = Load(d);
    const Bridge br(model.w, *pddl);
    for (size_t k = 0; k <= depth; k++) {
      std::vector<Plan> want;
      std::vector<Mask> path = {*root};
      Plan plan;
      Plans(model, k, &path, &plan, &want);
      std::sort(want.begin(), want.end());
      R.extra["plans"] += want.size();
      R.states++;
      if (want.size() > 20000) break;
      try {
        f(model, *pddl, br, *root, k, want);
      } catch (const Failure& e) {
        throw Failure(e.key, e.what() + std::string("\ndepth limit ") + std::to_string(k) + "\n" +
                                 ref::domain_text(d) + ref::problem_text(d));
      }
    }
    R.traces++;
  };
  for (const ref::Menu& m : menus) {
    const size_t n = m.actions.size();
    for (size_t init = 0; init < m.inits.size(); init++) {
      for (size_t i = 0; i < n; i++) {
        R.kase([&] { return m.name + ": problems with action " + std::to_string(i) + " init " + std::to_string(init); },
               [&] {
                 for (size_t goal = 0; goal < m.goals.size(); goal++) {
                   if (i == 0) one(m, {}, init, goal, 2);
                   one(m, {i}, init, goal, 3);
                   for (size_t j = 0; j < n; j++) {
                     if (t || (i + j + goal) % 2 == 0) one(m, {i, j}, init, goal, 3);
                     const size_t k = (i + 2 * j + goal + 1) % n;
                     if (t || (i + j + goal) % 5 == 0) one(m, {i, j, k}, init, goal, t ? 4 : 3);
                     if (t || (i + j + goal) % 11 == 0) one(m, {i, j, k, (k + 3) % n}, init, goal, 3);
                   }
                 }
               });
      }
    }
  }
}

}  // namespace H

#endif  // VERIF_SEARCH_H_
