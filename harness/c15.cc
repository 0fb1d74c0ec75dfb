// C15: a search node's children are exactly its unvisited successors.
#include "bridge.h"
#include "model.h"
#include "symbolic/planning/planner.h"

namespace {
using namespace H;
using ref::Menu;
using ref::Model;
using symbolic::Planner;
using Node = Planner::Node;

struct Child {
  std::string call;
  Mask state;
};

struct Explorer {
  const Model& model;
  const Bridge& br;
  size_t max_depth;
  size_t base_depth = 0;  // depth of the root node

  std::vector<Child> Expected(Mask m, const std::vector<Mask>& path) const {
    std::vector<Child> out;
    for (size_t c = 0; c < model.calls.size(); c++) {
      if (!model.applicable(m, c)) continue;
      const Mask n = *model.next(m, c);
      if (std::find(path.begin(), path.end(), n) != path.end()) continue;
      out.push_back({model.calls[c].text, n});
    }
    return out;
  }
  std::string Show(const std::vector<Mask>& path) const {
    std::string s = "node";
    for (Mask m : path) s += " -> " + br.w.show(m);
    return s;
  }
  void Same(const Node& n, const Child& want, size_t depth, const std::function<std::string()>& what) const {
    CHECK(n.action() == want.call, what() << ": child " << n.action() << " instead of " << want.call);
    const Mask got = br.mask(n.state());
    CHECK(got == want.state, what() << ": child " << want.call << " has state " << br.w.show(got)
                                    << " instead of " << br.w.show(want.state));
    CHECK(n.depth() == base_depth + depth, what() << ": child " << want.call << " has depth " << n.depth());
    CHECK(static_cast<bool>(n) == model.is_goal(got), what() << ": goal in " << br.w.show(got));
  }
  void Compare(const Node& a, const Node& b, const std::function<std::string()>& what) const {
    const bool same = br.mask(a.state()) == br.mask(b.state());
    CHECK((a == b) == same && (b == a) == same, what() << ": " << a.action() << " and " << b.action() << " compare "
                                                       << (same ? "unequal" : "equal"));
    CHECK(!same || std::hash<Node>{}(a) == std::hash<Node>{}(b), what() << ": hashes of equal nodes");
    CHECK((a < b) == (a.state() < b.state()) && (b < a) == (b.state() < a.state()) && (a < b) + (b < a) == !same,
          what() << ": order of " << a.action() << " and " << b.action());
  }
  std::vector<Node> Iterate(const Node& n, const std::vector<Child>& want, size_t depth,
                            const std::function<std::string()>& what) const {
    std::vector<Node> kids;
    for (const Node& k : n) {
      R.transitions++;
      CHECK(kids.size() < want.size(), what() << ": extra child " << k.action() << " with state "
                                              << br.w.show(br.mask(k.state())));
      Same(k, want[kids.size()], depth, what);
      kids.push_back(k);
    }
    CHECK(kids.size() == want.size(), what() << ": child missing, expected next: " << want[kids.size()].call);
    // Nodes compare as their states do.
    for (size_t i = 0; i < kids.size() && i < 6; i++) {
      Compare(n, kids[i], what);
      for (size_t j = 0; j < kids.size() && j < 6; j++) Compare(kids[i], kids[j], what);
    }
    return kids;
  }
  // Two iterations advanced in every possible interleaving.
  void Interleave(const Node& a, const std::vector<Child>& wa, size_t da, const Node& b,
                  const std::vector<Child>& wb, size_t db, const std::function<std::string()>& what) const {
    const size_t steps = wa.size() + wb.size();
    if (steps > 7 || steps == 0) return;
    for (uint32_t s = 0; s < (1u << steps); s++) {
      if (static_cast<size_t>(__builtin_popcount(s)) != wa.size()) continue;
      auto ia = a.begin();
      auto ib = b.begin();
      size_t x = 0, y = 0;
      for (size_t k = 0; k <= steps; k++) {
        if (x < wa.size()) {
          CHECK(ia != a.end(), what() << ": first of two iterations ends early");
          Same(*ia, wa[x], da, what);
        } else {
          CHECK(ia == a.end(), what() << ": first of two iterations goes on");
        }
        if (y < wb.size()) {
          CHECK(ib != b.end(), what() << ": second of two iterations ends early");
          Same(*ib, wb[y], db, what);
        } else {
          CHECK(ib == b.end(), what() << ": second of two iterations goes on");
        }
        if (k == steps) break;
        R.transitions++;
        if (s >> k & 1) {
          ++ia;
          x++;
        } else {
          ++ib;
          y++;
        }
      }
      R.extra["interleavings"]++;
    }
  }
  void Backwards(const Node& n, const std::vector<Child>& want, size_t depth,
                 const std::function<std::string()>& what) const {
    // From the end to the first child, and back and forth at each place.
    auto it = n.end();
    for (size_t i = want.size(); i-- > 0;) {
      --it;
      CHECK(it != n.end(), what() << ": stepping back stays at the end");
      Same(*it, want[i], depth, [&] { return "backwards: " + what(); });
    }
    auto fwd = n.begin();
    for (size_t i = 1; i < want.size(); i++) {
      ++fwd;
      auto back = fwd;
      --back;
      Same(*back, want[i - 1], depth, [&] { return "one back: " + what(); });
      ++back;
      Same(*back, want[i], depth, [&] { return "one back and forth: " + what(); });
    }
  }
  void Visit(const Node& n, std::vector<Mask>* path, bool heavy) const {
    const Mask m = path->back();
    const size_t depth = path->size();
    const auto want = Expected(m, *path);
    auto what = [&] { return Show(*path); };
    R.states++;
    std::vector<Node> kids = Iterate(n, want, depth, what);
    if (heavy) {
      Iterate(n, want, depth, [&] { return "again: " + what(); });
      Backwards(n, want, depth, what);
      Interleave(n, want, depth, n, want, depth, what);
      // A node and one of its children.
      for (size_t i = 0; i < kids.size() && i < 2; i++) {
        std::vector<Mask> p2 = *path;
        p2.push_back(want[i].state);
        Interleave(n, want, depth, kids[i], Expected(want[i].state, p2), depth + 1, what);
      }
    }
    // The children of each child after all have been made (they share what
    // they know of their ancestors), and with the parent's handle gone.
    if (path->size() > max_depth) return;
    for (size_t i = 0; i < kids.size(); i++) {
      path->push_back(want[i].state);
      const Node kid = std::move(kids[i]);
      Visit(kid, path, heavy && depth < 3);
      path->pop_back();
    }
  }
};

void One(const Menu& menu, const std::vector<size_t>& which, size_t init, size_t depth, bool heavy) {
  const ref::Dom d = menu.with(which, init, init + which.size());
  const Model model(d);
  if (!model.usable) FAIL("unusable menu");
  const auto root = model.settle(model.init);
  if (!root) {
    R.extra["excluded"]++;
    return;
  }
  if (!model.reachable(*root)) {
    R.extra["excluded"]++;
    return;
  }
  auto pddl = Load(d);
  const Bridge br(model.w, *pddl);
  std::string acts;
  for (const auto& a : d.actions) acts += ref::text(a) + "\n";
  try {
    const Planner planner(*pddl);
    const Mask m = br.mask(planner.root().state());
    CHECK(m == *root, "root state " << br.w.show(m) << " instead of " << br.w.show(*root));
    CHECK(planner.root().depth() == 0 && planner.root().action().empty(), "depth or action of the root");
    Explorer ex{model, br, depth};
    std::vector<Mask> path = {m};
    ex.Visit(planner.root(), &path, heavy);
    {
      // Children outlive the handle of their parent.
      Node top(*pddl, br.state(m));
      const auto want = ex.Expected(m, {m});
      std::vector<Node> kids = ex.Iterate(top, want, 1, [] { return "a node of its own"; });
      top = Node();
      for (size_t i = 0; i < kids.size(); i++) {
        std::vector<Mask> p = {m, want[i].state};
        Explorer{model, br, 1}.Visit(kids[i], &p, false);
      }
    }
    // From other states, through both constructors.
    for (Mask s : {Mask(0), model.w.full() & ~model.rules.derived, Mask(0x15) & model.w.full() & ~model.rules.derived}) {
      const auto settled = model.settle(s);
      if (!settled || !model.reachable(*settled)) continue;
      const Planner other(*pddl, br.state(s));
      const Mask o = br.mask(other.root().state());
      CHECK(o == *settled, "root from " << br.w.show(s) << " is " << br.w.show(o) << " instead of "
                                        << br.w.show(*settled));
      path = {o};
      Explorer{model, br, 1}.Visit(other.root(), &path, false);
      Explorer deep{model, br, 0, 3};
      path = {o};
      deep.Visit(Node(*pddl, br.state(o), 3), &path, false);
    }
  } catch (const Failure& f) {
    throw Failure(f.key, f.what() + std::string("\nwith the actions\n") + acts);
  }
  R.traces++;
}

}  // namespace

void H::Main() {
  R.case_cpu_s = 200;
  const bool t = R.thorough;
  static const std::vector<Menu> menus = ref::Menus();
  for (const Menu& m : menus) {
    const size_t n = m.actions.size();
    for (size_t init = 0; init < m.inits.size(); init++) {
      R.kase([&] { return m.name + ": no actions"; }, [&] { One(m, {}, init, 3, true); });
      for (size_t i = 0; i < n; i++) {
        R.kase([&] { return m.name + ": action " + std::to_string(i) + " init " + std::to_string(init); },
               [&] { One(m, {i}, init, 4, true); });
        R.kase([&] { return m.name + ": pairs with action " + std::to_string(i) + " init " + std::to_string(init); },
               [&] {
                 for (size_t j = 0; j < n; j++) One(m, {i, j}, init, t ? 4 : 3, true);
               });
        R.kase([&] { return m.name + ": triples with action " + std::to_string(i) + " init " + std::to_string(init); },
               [&] {
                 for (size_t j = 0; j < n; j++) {
                   for (size_t k = 0; k < n; k++) {
                     if (!t && (i + j + k + init) % 3 != 0) continue;
                     One(m, {i, j, k}, init, t ? 3 : 2, (i + j * 3 + k) % 5 == 0);
                   }
                 }
               });
        R.kase([&] { return m.name + ": larger sets with action " + std::to_string(i) + " init " + std::to_string(init); },
               [&] {
                 for (size_t s : {1, 2, 3, 5}) {
                   One(m, {i, i + s, i + 2 * s, i + 3 * s}, init, t ? 3 : 2, false);
                   One(m, {i, i + s, i + s + 1, i + 2 * s, i + 3 * s, i + 4 * s}, init, t ? 3 : 2, false);
                 }
               });
      }
      R.kase([&] { return m.name + ": all actions"; },
             [&] {
               std::vector<size_t> all, rev;
               for (size_t i = 0; i < n; i++) all.push_back(i);
               rev.assign(all.rbegin(), all.rend());
               One(m, all, init, 2, true);
               One(m, rev, init, 2, true);
             });
    }
  }
}
