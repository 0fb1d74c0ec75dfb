// Small planning problems and the transition system they stand for.
#ifndef VERIF_MODEL_H_
#define VERIF_MODEL_H_

#include <optional>

#include "axioms.h"
#include "derived.h"

namespace ref {

// The transition system of a problem.  States include derived propositions.
struct Model {
  const World w;
  const AxiomSystem ax;
  const Rules rules;
  struct Call {
    size_t op;
    std::vector<int> args;
    Str text;
  };
  std::vector<COp> ops;
  std::vector<Call> calls;  // declaration order, then enumeration order
  CF goal;
  Mask init = 0;            // as written, without closure
  bool usable = true;       // the semantics of the domain is unambiguous
  mutable std::map<std::pair<Mask, size_t>, std::optional<Mask>> memo;

  explicit Model(const Dom& d) : w(d), ax(w), rules(w) {
    for (const Op& o : d.actions) {
      ops.push_back(w.compile(o));
      for (const auto& t : w.tuples(ops.back().ranges)) {
        calls.push_back({ops.size() - 1, t, w.call(o.name, t)});
      }
    }
    goal = w.compile(d.goal, {});
    for (const auto& p : d.init) init |= Mask(1) << w.bit_of.at(ground_name(p.first, p.second));
    if (ax.ill_typed || ax.oscillates() || !rules.stratified) usable = false;
  }
  bool applicable(Mask m, size_t c) const { return w.holds(ops[calls[c].op], calls[c].args, m); }
  // Nothing if the semantics leaves the result open.
  std::optional<Mask> next(Mask m, size_t c) const {
    const auto key = std::make_pair(m, c);
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    std::optional<Mask> r;
    const auto ch = w.change(ops[calls[c].op], calls[c].args, m);
    if (!ch.error && !ch.ill_typed && (ch.add & ch.del) == 0) {
      if (ax.inst.empty()) {
        r = rules.close((m & ~ch.del) | ch.add);
      } else {
        const auto o = ax.explore(m, bag_of(ch.seq), false);
        if (o.unique()) r = rules.close(*o.ends.begin());
      }
    }
    memo[key] = r;
    return r;
  }
  // Made consistent with the axioms and completed with derived propositions.
  std::optional<Mask> settle(Mask m) const {
    if (ax.inst.empty()) return rules.close(m);
    const auto o = ax.explore(m, 0, true);
    if (!o.unique()) return {};
    return rules.close(*o.ends.begin());
  }
  bool is_goal(Mask m) const {
    World::Env env;
    return w.eval(goal, env, m);
  }
  // All states reachable from m; nothing if some applicable transition is open.
  std::optional<std::set<Mask>> reachable(Mask m, bool only_applicable = true) const {
    std::set<Mask> seen = {m};
    std::vector<Mask> work = {m};
    while (!work.empty()) {
      const Mask s = work.back();
      work.pop_back();
      for (size_t c = 0; c < calls.size(); c++) {
        if (only_applicable && !applicable(s, c)) continue;
        const auto n = next(s, c);
        if (!n) return {};
        if (seen.insert(*n).second) work.push_back(*n);
      }
    }
    return seen;
  }
};

// A domain without actions, and actions to choose from.
struct Menu {
  Str name;
  Dom d;
  std::vector<Op> actions;
  std::vector<F> goals;
  std::vector<std::vector<std::pair<Str, std::vector<Str>>>> inits;
  void add(Vars ps, F pre, E eff) {
    Op o;
    o.name = "act" + std::to_string(actions.size());
    o.params = std::move(ps);
    o.pre = std::move(pre);
    o.eff = std::move(eff);
    actions.push_back(o);
  }
  Dom with(const std::vector<size_t>& which, size_t init, size_t goal) const {
    Dom x = d;
    for (size_t i : which) x.actions.push_back(actions[i % actions.size()]);
    // The same action twice needs two names.
    for (size_t i = 0; i < x.actions.size(); i++) {
      for (size_t j = 0; j < i; j++) {
        if (x.actions[i].name == x.actions[j].name) x.actions[i].name += "again";
      }
    }
    x.init = inits[init % inits.size()];
    x.goal = goals[goal % goals.size()];
    return x;
  }
};

inline std::vector<Menu> Menus() {
  std::vector<Menu> out;
  {
    Menu m;
    m.name = "switches";
    m.d.name = "switches";
    m.d.types_section = false;
    m.d.preds = {{"a", {}}, {"b", {}}, {"c", {}}};
    const F a = A("a"), b = A("b"), c = A("c");
    m.add({}, And(), Add("a"));
    m.add({}, a, Lst({Del("a"), Add("b")}));
    m.add({}, b, Add("c"));
    m.add({}, And(), Del("a"));
    m.add({}, Or({a, c}), Lst({Del("c"), Del("a"), Add("b")}));
    m.add({}, And({Not(a), b}), Lst({Add("a"), Del("b")}));
    m.add({}, And(), Lst({When(a, Del("a")), When(Not(a), Add("a"))}));
    m.add({}, And(), Lst({When(b, Add("c")), When(c, Del("b"))}));
    m.add({}, Not(c), Add("c"));
    m.add({}, Or(), Add("c"));
    m.add({}, And(), Lst());
    m.goals = {c, And({a, b, c}), And(), Or(), And({Not(a), b}), And({c, Not(b)})};
    m.inits = {{}, {{"a", {}}}, {{"b", {}}, {"c", {}}}};
    out.push_back(m);
  }
  {
    Menu m;
    m.name = "objects";
    m.d.name = "objects";
    m.d.types = {{"t", ""}, {"emp", "t"}, {"u", "t"}};
    m.d.consts = {{"k", "u"}};
    m.d.objs = {{"o", "t"}};
    m.d.preds = {{"p", {{"x", "t"}}}, {"r", {{"x", "t"}, {"y", "u"}}}, {"h", {}}};
    const Vars x = {{"x", "t"}}, e = {{"x", "emp"}}, xy = {{"x", "t"}, {"y", "t"}}, xu = {{"x", "t"}, {"y", "u"}},
               xe = {{"x", "t"}, {"y", "emp"}};
    m.add({}, Not(A("h")), Add("h"));
    m.add(e, And(), Add("p", {"?x"}));
    m.add(x, Not(A("p", {"?x"})), Add("p", {"?x"}));
    m.add(xy, And({A("p", {"?x"}), Not(A("p", {"?y"}))}), Lst({Del("p", {"?x"}), Add("p", {"?y"})}));
    m.add(xu, A("p", {"?x"}), Add("r", {"?x", "?y"}));
    m.add({}, And(), EAll(x, Del("p", {"?x"})));
    m.add(xe, And(), Add("h"));
    m.add(x, Not(A("=", {"?x", "k"})), Lst({Add("p", {"k"}), Add("r", {"?x", "k"})}));
    m.add({}, A("h"), Lst({Del("h"), EAll(x, When(A("p", {"?x"}), Del("r", {"?x", "k"})))}));
    m.add(x, A("u", {"?x"}), Add("h"));
    m.add(x, Or(), Del("h"));
    m.goals = {All(x, A("p", {"?x"})), A("r", {"o", "k"}), And({A("h"), Ex(x, A("p", {"?x"}))}), And(), Or(),
               Not(Ex(x, A("p", {"?x"})))};
    m.inits = {{}, {{"p", {"o"}}}, {{"p", {"k"}}, {"r", {"k", "k"}}, {"h", {}}}};
    out.push_back(m);
  }
  {
    Menu m;
    m.name = "derived";
    m.d.name = "derived";
    m.d.types = {{"t", ""}};
    m.d.objs = {{"a", "t"}, {"b", "t"}};
    m.d.preds = {{"p", {{"x", "t"}}}, {"e", {{"x", "t"}, {"y", "t"}}}, {"d", {{"x", "t"}}}, {"z", {}}};
    const Vars x = {{"x", "t"}}, y = {{"y", "t"}}, xy = {{"x", "t"}, {"y", "t"}};
    m.d.ders = {{"d", x, Or({A("p", {"?x"}), Ex(y, And({A("e", {"?x", "?y"}), A("d", {"?y"})}))})},
                {"z", {}, Not(Ex(x, A("d", {"?x"})))}};
    m.add(x, Not(A("d", {"?x"})), Add("p", {"?x"}));
    m.add(x, A("p", {"?x"}), Del("p", {"?x"}));
    m.add(xy, Not(A("=", {"?x", "?y"})), Add("e", {"?x", "?y"}));
    m.add(xy, A("d", {"?x"}), Lst({Del("e", {"?x", "?y"}), Add("p", {"?y"})}));
    m.add({}, A("z"), EAll(x, Add("e", {"?x", "?x"})));
    m.add({}, And(), EAll(x, When(A("d", {"?x"}), Del("p", {"?x"}))));
    m.add({}, Not(A("z")), EAll(xy, Del("e", {"?x", "?y"})));
    m.goals = {A("d", {"a"}), A("z"), All(x, A("d", {"?x"})), And({Not(A("z")), A("e", {"a", "b"})}), And(), Or()};
    m.inits = {{}, {{"e", {"a", "b"}}}, {{"p", {"b"}}, {"e", {"a", "b"}}}};
    out.push_back(m);
  }
  {
    Menu m;
    m.name = "axioms";
    m.d.name = "axioms";
    m.d.types = {{"t", ""}};
    m.d.consts = {{"a", "t"}};
    m.d.objs = {{"b", "t"}};
    m.d.preds = {{"p", {{"x", "t"}}}, {"q", {{"x", "t"}}}, {"n", {}}};
    const Vars x = {{"x", "t"}}, xy = {{"x", "t"}, {"y", "t"}};
    auto axiom = [&](Vars ps, F c, E i) {
      Op o;
      o.name = "axiom";
      o.params = ps;
      o.pre = c;
      o.eff = i;
      m.d.axioms.push_back(o);
    };
    axiom(x, A("p", {"?x"}), Del("q", {"?x"}));
    axiom(x, A("p", {"a"}), Add("n"));
    m.add(x, Not(A("p", {"?x"})), Add("p", {"?x"}));
    m.add(x, A("p", {"?x"}), Lst({Del("p", {"?x"}), Add("q", {"?x"})}));
    m.add(x, Not(A("p", {"?x"})), Add("q", {"?x"}));
    m.add({}, Not(A("p", {"a"})), Del("n"));
    m.add(xy, And({A("p", {"?x"}), A("q", {"?y"})}), Lst({Del("p", {"?x"}), Add("p", {"?y"})}));
    m.add({}, And(), EAll(x, Add("p", {"?x"})));
    m.add({}, A("n"), EAll(x, Del("p", {"?x"})));
    m.add(x, A("n"), When(Not(A("q", {"?x"})), Add("p", {"?x"})));
    m.goals = {A("n"), And({A("p", {"a"}), A("p", {"b"})}), And({A("q", {"a"}), A("n")}), And(), Or(),
               And({A("q", {"a"}), A("q", {"b"})})};
    m.inits = {{}, {{"q", {"a"}}, {"q", {"b"}}}, {{"p", {"a"}}, {"q", {"b"}}}};
    out.push_back(m);
  }
  {
    // Derived propositions and axioms together; names as in the shipped example.
    Menu m;
    m.name = "hooks";
    m.d.name = "hooks";
    m.d.types = {{"physobj", "object"}, {"movable", "physobj"}, {"tool", "movable"}};
    m.d.consts = {{"table", "physobj"}};
    m.d.objs = {{"hook", "tool"}, {"box", "movable"}};
    m.d.preds = {{"inhand", {{"a", "movable"}}}, {"on", {{"a", "movable"}, {"b", "physobj"}}}, {"free", {}},
                 {"reach", {{"a", "physobj"}}}};
    const Vars a = {{"a", "movable"}}, ab = {{"a", "movable"}, {"b", "physobj"}}, tb = {{"a", "tool"}, {"b", "movable"}};
    Op ax;
    ax.name = "axiom";
    ax.params = ab;
    ax.pre = A("inhand", {"?a"});
    ax.eff = Del("on", {"?a", "?b"});
    m.d.axioms.push_back(ax);
    m.d.ders = {{"free", {}, Not(Ex(a, A("inhand", {"?a"})))},
                {"reach", {{"a", "physobj"}}, Or({A("=", {"?a", "table"}), Ex(ab, And({A("on", {"?a", "?b"}), A("reach", {"?b"})}))})}};
    m.add(a, And({A("free"), Not(A("inhand", {"?a"}))}), Add("inhand", {"?a"}));
    m.add(ab, And({A("inhand", {"?a"}), Not(A("=", {"?a", "?b"}))}), Lst({Del("inhand", {"?a"}), Add("on", {"?a", "?b"})}));
    m.add(tb, And({A("inhand", {"?a"}), A("on", {"?b", "table"})}), Lst({Del("on", {"?b", "table"}), Add("on", {"?b", "?a"})}));
    m.add({}, Not(A("free")), EAll(a, When(A("inhand", {"?a"}), Lst({Del("inhand", {"?a"}), Add("on", {"?a", "table"})}))));
    m.goals = {A("on", {"box", "hook"}), A("inhand", {"hook"}), And({A("free"), A("on", {"hook", "box"})}), And(), Or()};
    m.inits = {{{"on", {"hook", "table"}}, {"on", {"box", "table"}}}, {{"inhand", {"box"}}, {"on", {"box", "table"}}}};
    out.push_back(m);
  }
  return out;
}

}  // namespace ref

#endif  // VERIF_MODEL_H_
