// C11: derived predicates hold exactly when their rules make them hold.
#include "bridge.h"
#include "derived.h"
#include "effs.h"

namespace {
using namespace H;
using ref::A;
using ref::And;
using ref::Der;
using ref::Ex;
using ref::F;
using ref::Not;
using ref::Or;
using ref::Vars;

struct Vocab {
  std::string name;
  ref::Dom d;
  std::vector<Der> rules;
};

ref::F ForAll(Vars v, F f) { return ref::All(std::move(v), std::move(f)); }

// Rules over two objects, with one, two and no parameters.
Vocab Graph() {
  Vocab v;
  v.name = "graph";
  v.d.name = "graph";
  v.d.types = {{"t", ""}};
  v.d.consts = {{"a", "t"}};
  v.d.objs = {{"b", "t"}};
  v.d.preds = {{"p", {{"x", "t"}}}, {"r", {{"x", "t"}, {"y", "t"}}}, {"d", {{"x", "t"}}},
               {"e", {{"x", "t"}, {"y", "t"}}}, {"z", {}}};
  const Vars x = {{"x", "t"}}, xy = {{"x", "t"}, {"y", "t"}}, y = {{"y", "t"}}, zz = {{"w", "t"}};
  auto D = [&](F f) { v.rules.push_back({"d", x, f}); };
  auto E = [&](F f) { v.rules.push_back({"e", xy, f}); };
  auto Z = [&](F f) { v.rules.push_back({"z", {}, f}); };
  D(A("p", {"?x"}));
  D(A("r", {"?x", "?x"}));
  D(A("r", {"?x", "a"}));
  D(Not(A("p", {"?x"})));
  D(A("d", {"?x"}));
  D(Ex(y, And({A("r", {"?x", "?y"}), A("d", {"?y"})})));
  D(Or({A("p", {"?x"}), Ex(y, And({A("r", {"?x", "?y"}), A("d", {"?y"})}))}));
  D(ForAll(y, Or({Not(A("r", {"?x", "?y"})), A("d", {"?y"})})));
  D(Ex(y, A("e", {"?y", "?x"})));
  D(A("e", {"?x", "?x"}));
  D(A("e", {"a", "?x"}));
  D(A("z"));
  D(Not(A("z")));
  D(Not(A("e", {"?x", "?x"})));
  D(And({A("p", {"?x"}), Not(Ex(y, A("e", {"?x", "?y"})))}));
  D(Not(Or({A("e", {"?x", "?x"}), A("p", {"?x"})})));
  D(Not(And({A("e", {"?x", "a"}), Ex(y, A("e", {"?y", "?x"}))})));
  D(Or());
  D(And());
  D(A("=", {"?x", "a"}));
  D(A("d", {"a"}));
  D(Not(Not(A("d", {"a"}))));
  E(A("r", {"?x", "?y"}));
  E(A("r", {"?y", "?x"}));
  E(Ex(zz, And({A("e", {"?x", "?w"}), A("e", {"?w", "?y"})})));
  E(Ex(zz, And({A("r", {"?x", "?w"}), A("e", {"?w", "?y"})})));
  E(A("e", {"?y", "?x"}));
  E(And({A("d", {"?x"}), A("d", {"?y"})}));
  E(And({A("d", {"?x"}), Not(A("d", {"?y"}))}));
  E(And({Not(A("=", {"?x", "?y"})), A("p", {"?x"})}));
  E(Not(Or({A("r", {"?x", "?y"}), Not(Not(A("d", {"?y"})))})));
  E(Not(A("r", {"?x", "?y"})));
  E(And({A("z"), A("r", {"?y", "?x"})}));
  Z(A("p", {"a"}));
  Z(Ex(x, A("d", {"?x"})));
  Z(ForAll(x, A("d", {"?x"})));
  Z(ForAll(x, Not(A("d", {"?x"}))));
  Z(Ex(xy, And({A("e", {"?x", "?y"}), A("e", {"?y", "?x"})})));
  Z(Not(Ex(x, A("e", {"?x", "?x"}))));
  Z(Not(Or({A("p", {"a"}), Ex(x, A("d", {"?x"}))})));
  Z(A("z"));
  return v;
}

// Heads and quantifiers of different types.
Vocab Typed() {
  Vocab v;
  v.name = "typed";
  v.d.name = "typed";
  v.d.types = {{"t", ""}, {"u", "t"}, {"emp", "t"}};
  v.d.consts = {{"k", "u"}, {"m", "t"}};
  v.d.preds = {{"p", {{"x", "t"}}}, {"q", {{"x", "u"}}}, {"d", {{"x", "t"}}},
               {"f", {{"x", "u"}, {"y", "t"}}}, {"c", {{"x", "t"}}}};
  const Vars xt = {{"x", "t"}}, xu = {{"x", "u"}}, ye = {{"y", "emp"}}, yt = {{"y", "t"}},
             ut = {{"x", "u"}, {"y", "t"}}, yx = {{"y", "u"}, {"x", "u"}}, xe = {{"x", "emp"}};
  auto add = [&](const char* p, Vars ps, F f) { v.rules.push_back({p, ps, f}); };
  add("d", xt, A("p", {"?x"}));
  add("d", xu, A("q", {"?x"}));
  add("d", xu, A("c", {"?x"}));
  add("d", xe, And());
  add("d", xt, ForAll(ye, A("d", {"?y"})));
  add("d", xt, Ex(ye, A("p", {"?y"})));
  add("d", xt, Ex(xu, A("f", {"?x", "k"})));
  add("d", xt, And({A("u", {"?x"}), A("c", {"?x"})}));
  add("d", xt, Not(A("u", {"?x"})));
  add("f", ut, And({A("d", {"?x"}), A("c", {"?y"})}));
  add("f", yx, A("d", {"?y"}));
  add("f", ut, Ex({{"x", "t"}}, And({A("p", {"?x"}), A("f", {"k", "?x"})})));
  add("f", ut, Not(A("c", {"?y"})));
  add("c", xt, Ex(yt, And({A("d", {"?y"}), A("p", {"?x"})})));
  add("c", xt, A("f", {"k", "?x"}));
  add("c", xu, Or({A("q", {"?x"}), A("c", {"m"})}));
  add("c", xt, Not(Ex(xu, A("f", {"?x", "m"}))));
  add("c", xt, A("c", {"?x"}));
  return v;
}

// Longer chains of derived predicates, each depending on others.
Vocab Tower() {
  Vocab v;
  v.name = "tower";
  v.d.name = "tower";
  v.d.objs = {{"a", ""}, {"b", ""}};
  v.d.types_section = false;
  v.d.preds = {{"p", {{"x", ""}}}, {"n", {}}, {"g", {{"x", ""}}}, {"h", {{"x", ""}}}, {"i", {{"x", ""}}},
               {"j", {}}};
  const Vars x = {{"x", ""}}, y = {{"y", ""}};
  const std::vector<std::string> un = {"g", "h", "i"};
  for (const auto& head : un) {
    v.rules.push_back({head, x, A("p", {"?x"})});
    v.rules.push_back({head, x, And({A("n"), Not(A("p", {"?x"}))})});
    for (const auto& b : un) {
      v.rules.push_back({head, x, A(b, {"?x"})});
      if (b != head) v.rules.push_back({head, x, Not(A(b, {"?x"}))});
      v.rules.push_back({head, x, Ex(y, And({Not(A("=", {"?x", "?y"})), A(b, {"?y"})}))});
    }
    v.rules.push_back({head, x, A("j")});
    std::vector<F> others = {A("p", {"?x"})};
    for (const auto& b : un) {
      if (b != head) others.push_back(A(b, {"?x"}));
    }
    v.rules.push_back({head, x, Not(Or(others))});
    v.rules.push_back({"j", {}, Ex(x, A(head, {"?x"}))});
    v.rules.push_back({"j", {}, ForAll(x, Not(A(head, {"?x"})))});
  }
  return v;
}

void One(const Vocab& v, const std::vector<const Der*>& rules, bool all_stale) {
  ref::Dom d = v.d;
  for (const Der* r : rules) d.ders.push_back(*r);
  const ref::World w(d);
  const ref::Rules rr(w);
  if (!rr.stratified) {
    R.extra["not_stratified"]++;
    return;
  }
  auto pddl = Load(d);
  const Bridge br(w, *pddl);
  // Names that are declared but have no rules here are basic.
  std::vector<Mask> stale;
  if (all_stale) {
    for (Mask m = rr.derived;; m = (m - 1) & rr.derived) {
      stale.push_back(m);
      if (m == 0) break;
    }
  } else {
    stale = {0, rr.derived, rr.derived & 0x5555555555555555ull, rr.derived & ~0x5555555555555555ull};
  }
  const Mask basic = w.full() & ~rr.derived;
  // Propositions of predicates that have rules elsewhere in the family but not
  // here: in the quick tier they take three patterns instead of all.
  Mask spare = 0;
  for (size_t i = 0; i < w.bits(); i++) {
    for (const Der& r : v.rules) {
      if (r.pred == v.d.preds[w.ground[i].pred].name) spare |= basic & (Mask(1) << i);
    }
  }
  for (Mask b = basic;; b = (b - 1) & basic) {
    const Mask sp = b & spare;
    if (!R.thorough && sp != 0 && sp != spare && sp != (spare & 0x5555555555555555ull)) continue;
    const Mask want = rr.close(b);
    for (Mask s : stale) {
      const State st = br.state(b | s);
      const State got = pddl->DerivedState(st);
      R.transitions++;
      const Mask gm = br.mask(got);
      if (gm != want) {
        std::string t;
        for (const Der* r : rules) t += ref::text(*r) + "\n";
        FAIL(t << "in " << w.show(b | s) << " gives " << w.show(gm) << " instead of " << w.show(want));
      }
      CHECK(br.mask(st) == (b | s), "state changed");
      State in_place = st;
      const bool changed = symbolic::DerivedPredicate::Apply(pddl->derived_predicates(), &in_place);
      CHECK(in_place == got, "Apply(&state) and DerivedState differ in " << w.show(b | s));
      CHECK(changed == (want != (b | s)), "Apply(&state) says " << changed << " for a change from " << w.show(b | s)
                                                                << " to " << w.show(want));
      if (rules.size() == 1) {
        State one = st;
        CHECK(pddl->derived_predicates()[0].Apply(&one) == changed && one == got, "the rule's own Apply(&state)");
      }
    }
    R.states++;
    if (b == 0) break;
  }
  R.traces++;
}

std::string Show(const std::vector<const Der*>& r) {
  std::string t;
  for (const Der* x : r) t += ref::text(*x) + " ";
  return t;
}

void RuleSets(const Vocab& v) {
  const bool t = R.thorough;
  const size_t n = v.rules.size();
  R.kase([&] { return v.name + ": no rule"; }, [&] { One(v, {}, false); });
  for (size_t i = 0; i < n; i++) {
    R.kase([&] { return v.name + ": one rule " + ref::text(v.rules[i]); },
           [&] { One(v, {&v.rules[i]}, true); });
  }
  for (size_t i = 0; i < n; i++) {
    R.kase([&] { return v.name + ": pairs of rules with " + ref::text(v.rules[i]); },
           [&] {
             for (size_t j = 0; j < n; j++) {  // both orders are visited
               if (j != i) One(v, {&v.rules[i], &v.rules[j]}, t);
             }
           });
  }
  // Triples, in all orders over the whole enumeration.
  const size_t step = t ? 1 : 5;
  for (size_t i = 0; i < n; i++) {
    for (size_t j = 0; j < n; j++) {
      R.kase([&] { return v.name + ": triples of rules with " + Show({&v.rules[i], &v.rules[j]}); },
             [&] {
               for (size_t k = (i + j) % step; k < n; k += step) {
                 if (i == j || j == k || i == k) continue;
                 One(v, {&v.rules[i], &v.rules[j], &v.rules[k]}, false);
               }
             });
    }
  }
  // Larger sets.
  for (size_t i = 0; i < (t ? n * n : n); i++) {
    R.kase([&] { return v.name + ": larger set " + std::to_string(i); },
           [&] {
             for (size_t k = 1; k <= 4; k++) {
               std::vector<const Der*> r;
               for (size_t q = 0; q < 3 + k; q++) r.push_back(&v.rules[(i + q * (k + i / n)) % n]);
               One(v, r, false);
               std::reverse(r.begin(), r.end());
               One(v, r, false);
             }
           });
  }
}

// Histories of actions: the derived part follows the basic part.
void Histories(const Vocab& v) {
  const bool t = R.thorough;
  const size_t n = v.rules.size();
  std::vector<ref::E> effects;
  for (const ref::Pred& p : v.d.preds) {
    bool derived = false;
    for (const Der& r : v.rules) derived |= r.pred == p.name;
    if (derived) continue;
    std::vector<ref::Str> args;
    Vars q;
    for (const auto& x : p.params) args.push_back("?" + x.first);
    effects.push_back(ref::Add(p.name, args));
    effects.push_back(ref::Del(p.name, args));
  }
  for (size_t i = 0; i < n; i++) {
    for (size_t j = i; j < n; j += (t ? 1 : 3)) {
      R.kase(
          [&] { return v.name + ": histories with rules " + Show({&v.rules[i], &v.rules[j]}); },
          [&] {
            ref::Dom d = v.d;
            d.ders.push_back(v.rules[i]);
            if (i != j) d.ders.push_back(v.rules[j]);
            size_t k = 0;
            for (const ref::Pred& p : v.d.preds) {
              bool derived = false;
              for (const Der& r : v.rules) derived |= r.pred == p.name;
              if (derived) {
                // An effect that depends on a derived proposition.
                if (p.params.size() == 1) {
                  ref::Op op;
                  op.name = "if" + std::to_string(k++);
                  op.params = p.params;
                  op.eff = ref::When(A(p.name, {"?x"}), effects[k % 2 == 0 ? 0 : 1]);
                  d.actions.push_back(op);
                }
                continue;
              }
              for (int del = 0; del < 2; del++) {
                ref::Op op;
                op.name = (del ? "del" : "add") + std::to_string(k++);
                op.params = p.params;
                std::vector<ref::Str> args;
                for (const auto& x : p.params) args.push_back("?" + x.first);
                op.eff = del ? ref::Del(p.name, args) : ref::Add(p.name, args);
                d.actions.push_back(op);
              }
            }
            const ref::World w(d);
            const ref::Rules rr(w);
            if (!rr.stratified) return;
            auto pddl = Load(d);
            const Bridge br(w, *pddl);
            struct Call {
              std::string text;
              ref::COp op;
              std::vector<int> args;
            };
            std::vector<Call> calls;
            for (const ref::Op& o : d.actions) {
              const ref::COp c = w.compile(o);
              for (const auto& tup : w.tuples(c.ranges)) calls.push_back({w.call(o.name, tup), c, tup});
            }
            // All states reachable from the empty and the initial state; the
            // derived part of a visited state is a function of the basic one.
            std::set<Mask> seen;
            std::vector<Mask> work = {rr.close(0)};
            CHECK(br.mask(pddl->initial_state()) == rr.close(0), "initial state");
            seen.insert(work[0]);
            while (!work.empty()) {
              const Mask m = work.back();
              work.pop_back();
              const State st = br.state(m);
              for (const Call& c : calls) {
                const auto ch = w.change(c.op, c.args, m);
                if ((ch.add & ch.del) || ch.ill_typed) continue;
                const Mask want = rr.close((m & ~ch.del) | ch.add);
                R.transitions++;
                const State next = pddl->NextState(st, c.text);
                const Mask got = br.mask(next);
                CHECK(got == want, c.text << " in " << w.show(m) << " gives " << w.show(got)
                                          << " instead of " << w.show(want));
                CHECK(pddl->IsValidTuple(st, c.text, next), "IsValidTuple " << c.text);
                if (seen.insert(want).second) work.push_back(want);
              }
            }
            R.states += seen.size();
            // Histories through ApplyActions.
            for (size_t x = 0; x < calls.size(); x++) {
              for (size_t y = 0; y < calls.size(); y++) {
                Mask m = rr.close(0x15 & w.full() & ~rr.derived);
                const State st = br.state(m);
                const size_t zc = (x * 3 + y * 5 + 1) % calls.size();
                bool skip = false;
                for (size_t c : {x, y, zc}) {
                  const auto ch = w.change(calls[c].op, calls[c].args, m);
                  skip |= ch.ill_typed;
                  m = rr.close((m & ~ch.del) | ch.add);
                }
                if (skip) continue;
                R.transitions++;
                const State got = pddl->ApplyActions(st, {calls[x].text, calls[y].text, calls[zc].text});
                CHECK(br.mask(got) == m, "ApplyActions " << calls[x].text << ", " << calls[y].text << ", "
                                                         << calls[zc].text);
              }
            }
            R.traces++;
          });
    }
  }
}

// One rule set in the given basic states, with two stale derived parts.
void InStates(const ref::Dom& d, const std::vector<Mask>& basics) {
  const ref::World w(d);
  const ref::Rules rr(w);
  CHECK(rr.stratified, "own rules");
  auto pddl = Load(d);
  const Bridge br(w, *pddl);
  for (Mask b : basics) {
    const Mask want = rr.close(b);
    for (Mask s : {Mask(0), Mask(rr.derived & 0x9249249249249249ull), rr.derived}) {
      const State got = pddl->DerivedState(br.state(b | s));
      R.transitions++;
      if (br.mask(got) != want) {
        std::string t;
        for (const Der& r : d.ders) t += ref::text(r) + "\n";
        FAIL(t << "in " << w.show(b | s) << " gives " << w.show(br.mask(got)) << " instead of " << w.show(want));
      }
    }
    R.states++;
  }
  R.traces++;
}

// Reachability along every functional graph, written in several ways.
void Reachability(size_t n, size_t stride) {
  for (int variant = 0; variant < 6; variant++) {
    R.kase([&] { return "reachability over " + std::to_string(n) + " objects, variant " + std::to_string(variant); },
           [&] {
             ref::Dom d;
             d.name = "reach";
             d.types = {{"t", ""}};
             for (size_t i = 0; i < n; i++) d.objs.push_back({"o" + std::to_string(i), "t"});
             d.preds = {{"r", {{"x", "t"}, {"y", "t"}}}, {"e", {{"x", "t"}, {"y", "t"}}}, {"cyc", {}}, {"top", {{"x", "t"}}}};
             const Vars xy = {{"x", "t"}, {"y", "t"}}, z = {{"z", "t"}}, x = {{"x", "t"}}, yx = {{"y", "t"}, {"x", "t"}};
             const Der base = {"e", xy, A("r", {"?x", "?y"})};
             const Der left = {"e", xy, Ex(z, And({A("e", {"?x", "?z"}), A("r", {"?z", "?y"})}))};
             const Der right = {"e", xy, Ex(z, And({A("r", {"?x", "?z"}), A("e", {"?z", "?y"})}))};
             const Der twice = {"e", yx, Ex(z, And({A("e", {"?y", "?z"}), A("e", {"?z", "?x"})}))};
             const Der one = {"e", xy, Or({A("r", {"?x", "?y"}), Ex(z, And({A("e", {"?z", "?y"}), A("r", {"?x", "?z"})}))})};
             const Der cyc = {"cyc", {}, Ex(x, A("e", {"?x", "?x"}))};
             const Der top = {"top", x, And({Not(A("cyc")), Not(Ex(z, A("r", {"?z", "?x"})))})};
             switch (variant) {
               case 0: d.ders = {base, left}; break;
               case 1: d.ders = {right, base}; break;
               case 2: d.ders = {twice, base}; break;
               case 3: d.ders = {one}; break;
               case 4: d.ders = {top, cyc, left, base}; break;
               default: d.ders = {top, base, cyc, right, twice}; break;
             }
             const ref::World w(d);
             std::vector<Mask> states;
             size_t total = 1;
             for (size_t i = 0; i < n; i++) total *= n + 1;
             for (size_t c0 = 0; c0 < total; c0 += stride) {
               Mask m = 0;
               size_t c = c0;
               for (size_t i = 0; i < n; i++, c /= n + 1) {
                 if (c % (n + 1) < n) m |= Mask(1) << (i * n + c % (n + 1));
               }
               states.push_back(m);
             }
             InStates(d, states);
           });
  }
}

// Chains of derived predicates, declared in several orders.
void Chains() {
  const size_t n = 8;
  for (int kind = 0; kind < 4; kind++) {
    for (size_t order = 0; order < 8; order++) {
      R.kase([&] { return "chain of kind " + std::to_string(kind) + ", order " + std::to_string(order); },
             [&] {
               for (size_t signs = 0; signs < 64; signs += R.thorough ? 1 : 9) {
                 ref::Dom d;
                 d.name = "chain";
                 d.types = {{"t", ""}, {"u", "t"}};
                 d.consts = {{"a", "t"}};
                 d.objs = {{"b", "u"}};
                 std::vector<Der> rules;
                 const std::vector<Vars> params = {{}, {{"x", "t"}}, {{"x", "t"}, {"y", "u"}}, {{"x", "t"}, {"y", "t"}, {"z", "u"}}};
                 auto name = [](size_t i) { return "d" + std::to_string(i); };
                 const size_t len = kind == 3 ? 5 : n;
                 for (size_t i = 0; i <= len; i++) d.preds.push_back({name(i), params[static_cast<size_t>(kind)]});
                 for (size_t i = 1; i <= len; i++) {
                   const Vars& p = params[static_cast<size_t>(kind)];
                   F body;
                   if (kind == 0) {
                     body = A(name(i - 1));
                   } else if (kind == 1) {
                     body = i % 3 == 0 ? Ex({{"y", "t"}}, And({A(name(i - 1), {"?y"}), Not(A("=", {"?x", "?y"}))}))
                                       : A(name(i - 1), {"?x"});
                   } else if (kind == 2) {
                     body = i % 2 ? Ex({{"x", "u"}}, A(name(i - 1), {"?y", "?x"})) : A(name(i - 1), {"?x", "?y"});
                   } else {
                     body = i % 2 ? A(name(i - 1), {"?z", "?x", "?y"}) : A(name(i - 1), {"?y", "?x", "?z"});
                   }
                   if (signs >> (i % 6) & 1) body = Not(body);
                   rules.push_back({name(i), p, body});
                   // A second rule further back along the chain.
                   if (i >= 4 && (signs + i) % 3 == 0) {
                     std::vector<ref::Str> args;
                     for (const auto& v : p) args.push_back("?" + v.first);
                     rules.push_back({name(i), p, A(name(i - 3), args)});
                   }
                 }
                 const size_t k = rules.size();
                 static const size_t steps[] = {1, 3, 5, 7, 11, 13, 17, 19};
                 std::set<size_t> used;
                 for (size_t i = 0; i < k; i++) {
                   size_t at = order == 0 ? i : order == 1 ? k - 1 - i : (i * steps[order] + order) % k;
                   while (used.count(at)) at = (at + 1) % k;
                   used.insert(at);
                   d.ders.push_back(rules[at]);
                 }
                 const ref::World w(d);
                 const ref::Rules rr(w);
                 std::vector<Mask> states;
                 const Mask basic = w.full() & ~rr.derived;
                 for (Mask b = basic;; b = (b - 1) & basic) {
                   states.push_back(b);
                   if (b == 0) break;
                 }
                 InStates(d, states);
               }
             });
    }
  }
}

}  // namespace

void H::Main() {
  R.case_cpu_s = 200;
  static const std::vector<Vocab> vs = {Graph(), Typed(), Tower()};
  for (const Vocab& v : vs) {
    RuleSets(v);
    Histories(v);
  }
  Reachability(4, R.thorough ? 1 : 3);
  Reachability(5, R.thorough ? 7 : 101);
  Chains();
}
