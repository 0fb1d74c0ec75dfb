// C07: formulas evaluate with the semantics of first-order logic.
#include "bridge.h"
#include "forms.h"

namespace {
using namespace H;
using forms::Setting;

std::string Chunk(const std::vector<ref::F>& fs, size_t b, size_t e) {
  return std::to_string(b) + ".." + std::to_string(e) + " (first: " + ref::text(fs[b]) + ")";
}

// States to evaluate in: all, or (for large universes) a structured cover: all
// states with at most two propositions true or at most two false, and all
// assignments of every window of eight consecutive propositions.
std::vector<Mask> States(const ref::World& w, size_t limit) {
  std::vector<Mask> v;
  if (w.bits() <= limit) {
    for (Mask m = 0; m <= w.full(); m++) {
      v.push_back(m);
      if (m == w.full()) break;
    }
    return v;
  }
  std::set<Mask> s;
  for (size_t i = 0; i < w.bits(); i++) {
    for (size_t j = 0; j < w.bits(); j++) {
      s.insert(Mask(1) << i | Mask(1) << j);
      s.insert(w.full() & ~(Mask(1) << i | Mask(1) << j));
    }
  }
  s.insert(0);
  s.insert(w.full());
  return {s.begin(), s.end()};
}

void AsPreconditions(const Setting& s, const std::vector<ref::F>& fs, size_t chunk,
                     size_t state_limit, const char* tag) {
  for (size_t b = 0; b < fs.size(); b += chunk) {
    const size_t e = std::min(fs.size(), b + chunk);
    R.kase(
        [&] { return "setting " + s.name + ": " + tag + " " + Chunk(fs, b, e); },
        [&] {
          ref::Dom d = s.d;
          for (size_t i = b; i < e; i++) {
            ref::Op op;
            op.name = "act" + std::to_string(i);
            op.params = s.params;
            op.pre = fs[i];
            d.actions.push_back(op);
          }
          const ref::World w(d);
          auto pddl = Load(d);
          const Bridge br(w, *pddl);
          const std::vector<Mask> masks = States(w, state_limit);
          std::vector<State> states;
          for (Mask m : masks) states.push_back(br.state(m));
          const auto tuples = w.tuples(w.ranges(s.params));
          uint64_t trues = 0;
          for (size_t i = b; i < e; i++) {
            const ref::COp c = w.compile(d.actions[i - b]);
            const Action& a = pddl->actions()[i - b];
            for (const auto& t : tuples) {
              const std::vector<Object> args = br.args(t);
              ref::World::Env env = t;
              for (size_t k = 0; k < masks.size(); k++) {
                const bool want = w.eval(c.pre, env, masks[k]);
                trues += want;
                const bool got = a.IsValid(states[k], args);
                R.transitions++;
                CHECK(got == want, ref::text(fs[i]) << " with " << w.call("args", t) << " in "
                                                    << w.show(masks[k]) << " evaluates to " << got);
              }
              // the formula object itself, in one state
              const size_t k = i % masks.size();
              CHECK(a.preconditions()(states[k], args) == w.eval(c.pre, env, masks[k]),
                    ref::text(fs[i]) << " as a formula");
            }
            R.states++;
          }
          for (size_t k = 0; k < masks.size(); k++) {
            CHECK(br.mask(states[k]) == masks[k], "state changed");
          }
          R.traces += e - b;
          R.extra["true_answers"] += trues;
        });
  }
}

void AsGoals(const Setting& s, const std::vector<ref::F>& fs, size_t stride) {
  const size_t chunk = 25;
  std::vector<ref::F> sub;
  for (size_t i = 0; i < fs.size(); i += stride) sub.push_back(fs[i]);
  for (size_t b = 0; b < sub.size(); b += chunk) {
    const size_t e = std::min(sub.size(), b + chunk);
    R.kase([&] { return "setting " + s.name + ": goals " + Chunk(sub, b, e); },
           [&] {
             for (size_t i = b; i < e; i++) {
               ref::Dom d = s.d;
               d.goal = sub[i];
               const ref::World w(d);
               auto pddl = Load(d);
               const Bridge br(w, *pddl);
               const ref::CF c = w.compile(d.goal, {});
               ref::World::Env env;
               for (Mask m : States(w, 7)) {
                 const State st = br.state(m);
                 const bool want = w.eval(c, env, m);
                 R.transitions++;
                 CHECK(pddl->IsGoalSatisfied(st) == want && pddl->goal()(st) == want,
                       "goal " << ref::text(sub[i]) << " in " << w.show(m));
                 if (m % 5 == 0) {
                   CHECK(pddl->IsGoalSatisfied(symbolic::Stringify(st)) == want,
                         "goal as text: " << ref::text(sub[i]) << " in " << w.show(m));
                 }
               }
               R.states++;
             }
             R.traces += e - b;
           });
  }
}

}  // namespace

void H::Main() {
  const bool t = R.thorough;
  R.case_cpu_s = 300;
  static std::vector<Setting> settings = forms::Settings();
  for (const Setting& s : settings) {
    forms::Gen g(s);
    AsPreconditions(s, g.UpTo(3, s.params), 100, 8, "formulas up to 3 nodes");
    if (t) AsPreconditions(s, g.Exactly(4, s.params), 100, 6, "formulas of 4 nodes");
    AsPreconditions(s, g.Prefixes(1, s.params, t ? 1 : 5), 100, t ? 8 : 7, "prefix length 1");
    AsPreconditions(s, g.Prefixes(2, s.params, t ? 7 : 61), 50, 7, "prefix length 2");
    AsPreconditions(s, g.Prefixes(3, s.params, t ? 97 : 1009), 25, 7, "prefix length 3");
    AsGoals(s, g.UpTo(2, {}), 1);
    AsGoals(s, g.Exactly(3, {}), t ? 3 : 13);
    AsGoals(s, g.Prefixes(2, {}, t ? 53 : 523), 1);
    const auto wide = forms::WideForms(s, s.params, t ? 3 : 17);
    AsPreconditions(s, wide, 100, 7, "wide formulas");
    AsGoals(s, forms::WideForms(s, {}, t ? 7 : 61), 1);
  }
  static const Setting wide = forms::WideSetting();
  forms::Gen g(wide);
  AsPreconditions(wide, g.UpTo(2, wide.params), 100, 8, "formulas up to 2 nodes");
  AsPreconditions(wide, forms::AllAtoms(wide, wide.params, 1), 100, 8, "atoms");
  AsPreconditions(wide, forms::WideForms(wide, wide.params, t ? 5 : 29), 100, 8, "wide formulas");
  AsGoals(wide, forms::WideForms(wide, {}, t ? 7 : 61), 1);
}
