// C10: applying an action changes exactly what its effects say.
#include "bridge.h"
#include "effs.h"

namespace {
using namespace H;
using forms::Setting;

std::vector<Mask> States(const ref::World& w, size_t limit) {
  std::set<Mask> s = {0, w.full()};
  if (w.bits() <= limit) {
    for (Mask m = 0; m < w.full(); m++) s.insert(m);
  } else {
    for (size_t i = 0; i < w.bits(); i++) {
      for (size_t j = 0; j < w.bits(); j++) {
        s.insert(Mask(1) << i | Mask(1) << j);
        s.insert(w.full() & ~(Mask(1) << i | Mask(1) << j));
      }
    }
  }
  return {s.begin(), s.end()};
}

void RunEffects(const Setting& s, const std::vector<ref::E>& es, size_t chunk, const char* tag) {
  for (size_t b = 0; b < es.size(); b += chunk) {
    const size_t e = std::min(es.size(), b + chunk);
    R.kase(
        [&] {
          return "setting " + s.name + ": " + tag + " " + std::to_string(b) + ".." +
                 std::to_string(e) + " (first: " + ref::text(es[b]) + ")";
        },
        [&] {
          ref::Dom d = s.d;
          for (size_t i = b; i < e; i++) {
            ref::Op op;
            op.name = "act" + std::to_string(i);
            op.params = s.params;
            op.eff = es[i];
            d.actions.push_back(op);
          }
          const ref::World w(d);
          auto pddl = Load(d);
          const Bridge br(w, *pddl);
          const std::vector<Mask> masks = States(w, 7);
          std::vector<State> states;
          for (Mask m : masks) states.push_back(br.state(m));
          const auto tuples = w.tuples(w.ranges(s.params));
          for (size_t i = b; i < e; i++) {
            const ref::COp c = w.compile(d.actions[i - b]);
            const Action& a = pddl->actions()[i - b];
            for (const auto& t : tuples) {
              const std::vector<Object> args = br.args(t);
              const std::string call = w.call(c.name, t);
              for (size_t k = 0; k < masks.size(); k++) {
                const auto ch = w.change(c, t, masks[k]);
                // Excluded: contradictory effects, and propositions that are
                // not well-typed instances of their predicates.
                if ((ch.add & ch.del) != 0 || ch.ill_typed) {
                  R.extra["excluded"]++;
                  continue;
                }
                R.transitions++;
                const Mask want = (masks[k] & ~ch.del) | ch.add;
                auto what = [&] {
                  return ref::text(es[i]) + " with " + w.call("args", t) + " in " + w.show(masks[k]);
                };
                State got;
                bool threw = Throws([&] { got = a.Apply(states[k], args); });
                CHECK(threw == ch.error, what() << (threw ? " fails" : " is not rejected"));
                if (ch.error) {
                  R.extra["rejected"]++;
                  if (k % 7 == 0) {
                    CHECK(Throws([&] { pddl->NextState(states[k], call); }), "NextState " << what());
                    CHECK(Throws([&] { pddl->ApplyActions(states[k], {call}); }),
                          "ApplyActions " << what());
                  }
                  continue;
                }
                const Mask gm = br.mask(got);
                CHECK(gm == want, what() << " gives " << w.show(gm) << " instead of " << w.show(want));
                State in_place = states[k];
                const bool changed = a.Apply(args, &in_place);
                CHECK(in_place == got, "in place: " << what());
                CHECK(changed == (want != masks[k]), "reported change of " << what() << " is " << changed);
                if (k % 7 == i % 7) {
                  CHECK(pddl->NextState(states[k], call) == got, "NextState " << what());
                  CHECK(pddl->ApplyActions(states[k], {call}) == got, "ApplyActions " << what());
                  CHECK(pddl->IsValidTuple(states[k], call, got), "IsValidTuple " << what());
                }
              }
            }
            R.states++;
          }
          for (size_t k = 0; k < masks.size(); k++) {
            CHECK(br.mask(states[k]) == masks[k], "state changed");
          }
          R.traces += e - b;
        });
  }
}

}  // namespace

void H::Main() {
  const bool t = R.thorough;
  R.case_cpu_s = 300;
  static std::vector<Setting> settings = forms::Settings();
  for (const Setting& s : settings) {
    RunEffects(s, effs::Plain(s, s.params, t ? 8 : 3), 60, "unconditional effects");
    RunEffects(s, effs::Conditional(s, s.params, t ? 6 : 2), 60, "conditional effects");
    RunEffects(s, effs::Pick(effs::WideEffects(s, s.params, 1, false), t ? 2000 : 150), 60, "wide effects");
    RunEffects(s, effs::Pick(effs::WideEffects(s, s.params, 1, true), t ? 4000 : 300), 60, "wide conditional effects");
  }
  static const Setting wide = forms::WideSetting();
  RunEffects(wide, effs::Literals(wide, wide.params), 60, "literals");
  {
    std::vector<ref::E> es;
    for (const ref::F& f : forms::AllAtoms(wide, wide.params, 1)) {
      es.push_back(ref::Add(f.pred, f.args));
      es.push_back(ref::Del(f.pred, f.args));
    }
    for (const ref::Vars& q : wide.quants) {
      for (const ref::F& f : forms::AllAtoms(wide, effs::Join(wide.params, q), t ? 1 : 17)) {
        es.push_back(ref::EAll(q, ref::Add(f.pred, f.args)));
        es.push_back(ref::When(ref::Not(f.args.size() > 1 ? ref::A("=", {f.args[0], "?w"}) : ref::And()),
                               ref::EAll(q, ref::Del(f.pred, f.args))));
      }
    }
    // A condition may only use the parameters.
    es.erase(std::remove_if(es.begin(), es.end(),
                            [](const ref::E& e) {
                              if (e.k != ref::E::WHEN || e.cond.kids[0].k != ref::F::ATOM) return false;
                              const std::string& x = e.cond.kids[0].args[0];
                              return x == "?e" || x == "?f";
                            }),
             es.end());
    RunEffects(wide, es, 60, "effects on many arguments");
  }
  RunEffects(wide, effs::Pick(effs::WideEffects(wide, wide.params, 7, false), t ? 6000 : 400), 60, "wide effects");
  RunEffects(wide, effs::Pick(effs::WideEffects(wide, wide.params, 7, true), t ? 9000 : 600), 60, "wide conditional effects");
}
