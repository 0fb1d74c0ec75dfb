// C26: applying an action to a partial state is sound.
#include "axiom_actions.h"
#include "bridge.h"
#include "effs.h"

namespace {
using namespace H;
using forms::Setting;
using ref::AxiomSystem;
using ref::AxiomVocab;
using ref::Bag;
using ref::Lit;

struct PS {
  Mask pos, neg;
  bool operator<(const PS& o) const { return pos != o.pos ? pos < o.pos : neg < o.neg; }
  bool operator==(const PS& o) const { return pos == o.pos && neg == o.neg; }
};

std::string Show(const ref::World& w, const PS& p) { return w.show(p.pos) + " not " + w.show(p.neg); }

// Every three-valued assignment; with many propositions, those that leave at
// most a window of four open, or know at most a window of four.
std::vector<PS> Partials(size_t bits, size_t limit) {
  std::set<PS> out;
  auto window = [&](size_t lo, size_t n, Mask p0, Mask n0) {
    size_t c = 1;
    for (size_t i = 0; i < n; i++) c *= 3;
    for (size_t x = 0; x < c; x++) {
      Mask p = p0, q = n0;
      for (size_t i = 0, y = x; i < n; i++, y /= 3) {
        const Mask b = Mask(1) << (lo + i);
        p &= ~b;
        q &= ~b;
        if (y % 3 == 1) p |= b;
        if (y % 3 == 2) q |= b;
      }
      out.insert({p, q});
    }
  };
  if (bits <= limit) {
    window(0, bits, 0, 0);
  } else {
    const Mask full = (Mask(1) << bits) - 1;
    for (size_t lo = 0; lo + 4 <= bits; lo += 2) {
      window(lo, 4, 0, 0);
      window(lo, 4, full, 0);
      window(lo, 4, 0, full);
      window(lo, 4, full & 0x5555555555555555ull, full & ~0x5555555555555555ull);
      window(lo, 4, full & 0x1249249249249249ull, full & 0x4924924924924924ull);
    }
  }
  return {out.begin(), out.end()};
}

// The propositions that the conditions of an effect read.
void Atoms(const ref::World& w, const ref::CF& f, ref::World::Env& env, Mask* out, bool* ill) {
  if (f.k == ref::F::ATOM) {
    if (f.pk != ref::CF::PRED) return;
    const int b = w.atom_bit(f, env);
    if (b < 0) {
      *ill = true;
    } else {
      *out |= Mask(1) << b;
    }
  } else if (f.k == ref::F::ALL || f.k == ref::F::EX) {
    ref::World::product(f.ranges, [&](const std::vector<int>& t) {
      env.resize(static_cast<size_t>(f.base));
      env.insert(env.end(), t.begin(), t.end());
      Atoms(w, f.kids[0], env, out, ill);
    });
    env.resize(static_cast<size_t>(f.base));
  } else {
    for (const ref::CF& x : f.kids) Atoms(w, x, env, out, ill);
  }
}
void ConditionAtoms(const ref::World& w, const ref::CE& e, ref::World::Env& env, Mask* out, bool* ill) {
  if (e.k == ref::E::WHEN) Atoms(w, e.cond, env, out, ill);
  if (e.k == ref::E::ALL) {
    ref::World::product(e.ranges, [&](const std::vector<int>& t) {
      env.resize(static_cast<size_t>(e.base));
      env.insert(env.end(), t.begin(), t.end());
      ConditionAtoms(w, e.kids[0], env, out, ill);
    });
    env.resize(static_cast<size_t>(e.base));
    return;
  }
  for (const ref::CE& x : e.kids) ConditionAtoms(w, x, env, out, ill);
}

// ------------------------------------------------------- without axioms
void RunEffects(const Setting& s, const std::vector<ref::E>& es, size_t chunk, size_t limit, const char* tag) {
  for (size_t b = 0; b < es.size(); b += chunk) {
    const size_t e = std::min(es.size(), b + chunk);
    R.kase(
        [&] {
          return "setting " + s.name + ": " + tag + " " + std::to_string(b) + ".." + std::to_string(e) +
                 " (first: " + ref::text(es[b]) + ")";
        },
        [&] {
          ref::Dom d = s.d;
          for (size_t i = b; i < e; i++) {
            ref::Op op;
            op.name = "act" + std::to_string(i);
            op.params = s.params;
            op.eff = es[i];
            d.actions.push_back(op);
          }
          const ref::World w(d);
          auto pddl = Load(d);
          const Bridge br(w, *pddl);
          const std::vector<PS> ps = Partials(w.bits(), limit);
          std::vector<PartialState> partial;
          for (const PS& p : ps) partial.push_back(br.partial(p.pos, p.neg));
          const size_t n = size_t(1) << w.bits();
          const bool all_states = w.bits() <= 8;
          std::vector<State> states;
          for (Mask m = 0; all_states && m < n; m++) states.push_back(br.state(m));
          for (size_t i = b; i < e; i++) {
            const ref::COp c = w.compile(d.actions[i - b]);
            const Action& a = pddl->actions()[i - b];
            for (const auto& t : w.tuples(c.ranges)) {
              const std::vector<Object> args = br.args(t);
              Mask read = 0;
              bool ill = false;
              {
                ref::World::Env env = t;
                ConditionAtoms(w, c.eff, env, &read, &ill);
              }
              if (ill) {
                R.extra["excluded"]++;
                continue;
              }
              // What the action does to complete states, by the code itself.
              std::vector<int64_t> after;
              for (Mask m = 0; all_states && m < n; m++) {
                int64_t r = -1;
                if (w.change(c, t, m).ill_typed) {
                  after.push_back(r);
                  continue;
                }
                Throws([&] { r = static_cast<int64_t>(br.mask(a.Apply(states[m], args))); });
                after.push_back(r);
              }
              for (size_t k = 0; k < ps.size(); k++) {
                const PS& p = ps[k];
                if (read & ~(p.pos | p.neg)) {
                  R.extra["undecided"]++;
                  continue;
                }
                const auto ch = w.change(c, t, p.pos);
                if ((ch.add & ch.del) != 0 || ch.ill_typed) {
                  R.extra["excluded"]++;
                  continue;
                }
                auto what = [&] {
                  return ref::text(es[i]) + " with " + w.call("args", t) + " in " + Show(w, p);
                };
                R.transitions++;
                PartialState got;
                const bool threw = Throws([&] { got = a.Apply(partial[k], args); });
                CHECK(threw == ch.error, what() << (threw ? " fails" : " is not rejected"));
                if (ch.error) continue;
                const PS want = {(p.pos & ~ch.del) | ch.add, (p.neg & ~ch.add) | ch.del};
                const PS is = {br.mask(got.pos()), br.mask(got.neg())};
                CHECK(is == want, what() << " gives " << Show(w, is) << " instead of " << Show(w, want));
                const bool flip = (ch.add & p.neg) || (ch.del & p.pos);
                const int status = flip ? 2 : want == p ? 0 : 1;
                PartialState in_place = partial[k];
                const int reported = a.Apply(args, &in_place);
                CHECK(in_place == got, "in place: " << what());
                CHECK(reported == status, what() << " reports " << reported << " instead of " << status);
                if (!all_states) continue;
                const Mask open = w.full() & ~(p.pos | p.neg);
                for (Mask sub = open;; sub = (sub - 1) & open) {
                  const int64_t r = after[p.pos | sub];
                  CHECK(r >= 0 && (is.pos & ~static_cast<Mask>(r)) == 0 && (is.neg & static_cast<Mask>(r)) == 0,
                        what() << " gives " << Show(w, is) << ", but the completion " << w.show(p.pos | sub)
                               << " becomes " << (r < 0 ? "an error" : w.show(static_cast<Mask>(r))));
                  R.extra["completions"]++;
                  if (sub == 0) break;
                }
              }
            }
            R.states++;
          }
          for (size_t k = 0; k < ps.size(); k++) {
            CHECK(br.mask(partial[k].pos()) == ps[k].pos && br.mask(partial[k].neg()) == ps[k].neg,
                  "partial state changed");
          }
          R.traces += e - b;
        });
  }
}

// ---------------------------------------------------------- with axioms
// A change triggers the axioms whose context becomes known through it.
struct Ternary {
  const AxiomSystem& sys;
  struct Node {
    PS s;
    Bag pending;
    bool failed;
    int status;
    bool operator<(const Node& o) const {
      return std::tie(s.pos, s.neg, pending, failed, status) < std::tie(o.s.pos, o.s.neg, o.pending, o.failed, o.status);
    }
  };
  struct Outcome {
    bool open = false, error = false;
    std::set<std::pair<PS, int>> ends;
    std::set<PS> states() const {
      std::set<PS> r;
      for (const auto& x : ends) r.insert(x.first);
      return r;
    }
  };
  Outcome explore(const PS& p, Bag pending, size_t limit = 20000) const {
    Outcome o;
    std::set<Node> seen;
    std::vector<Node> work = {{p, pending, false, 0}};
    seen.insert(work[0]);
    while (!work.empty()) {
      const Node n = work.back();
      work.pop_back();
      if (n.failed) {
        o.error = true;
        continue;
      }
      if (n.pending == 0) {
        o.ends.insert({n.s, n.status});
        continue;
      }
      for (size_t b = 0; b < sys.w.bits(); b++) {
        for (int sg = 0; sg < 2; sg++) {
          const Lit l = sg == 0 ? static_cast<int>(b) + 1 : -static_cast<int>(b) - 1;
          if (ref::bag_count(n.pending, l) == 0) continue;
          Node x = n;
          x.pending -= Bag(1) << (4 * ref::lit_id(l));
          const Mask m = Mask(1) << b;
          Mask& to = l > 0 ? x.s.pos : x.s.neg;
          Mask& from = l > 0 ? x.s.neg : x.s.pos;
          if (!(to & m)) {
            x.status = std::max(x.status, from & m ? 2 : 1);
            to |= m;
            from &= ~m;
            for (const auto& i : sys.inst) {
              if (i.lit != l) continue;
              x.failed |= i.error;
              for (Lit y : i.implies) ref::bag_add(&x.pending, y);
            }
          }
          if (seen.insert(x).second) work.push_back(x);
        }
      }
      if (seen.size() > limit) {
        o.open = true;
        return o;
      }
    }
    R.extra["model_states"] += seen.size();
    return o;
  }
};

void WithAxioms(const AxiomVocab& v, const std::vector<ref::Op>& actions, const std::vector<size_t>& idx, size_t share) {
  ref::Dom d = v.d;
  for (size_t i : idx) d.axioms.push_back(v.axioms[i]);
  d.actions = actions;
  const ref::World w(d);
  const AxiomSystem sys(w);
  if (sys.ill_typed || sys.oscillates()) {
    R.extra["excluded_sets"]++;
    return;
  }
  const Ternary ter{sys};
  const bool contradictory = sys.contradictory();
  auto pddl = Load(d, false);
  const Bridge br(w, *pddl);
  std::vector<PS> ps;
  if (w.bits() <= 8) {
    for (Mask pos = 0; pos <= w.full(); pos++) {
      const Mask rest = w.full() & ~pos;
      for (Mask neg = rest;; neg = (neg - 1) & rest) {
        ps.push_back({pos, neg});
        if (neg == 0) break;
      }
    }
  } else {
    const auto masks = ref::StateMasks(w, 8);
    for (size_t i = 0; i < masks.size(); i++) {
      for (size_t j = i % 7; j < masks.size(); j += 7) ps.push_back({masks[i], masks[j] & ~masks[i]});
    }
  }
  for (size_t k = 0; k < actions.size(); k++) {
    const ref::COp c = w.compile(d.actions[k]);
    const Action& a = pddl->actions()[k];
    for (const auto& t : w.tuples(c.ranges)) {
      const std::vector<Object> args = br.args(t);
      Mask read = 0;
      bool ill = false;
      {
        ref::World::Env env = t;
        ConditionAtoms(w, c.eff, env, &read, &ill);
      }
      if (ill) continue;
      std::map<Mask, std::optional<Mask>> complete;
      for (size_t j = (k * 3) % share; j < ps.size(); j += share) {
        const PS& p = ps[j];
        if (read & ~(p.pos | p.neg)) continue;
        const auto ch = w.change(c, t, p.pos);
        if (ch.ill_typed || ch.error) continue;
        const auto o = ter.explore(p, ref::bag_of(ch.seq));
        if (o.open) continue;
        R.states++;
        auto what = [&] {
          std::string s;
          for (size_t i : idx) s += ref::text(v.axioms[i], true) + "\n";
          return ref::text(d.actions[k].eff) + " " + w.call(c.name, t) + " in " + Show(w, p) + " with\n" + s;
        };
        const PartialState st = br.partial(p.pos, p.neg);
        if (o.error) {
          if (o.ends.empty()) CHECK(Throws([&] { a.Apply(st, args); }), "not rejected: " << what());
          continue;
        }
        PartialState got = st;
        const int status = a.Apply(args, &got);
        const PS is = {br.mask(got.pos()), br.mask(got.neg())};
        CHECK(o.ends.count({is, status}), "gives " << Show(w, is) << " and reports " << status
                                                   << ", which no order of firing does (one gives "
                                                   << Show(w, o.ends.begin()->first) << " and reports "
                                                   << o.ends.begin()->second << "): " << what());
        CHECK(a.Apply(st, args) == got, "in place: " << what());
        CHECK(br.mask(st.pos()) == p.pos && br.mask(st.neg()) == p.neg, "partial state changed: " << what());
        R.transitions++;
        R.traces++;
        if (o.states().size() != 1) continue;
        // Axioms that undo what triggers them leave the completions behind: a
        // value that becomes known fires them, one that was true does not.
        if (contradictory) continue;
        R.extra["one_outcome"]++;
        // Consistent completions end in completions.
        const Mask open = w.full() & ~(p.pos | p.neg);
        for (Mask sub = open;; sub = (sub - 1) & open) {
          const Mask m = p.pos | sub;
          if (sys.valid(m)) {
            auto it = complete.find(m);
            if (it == complete.end()) {
              std::optional<Mask> r;
              const auto e = sys.explore(m, ref::bag_of(w.change(c, t, m).seq), false);
              if (e.unique()) r = br.mask(a.Apply(br.state(m), args));
              it = complete.emplace(m, r).first;
            }
            if (it->second) {
              CHECK((is.pos & ~*it->second) == 0 && (is.neg & *it->second) == 0,
                    "gives " << Show(w, is) << ", but the completion " << w.show(m) << " becomes "
                             << w.show(*it->second) << ": " << what());
              R.extra["completions"]++;
            }
          }
          if (sub == 0) break;
        }
      }
    }
  }
}

}  // namespace

void H::Main() {
  const bool t = R.thorough;
  R.case_cpu_s = 300;
  static std::vector<Setting> settings = forms::Settings();
  for (const Setting& s : settings) {
    RunEffects(s, effs::Plain(s, s.params, t ? 6 : 2), 60, t ? 8 : 6, "unconditional effects");
    RunEffects(s, effs::Conditional(s, s.params, t ? 5 : 1), 60, t ? 8 : 6, "conditional effects");
    RunEffects(s, effs::Pick(effs::WideEffects(s, s.params, 1, false), t ? 1000 : 100), 60, t ? 8 : 6, "wide effects");
    RunEffects(s, effs::Pick(effs::WideEffects(s, s.params, 1, true), t ? 2000 : 150), 60, t ? 8 : 6,
               "wide conditional effects");
  }
  static const Setting wide = forms::WideSetting();
  RunEffects(wide, effs::Pick(effs::WideEffects(wide, wide.params, 7, false), t ? 2000 : 100), 20, 6, "wide effects");
  RunEffects(wide, effs::Pick(effs::WideEffects(wide, wide.params, 7, true), t ? 3000 : 100), 20, 6,
             "wide conditional effects");
  static const std::vector<ref::AxiomFamily> families = ref::AxiomFamilies(t);
  for (const auto& f : families) {
    static std::map<std::string, std::vector<ref::Op>> cache;
    const auto& acts = cache.emplace(f.v.name, ref::AxiomActions(f.v, t ? 5 : 29)).first->second;
    for (size_t k = 0; k < f.sets.size(); k += t ? 1 : 2) {
      const auto& s = f.sets[k];
      R.kase(
          [&] {
            std::string x = f.v.name + ":";
            for (size_t i : s) x += "\n" + ref::text(f.v.axioms[i], true);
            return x;
          },
          [&] { WithAxioms(f.v, acts, s, t ? 29 : 307); });
    }
  }
  static const std::vector<AxiomVocab> vs = ref::AxiomVocabs();
  for (const AxiomVocab& v : vs) {
    static std::map<std::string, std::vector<ref::Op>> cache;
    const auto& acts = cache.emplace(v.name, ref::AxiomActions(v)).first->second;
    const size_t n = v.axioms.size();
    const size_t bits = ref::World(v.d).bits();
    const size_t share = (bits <= 5 ? 1 : bits == 6 ? 3 : 7) * (t ? 1 : 5);
    for (size_t i = 0; i < n; i++) {
      R.kase([&] { return v.name + ": " + ref::text(v.axioms[i], true); }, [&] { WithAxioms(v, acts, {i}, share); });
    }
    const size_t step2 = t ? 7 : 101;
    for (size_t i = 0; i < n; i++) {
      R.kase([&] { return v.name + ": pairs with " + ref::text(v.axioms[i], true); },
             [&] {
               for (size_t j = i % step2; j < n; j += step2) {
                 if (j != i) WithAxioms(v, acts, {i, j}, share);
               }
             });
    }
  }
}
