// C08: evaluation in a partial state agrees with every completion.
#include "bridge.h"
#include "forms.h"

namespace {
using namespace H;
using forms::Setting;

struct PS {
  Mask pos, neg;
};

// All three-valued assignments, or (more than `limit` propositions) those in
// which every proposition outside a window of four is true, false or unknown.
std::vector<PS> Partials(size_t bits, size_t limit) {
  std::vector<PS> v;
  std::set<std::pair<Mask, Mask>> seen;
  auto window = [&](size_t lo, size_t n, Mask p0, Mask n0) {
    size_t c = 1;
    for (size_t i = 0; i < n; i++) c *= 3;
    for (size_t x = 0; x < c; x++) {
      Mask p = p0, q = n0;
      size_t y = x;
      for (size_t i = 0; i < n; i++, y /= 3) {
        const Mask b = Mask(1) << (lo + i);
        p &= ~b;
        q &= ~b;
        if (y % 3 == 1) p |= b;
        if (y % 3 == 2) q |= b;
      }
      if (seen.insert({p, q}).second) v.push_back({p, q});
    }
  };
  if (bits <= limit) {
    window(0, bits, 0, 0);
    return v;
  }
  const Mask full = (Mask(1) << bits) - 1;
  for (size_t lo = 0; lo + 4 <= bits; lo += 2) {
    window(lo, 4, 0, 0);
    window(lo, 4, full, 0);
    window(lo, 4, 0, full);
    window(lo, 4, full & 0x5555555555555555ull, full & ~0x5555555555555555ull);
  }
  return v;
}

void Check(const Setting& s, const std::vector<ref::F>& fs, size_t chunk, size_t limit,
           const char* tag) {
  for (size_t b = 0; b < fs.size(); b += chunk) {
    const size_t e = std::min(fs.size(), b + chunk);
    R.kase(
        [&] {
          return "setting " + s.name + ": " + tag + " " + std::to_string(b) + ".." +
                 std::to_string(e) + " (first: " + ref::text(fs[b]) + ")";
        },
        [&] {
          ref::Dom d = s.d;
          for (size_t i = b; i < e; i++) {
            ref::Op op;
            op.name = "act" + std::to_string(i);
            op.params = s.params;
            op.pre = fs[i];
            d.actions.push_back(op);
          }
          const ref::World w(d);
          auto pddl = Load(d);
          const Bridge br(w, *pddl);
          const std::vector<PS> ps = Partials(w.bits(), limit);
          std::vector<PartialState> states;
          for (const PS& p : ps) states.push_back(br.partial(p.pos, p.neg));
          const auto tuples = w.tuples(w.ranges(s.params));
          const size_t n = size_t(1) << w.bits();
          std::vector<char> truth(n);
          uint64_t definite = 0;
          for (size_t i = b; i < e; i++) {
            const ref::COp c = w.compile(d.actions[i - b]);
            const Action& a = pddl->actions()[i - b];
            for (const auto& t : tuples) {
              const std::vector<Object> args = br.args(t);
              ref::World::Env env = t;
              w.touched_ill_typed = false;
              for (size_t m = 0; m < n; m++) truth[m] = w.eval(c.pre, env, m);
              for (size_t k = 0; k < ps.size(); k++) {
                const std::optional<bool> got = a.IsValid(states[k], args);
                R.transitions++;
                const Mask open = w.full() & ~(ps[k].pos | ps[k].neg);
                if (!got.has_value()) {
                  CHECK(open != 0 || w.touched_ill_typed, ref::text(fs[i]) << " with " << w.call("args", t)
                                                    << " has no value although nothing is unknown; true: "
                                                    << w.show(ps[k].pos));
                  continue;
                }
                definite++;
                for (Mask sub = open;; sub = (sub - 1) & open) {
                  CHECK(truth[ps[k].pos | sub] == *got,
                        ref::text(fs[i]) << " with " << w.call("args", t) << " is " << *got
                                         << " with true " << w.show(ps[k].pos) << " and false "
                                         << w.show(ps[k].neg) << " but not in the completion "
                                         << w.show(ps[k].pos | sub));
                  if (sub == 0) break;
                }
              }
              const size_t k = (i * 7) % ps.size();
              CHECK(a.preconditions()(states[k], args) == a.IsValid(states[k], args),
                    ref::text(fs[i]) << " as a formula");
              if (s.params.empty()) {
                CHECK(a.preconditions()(states[k]) == a.IsValid(states[k], args),
                      ref::text(fs[i]) << " as a formula without arguments");
              }
            }
            R.states += ps.size();
          }
          for (size_t k = 0; k < ps.size(); k++) {
            CHECK(br.mask(states[k].pos()) == ps[k].pos && br.mask(states[k].neg()) == ps[k].neg,
                  "partial state changed");
          }
          R.traces += e - b;
          R.extra["definite_answers"] += definite;
        });
  }
}

std::vector<ref::F> Every(const std::vector<ref::F>& v, size_t stride) {
  std::vector<ref::F> o;
  for (size_t i = 0; i < v.size(); i += stride) o.push_back(v[i]);
  return o;
}

}  // namespace

void H::Main() {
  const bool t = R.thorough;
  R.case_cpu_s = 300;
  static std::vector<Setting> settings = forms::Settings();
  for (const Setting& s : settings) {
    forms::Gen g(s);
    const size_t bits = ref::World(s.d).bits();
    const size_t lim = 7;
    const size_t cost = bits <= 6 ? 1 : 3;
    Check(s, g.UpTo(2, s.params), 40, lim, "formulas up to 2 nodes");
    Check(s, Every(g.Exactly(3, s.params), t ? 1 : 3 * cost), 20, lim, "formulas of 3 nodes");
    Check(s, Every(g.Exactly(4, s.params), t ? 11 : 211 * cost), 20, lim, "formulas of 4 nodes");
    Check(s, g.Prefixes(1, s.params, t ? 3 : 41 * cost), 20, lim, "prefix length 1");
    Check(s, g.Prefixes(2, s.params, t ? 53 : 997 * cost), 20, lim, "prefix length 2");
    Check(s, g.Prefixes(3, s.params, t ? 1009 : 20011 * cost), 10, lim, "prefix length 3");
    Check(s, Every(forms::WideForms(s, s.params, 1), (t ? 11 : 211) * cost), 20, lim, "wide formulas");
  }
  static const Setting wide = forms::WideSetting();
  Check(wide, Every(forms::AllAtoms(wide, wide.params, 1), t ? 3 : 29), 5, 4, "atoms");
  Check(wide, Every(forms::WideForms(wide, wide.params, 7), t ? 997 : 9973), 2, 4, "wide formulas");
}
