// C22: adding and removing objects updates every answer of the library.
#include "model.h"
#include "probe.h"

namespace {
using namespace H;
using ref::Menu;

struct Op {
  bool add;
  std::string name, type;
  std::string text() const { return add ? "add(" + name + " - " + type + ")" : "remove(" + name + ")"; }
};

bool Mentions(const ref::F& f, const std::string& o) {
  for (const auto& a : f.args) {
    if (a == o) return true;
  }
  for (const auto& k : f.kids) {
    if (Mentions(k, o)) return true;
  }
  return false;
}

// Applies an operation to the description; false: not allowed here.
bool Step(ref::Dom* d, const Op& op) {
  if (op.add) {
    for (const auto& v : {d->consts, d->objs}) {
      for (const auto& o : v) {
        if (o.first == op.name) return false;
      }
    }
    d->objs.emplace_back(op.name, op.type);
    return true;
  }
  if (Mentions(d->goal, op.name)) return false;
  for (const auto& o : d->consts) {
    if (o.first == op.name) return false;
  }
  for (size_t i = 0; i < d->objs.size(); i++) {
    if (d->objs[i].first == op.name) {
      d->objs.erase(d->objs.begin() + static_cast<long>(i));
      break;
    }
  }
  // Facts about an object that is not there cannot be written.
  for (size_t i = d->init.size(); i-- > 0;) {
    for (const auto& a : d->init[i].second) {
      if (a == op.name) {
        d->init.erase(d->init.begin() + static_cast<long>(i));
        break;
      }
    }
  }
  return true;
}

Texts TextsOf(const ref::World& w, Mask m) {
  Texts t;
  for (size_t i = 0; i < w.bits(); i++) {
    if (m >> i & 1) t.insert(w.names[i]);
  }
  return t;
}

// A spread of states: none, all, single propositions, and mixed ones.
std::vector<Mask> Spread(const ref::World& w, size_t n) {
  std::set<Mask> s = {0, w.full()};
  const size_t b = w.bits();
  for (size_t i = 0; b > 0 && i < n; i++) {
    Mask m = 0;
    for (size_t k = 0; k <= i % 4; k++) m |= Mask(1) << (i * 7 + k * (i + 3)) % b;
    s.insert(m);
    s.insert(w.full() & ~m);
    if (i % 3 == 0) {
      Mask x = 0;
      for (size_t k = i % 2; k < b; k += 2 + i % 3) x |= Mask(1) << k;
      s.insert(x);
    }
  }
  return {s.begin(), s.end()};
}

void Compare(const Pddl& got, const ref::Dom& now, size_t nstates, const std::string& what) {
  const ref::World w(now);
  auto fresh = Load(now);
  std::vector<Query> qs = GlobalQueries(now, 2);
  const auto masks = Spread(w, nstates);
  std::vector<Texts> texts;
  for (Mask m : masks) texts.push_back(TextsOf(w, m));
  for (const Texts& t : texts) {
    for (auto& q : StateQueries(t)) qs.push_back(std::move(q));
  }
  for (size_t i = 0; i + 1 < texts.size(); i += 2) {
    for (auto& q : PartialQueries(texts[i], TextsOf(w, w.full() & ~masks[i] & (masks[i + 1] | 5)))) qs.push_back(std::move(q));
  }
  std::vector<std::string> calls;
  for (const Action& a : fresh->actions()) {
    size_t n = 0;
    for (const auto& args : a.parameter_generator()) {
      if (n++ < 2 || n % 5 == 0) calls.push_back(a.to_string(args));
    }
  }
  for (auto& q : NormalQueries(calls)) qs.push_back(std::move(q));
  for (const Query& q : qs) {
    const std::string want = q(*fresh), is = q(got);
    CHECK(want == is, what << "\n" << q.name << ":\n  " << is << "\ninstead of\n  " << want);
    R.transitions++;
  }
  // The declared objects, independently of the library.
  std::string objs = "(", typed;
  for (const auto& v : {now.consts, now.objs}) {
    for (const auto& o : v) objs += (objs.size() > 1 ? ", " : "") + o.first + " - " + ref::World::tn(o.second);
  }
  CHECK(ShowTyped(got.objects()) == objs + ")", what << "\nobjects " << ShowTyped(got.objects()));
  const Bridge br(w, got);
  CHECK(got.state_index().size() == w.bits(), what << "\nindex of size " << got.state_index().size());
  for (const Proposition& p : br.props) {
    CHECK(got.state_index().GetProposition(got.state_index().GetPropositionIndex(p)) == p,
          what << "\nindex of " << p.to_string());
  }
}

struct Kit {
  std::string name;
  ref::Dom d;
  std::vector<Op> ops;
};

std::vector<Kit> Kits() {
  std::vector<Kit> v;
  const auto menus = ref::Menus();
  auto kit = [&](const std::string& menu, const std::vector<size_t>& acts, size_t init, size_t goal, std::vector<Op> ops) {
    for (const Menu& m : menus) {
      if (m.name != menu) continue;
      v.push_back({menu + " init " + std::to_string(init) + " goal " + std::to_string(goal), m.with(acts, init, goal), std::move(ops)});
    }
  };
  const std::vector<Op> objects = {{true, "n", "t"}, {true, "n", "u"}, {true, "m", "emp"}, {true, "new", "u"},
                                   {false, "o", ""}, {false, "n", ""}, {false, "m", ""}, {false, "zz", ""}};
  kit("objects", {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, 1, 0, objects);
  kit("objects", {1, 2, 4, 7, 8}, 2, 5, objects);
  kit("objects", {2, 3, 9}, 2, 1, objects);
  const std::vector<Op> flat = {{true, "n", "t"}, {true, "c", "t"}, {true, "m", "object"}, {false, "b", ""}, {false, "a", ""},
                                {false, "n", ""}, {false, "c", ""}, {false, "zz", ""}};
  kit("derived", {0, 1, 2, 3, 4, 5, 6}, 2, 2, flat);
  kit("derived", {0, 2, 5}, 1, 0, flat);
  kit("axioms", {0, 1, 2, 3, 4, 5, 6, 7}, 1, 0, flat);
  kit("axioms", {0, 1, 5}, 2, 3, flat);
  const std::vector<Op> hooks = {{true, "n", "tool"}, {true, "n", "movable"}, {true, "m", "physobj"}, {false, "box", ""},
                                 {false, "hook", ""}, {false, "n", ""}, {false, "m", ""}};
  kit("hooks", {0, 1, 2, 3}, 0, 3, hooks);
  kit("hooks", {0, 2}, 1, 1, hooks);
  {
    // Three and four arguments, and names that are prefixes of one another.
    Kit k;
    k.name = "wide";
    k.d.name = "wide";
    k.d.types = {{"block", ""}, {"block-a", "block"}, {"block-ab", "block"}, {"blo", ""}};
    k.d.consts = {{"k", "block-a"}};
    k.d.objs = {{"obj-1", "block-ab"}, {"obj-2", "blo"}};
    k.d.preds = {{"three", {{"x", "blo"}, {"y", "block"}, {"z", "block-ab"}}},
                 {"four", {{"x", "block-ab"}, {"y", "blo"}, {"z", "block-a"}, {"w", "blo"}}},
                 {"one", {{"x", "block-ab"}}}};
    ref::Op op;
    op.name = "act";
    op.params = {{"p", "blo"}, {"q", "block"}, {"r", "block-ab"}, {"s", "blo"}};
    op.pre = ref::Not(ref::A("three", {"?p", "?q", "?r"}));
    op.eff = ref::Lst({ref::Add("three", {"?s", "?q", "?r"}), ref::Add("four", {"?r", "?p", "k", "?s"})});
    k.d.actions = {op};
    op.name = "mark";
    op.params = {{"x", "block-ab"}};
    op.pre = ref::And({});
    op.eff = ref::EAll({{"y", "blo"}}, ref::Lst({ref::Del("four", {"?x", "?y", "k", "?y"}), ref::Add("one", {"?x"})}));
    k.d.actions.push_back(op);
    k.d.init = {{"three", {"obj-2", "k", "obj-1"}}, {"four", {"obj-1", "obj-2", "k", "obj-2"}}, {"one", {"obj-1"}}};
    k.d.goal = ref::Ex({{"x", "blo"}, {"y", "block-ab"}}, ref::A("four", {"?y", "?x", "k", "?x"}));
    k.ops = {{true, "obj-3", "blo"}, {true, "obj", "block-ab"}, {true, "obj-10", "block-a"}, {false, "obj-1", ""},
             {false, "obj-2", ""}, {false, "obj", ""}, {false, "obj-3", ""}};
    v.push_back(k);
  }
  {
    // No types, no objects to begin with.
    Kit k;
    k.name = "bare";
    k.d.name = "bare";
    k.d.types_section = false;
    k.d.preds = {{"p", {{"x", ""}}}, {"h", {}}};
    ref::Op op;
    op.name = "act";
    op.params = {{"x", ""}};
    op.pre = ref::Not(ref::A("p", {"?x"}));
    op.eff = ref::Lst({ref::Add("p", {"?x"}), ref::Add("h")});
    k.d.actions = {op};
    k.d.goal = ref::All({{"x", ""}}, ref::A("p", {"?x"}));
    k.ops = {{true, "a", ""}, {true, "b", ""}, {true, "c", ""}, {false, "a", ""}, {false, "b", ""}, {false, "c", ""}};
    v.push_back(k);
  }
  return v;
}

void Histories(const Kit& k, size_t depth, size_t nstates) {
  std::vector<size_t> seq;
  std::function<void(const ref::Dom&)> rec = [&](const ref::Dom& now) {
    const std::vector<size_t> s = seq;
    R.kase(
        [&] {
          std::string t = "kit " + k.name + ":";
          for (size_t i : s) t += " " + k.ops[i].text();
          return t;
        },
        [&] {
          auto pddl = Load(k.d);
          ref::Dom d = k.d;
          const ref::World w0(k.d);
          const auto olds = Spread(w0, 3);
          std::vector<State> before;
          {
            const Bridge b0(w0, *pddl);
            for (Mask m : olds) before.push_back(b0.state(m));
          }
          std::string what = "kit " + k.name;
          std::set<std::string> ever;
          for (const auto& o : d.objs) ever.insert(o.first);
          for (size_t i = 0; i < s.size(); i++) {
            // Every other history asks something before each change.
            if ((s[0] + s.size() + i) % 2) {
              for (const Query& q : GlobalQueries(d, 1)) q(*pddl);
              const ref::World w(d);
              for (const Query& q : StateQueries(TextsOf(w, w.full() & 0x55555555))) q(*pddl);
            }
            const Op& op = k.ops[s[i]];
            const auto objs_before = ShowTyped(pddl->objects());
            bool exists = false;
            for (const auto& o : d.objs) exists |= o.first == op.name;
            if (op.add) {
              pddl->AddObject(op.name, op.type);
            } else {
              pddl->RemoveObject(op.name);
            }
            CHECK(Step(&d, op), "own bookkeeping");
            if (!op.add && !exists) {
              CHECK(ShowTyped(pddl->objects()) == objs_before, what << ": removing nothing changed the objects");
            }
            ever.insert(op.name);
            what += " " + op.text();
          }
          Compare(*pddl, d, nstates, what);
          // Names of objects that are gone, in every operation that reads text.
          for (const auto& n : ever) {
            bool exists = false;
            for (const auto& v : {d.consts, d.objs}) {
              for (const auto& o : v) exists |= o.first == n;
            }
            CHECK(Throws([&] { Object o(*pddl, n); }) == !exists, what << ": naming " << n);
            if (exists) continue;
            for (const auto& p : d.preds) {
              if (p.params.empty()) continue;
              std::string t = p.name + "(";
              for (size_t i = 0; i < p.params.size(); i++) t += (i ? ", " : "") + n;
              CHECK(Throws([&] { Proposition x(*pddl, t + ")"); }), what << ": naming " << t << ")");
            }
            for (const auto& a : d.actions) {
              if (a.params.empty()) continue;
              std::string t = a.name + "(";
              for (size_t i = 0; i < a.params.size(); i++) t += (i ? ", " : "") + n;
              CHECK(Throws([&] { pddl->IsValidAction(State(), t + ")"); }), what << ": calling " << t << ")");
              CHECK(Throws([&] { pddl->NextState(State(), t + ")"); }), what << ": executing " << t << ")");
            }
          }
          // States written down before are still understood.
          const ref::World w(d);
          auto fresh = Load(d);
          for (size_t i = 0; i < olds.size(); i++) {
            State old;
            Texts t;
            for (const Proposition& p : before[i]) {
              bool ok = true;
              for (const Object& o : p.arguments()) {
                bool same = false;
                for (const Object& x : fresh->objects()) same |= x.name() == o.name() && x.type().name() == o.type().name();
                ok &= same;
              }
              if (!ok) continue;
              old.insert(p);
              t.insert(Bridge::Name(p));
            }
            const State st = ParseTexts(*fresh, t);
            CHECK(pddl->ListValidActions(old) == fresh->ListValidActions(st) &&
                      pddl->IsGoalSatisfied(old) == fresh->IsGoalSatisfied(st) &&
                      Bridge::Show(pddl->DerivedState(old)) == Bridge::Show(fresh->DerivedState(st)),
                  what << ": an earlier state " << Bridge::Show(old) << " is answered differently");
            CHECK(old == ParseTexts(*pddl, t), what << ": an earlier state differs from the same state read now");
            R.transitions++;
          }
          R.states++;
          R.traces++;
          R.extra["max_history"] = std::max<uint64_t>(R.extra["max_history"], s.size());
        });
    if (seq.size() == depth) return;
    for (size_t i = 0; i < k.ops.size(); i++) {
      ref::Dom next = now;
      if (!Step(&next, k.ops[i])) continue;
      // At most one removal of something that is not there.
      if (!k.ops[i].add && next.objs.size() == now.objs.size()) {
        size_t idle = 0;
        ref::Dom d = k.d;
        for (size_t j : seq) {
          const size_t n = d.objs.size();
          Step(&d, k.ops[j]);
          idle += d.objs.size() == n;
        }
        if (idle > 0) continue;
      }
      seq.push_back(i);
      rec(next);
      seq.pop_back();
    }
  };
  rec(k.d);
}

// Without a problem there is nothing to add to.
void DomainOnly() {
  R.kase([&] { return std::string("a domain without a problem"); }, [&] {
    for (const Menu& m : ref::Menus()) {
      const ref::Dom d = m.with({0, 1}, 0, 0);
      Pddl p(DomainFile(ref::domain_text(d)));
      const std::string before = ShowTyped(p.objects());
      p.RemoveObject("zz");
      CHECK(ShowTyped(p.objects()) == before, "objects changed");
      R.states++;
    }
    R.traces++;
  });
}

}  // namespace

void H::Main() {
  const bool t = R.thorough;
  R.case_cpu_s = 100;
  DomainOnly();
  for (const Kit& k : Kits()) Histories(k, t ? 4 : 3, t ? 3 : 2);
}
