// C09: the listed valid actions are exactly the applicable action calls, and
// ill-formed calls are rejected by every operation.
#include "bridge.h"
#include "forms.h"

namespace {
using namespace H;
using forms::Setting;

std::vector<Mask> States(const ref::World& w, size_t limit) {
  std::set<Mask> s = {0, w.full()};
  if (w.bits() <= limit) {
    for (Mask m = 0; m < w.full(); m++) s.insert(m);
  } else {
    for (size_t i = 0; i < w.bits(); i++) {
      for (size_t j = 0; j < w.bits(); j++) {
        s.insert(Mask(1) << i | Mask(1) << j);
        s.insert(w.full() & ~(Mask(1) << i | Mask(1) << j));
      }
    }
  }
  return {s.begin(), s.end()};
}

// Parameter lists to give to actions over a setting's types.
std::vector<ref::Vars> ParamLists(const Setting& s) {
  std::vector<ref::Vars> v = {{}, s.params};
  const auto types = vocab::Types(s.d);
  for (const auto& t : types) v.push_back({{"x", t}});
  for (size_t i = 0; i < types.size(); i++) {
    v.push_back({{"x", types[i]}, {"y", types[(i + 1) % types.size()]}});
    v.push_back({{"y", types[i]}, {"x", types[i]}});
  }
  v.push_back({{"x", types.back()}, {"y", types[0]}, {"z", types.back()}});
  return v;
}

struct Group {
  ref::Dom d;
  std::string what;
};

void ListCheck(const ref::Dom& d, size_t limit) {
  const ref::World w(d);
  auto pddl = Load(d);
  const Bridge br(w, *pddl);
  std::vector<ref::COp> ops;
  std::vector<std::vector<std::vector<int>>> tuples;
  for (const ref::Op& o : d.actions) {
    ops.push_back(w.compile(o));
    tuples.push_back(w.tuples(ops.back().ranges));
  }
  for (Mask m : States(w, limit)) {
    const State st = br.state(m);
    const auto text = symbolic::Stringify(st);
    std::vector<std::string> want;
    for (size_t i = 0; i < ops.size(); i++) {
      std::vector<std::vector<std::string>> want_args;
      for (const auto& t : tuples[i]) {
        const bool ok = w.holds(ops[i], t, m);
        const std::string call = w.call(ops[i].name, t);
        R.transitions++;
        CHECK(pddl->IsValidAction(st, call) == ok,
              call << " in " << w.show(m) << " with precondition " << ref::text(d.actions[i].pre)
                   << " should be " << ok);
        CHECK(pddl->actions()[i].IsValid(st, br.args(t)) == ok, call << " by objects");
        if (!ok) continue;
        want.push_back(call);
        std::vector<std::string> a;
        for (int o : t) a.push_back(w.obj[o]);
        want_args.push_back(a);
      }
      auto got = symbolic::Stringify(pddl->ListValidArguments(st, pddl->actions()[i]));
      std::sort(got.begin(), got.end());
      std::sort(want_args.begin(), want_args.end());
      CHECK(got == want_args, "ListValidArguments of " << ref::text(d.actions[i]) << " in "
                                                       << w.show(m));
      if (m % 3 == 0 || m < 4) {
        auto got2 = pddl->ListValidArguments(text, ops[i].name);
        std::sort(got2.begin(), got2.end());
        CHECK(got2 == want_args, "ListValidArguments by text of " << ref::text(d.actions[i]) << " in "
                                                                  << w.show(m));
      }
    }
    auto got = pddl->ListValidActions(st);
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    auto show = [](const std::vector<std::string>& v) {
      std::string o;
      for (const auto& x : v) o += x + "; ";
      return o;
    };
    CHECK(got == want, "ListValidActions in " << w.show(m) << " gives " << show(got)
                                              << " instead of " << show(want));
    if (m % 3 == 0 || m < 4) {
      auto got2 = pddl->ListValidActions(text);
      std::sort(got2.begin(), got2.end());
      CHECK(got2 == want, "ListValidActions by text in " << w.show(m));
    }
    CHECK(br.mask(st) == m, "state changed");
    R.states++;
  }
  R.traces += ops.size();
}

void Listings() {
  const bool t = R.thorough;
  static std::vector<Setting> settings = forms::Settings();
  for (const Setting& s : settings) {
    for (const ref::Vars& params : ParamLists(s)) {
      forms::Setting s2 = s;
      s2.params = params;
      forms::Gen g(s2);
      std::vector<ref::F> fs = g.UpTo(2, params);
      const auto& three = g.Exactly(3, params);
      const size_t n3 = t ? 600 : 40;
      for (size_t i = 0; i < three.size(); i += std::max<size_t>(1, three.size() / n3)) fs.push_back(three[i]);
      const size_t nP = t ? 300 : 20;
      const auto pre = g.Prefixes(1, params, t ? 7 : 97);
      for (size_t i = 0; i < pre.size(); i += std::max<size_t>(1, pre.size() / nP)) fs.push_back(pre[i]);
      const size_t chunk = 12;
      for (size_t b = 0; b < fs.size(); b += chunk) {
        R.kase(
            [&] {
              std::ostringstream o;
              ref::put_vars(o, params, true);
              return "list: setting " + s.name + " parameters (" + o.str() + ") formulas from " +
                     ref::text(fs[b]);
            },
            [&] {
              ref::Dom d = s.d;
              for (size_t i = b; i < std::min(fs.size(), b + chunk); i++) {
                ref::Op op;
                op.name = "act" + std::to_string(i);
                op.params = params;
                op.pre = fs[i];
                d.actions.push_back(op);
                if (i % 5 == 0) {  // a neighbour with another signature
                  ref::Op n;
                  n.name = "nop" + std::to_string(i);
                  d.actions.push_back(n);
                }
              }
              ListCheck(d, t ? 7 : 6);
            });
      }
    }
  }
}

// Four parameters, predicates of four arguments, wide formulas.
void Wide() {
  static const Setting s = forms::WideSetting();
  std::vector<ref::F> fs = forms::AllAtoms(s, s.params, R.thorough ? 1 : 7);
  for (const auto& f : forms::WideForms(s, s.params, R.thorough ? 331 : 3001)) fs.push_back(f);
  const size_t chunk = 12;
  for (size_t b = 0; b < fs.size(); b += chunk) {
    R.kase([&] { return "list: wide setting, formulas from " + ref::text(fs[b]); },
           [&] {
             ref::Dom d = s.d;
             for (size_t i = b; i < std::min(fs.size(), b + chunk); i++) {
               ref::Op op;
               op.name = "act" + std::to_string(i);
               op.params = s.params;
               if (i % 3 == 1) std::reverse(op.params.begin(), op.params.end());
               if (i % 3 == 2) std::rotate(op.params.begin(), op.params.begin() + 1, op.params.end());
               op.pre = fs[i];
               d.actions.push_back(op);
             }
             ListCheck(d, 6);
           });
  }
}

// Runs every operation that takes a call; "good" calls are well-formed, and
// "valid" ones also applicable.  Every action makes exactly `ran` true.
void Call(const Pddl& p, const State& ran, const std::string& call, bool good, bool valid) {
  const Pddl* pddl = &p;
  const State st;
  R.transitions++;
  bool b1 = false, b2 = false;
  CHECK(Throws([&] { b1 = pddl->IsValidAction(st, call); }) == !good,
        "IsValidAction " << call);
  CHECK(b1 == valid, "IsValidAction " << call << " gives " << b1);
  State s2;
  CHECK(Throws([&] { s2 = pddl->NextState(st, call); }) == !good, "NextState " << call);
  CHECK(!good || s2 == ran, "NextState " << call);
  State s3;
  CHECK(Throws([&] { s3 = pddl->ApplyActions(st, {"zero()", call}); }) == !good,
        "ApplyActions " << call);
  CHECK(Throws([&] { s3 = pddl->ApplyActions(st, {call, "zero()"}); }) == !good,
        "ApplyActions " << call);
  CHECK(!good || s3 == ran, "ApplyActions " << call);
  CHECK(Throws([&] { b2 = pddl->IsValidTuple(st, call, ran); }) == !good,
        "IsValidTuple " << call);
  CHECK(b2 == valid, "IsValidTuple " << call << " gives " << b2);
  bool b3 = false;
  CHECK(Throws([&] { b3 = pddl->IsValidTuple(symbolic::Stringify(st), call,
                                            symbolic::Stringify(ran)); }) == !good,
        "IsValidTuple by text " << call);
  CHECK(b3 == valid, "IsValidTuple by text " << call << " gives " << b3);
  bool b4 = false;
  CHECK(Throws([&] { b4 = pddl->IsValidPlan({"zero()", call}); }) == !good,
        "IsValidPlan " << call);
  CHECK(b4 == valid, "IsValidPlan " << call << " gives " << b4);
  CHECK(Throws([&] { Action::Parse(*pddl, call); }) == !good, "Parse " << call);
}

// Every call text over known and unknown names.
void Rejections() {
  for (const ref::Dom& base : vocab::All()) {
    const auto types = vocab::Types(base);
    std::vector<std::vector<std::string>> pools;
    for (size_t i = 0; i < types.size(); i++) {
      for (size_t k = 0; k < types.size(); k++) {
        R.kase(
            [&] {
              return "reject: domain " + base.name + " types " + types[i] + ", " + types[k];
            },
            [&] {
              ref::Dom d = base;
              ref::Op op;
              // Effects that would leave a trace if an ill-formed call ran.
              d.preds.push_back({"ran", {}});
              op.eff = ref::Lst({ref::Add("ran")});
              op.name = "zero";
              d.actions.push_back(op);
              op.name = "one";
              op.params = {{"x", types[i]}};
              d.actions.push_back(op);
              op.name = "two";
              op.params = {{"x", types[i]}, {"y", types[k]}};
              d.actions.push_back(op);
              op.name = "never";
              op.params = {{"x", types[k]}};
              op.pre = ref::Or();
              d.actions.push_back(op);
              const ref::World w(d);
              auto pddl = Load(d);
              const Bridge br(w, *pddl);
              std::vector<std::string> names = w.obj;
              names.push_back("nobody");
              names.push_back("?x");
              names.push_back(w.obj.empty() ? "q" : w.obj[0] + w.obj[0]);
              names.push_back(w.obj.empty() ? "r" : std::string(w.obj[0].size(), '_'));
              for (const std::string& an : {"zero", "one", "two", "never", "three", "on", "wo", "twoo", "Zero", ""}) {
                const ref::Op* ro = nullptr;
                for (const auto& o : d.actions) {
                  if (o.name == an) ro = &o;
                }
                for (size_t arity = 0; arity <= 3; arity++) {
                  std::vector<std::vector<int>> r(arity);
                  for (auto& x : r) {
                    for (size_t q = 0; q < names.size(); q++) x.push_back(static_cast<int>(q));
                  }
                  ref::World::product(r, [&](const std::vector<int>& tup) {
                    std::vector<std::string> a;
                    for (int x : tup) a.push_back(names[x]);
                    const std::string call = ref::ground_name(an, a);
                    bool good = ro != nullptr && ro->params.size() == arity;
                    for (size_t q = 0; good && q < arity; q++) {
                      good = static_cast<size_t>(tup[q]) < w.obj.size() &&
                             w.subtype(w.obj_type[tup[q]], ro->params[q].second);
                    }
                    const bool valid = good && std::string(an) != "never";
                    Call(*pddl, br.state(Mask(1) << (w.bits() - 1)), call, good, valid);
                    R.states++;
                  });
                }
                bool threw = Throws([&] { pddl->ListValidArguments({}, an); });
                CHECK(threw == (ro == nullptr), "ListValidArguments of " << an);
                threw = Throws([&] { Action(*pddl, std::string(an)); });
                CHECK(threw == (ro == nullptr), "Action named " << an);
              }
              R.traces++;
            });
      }
    }
  }
}

// Calls with three to five arguments of different types.
void WideRejections() {
  ref::Dom d;
  d.name = "wide calls";
  d.types = {{"t", ""}, {"u", "t"}, {"v", ""}};
  d.consts = {{"k", "v"}};
  d.objs = {{"a", "t"}, {"b", "u"}};
  d.preds = {{"ran", {}}};
  const std::vector<std::string> types = {"t", "u", "v", ""};
  for (size_t n = 3; n <= 5; n++) {
    for (size_t rot = 0; rot < types.size(); rot++) {
      R.kase([&] { return "reject: " + std::to_string(n) + " arguments, rotation " + std::to_string(rot); },
             [&] {
               ref::Dom e = d;
               ref::Op op;
               op.eff = ref::Lst({ref::Add("ran")});
               op.name = "zero";
               e.actions.push_back(op);
               op.name = "many";
               for (size_t i = 0; i < n; i++) {
                 op.params.push_back({std::string(1, static_cast<char>('m' + i)), types[(i * (rot % 2 ? 3 : 1) + rot) % 4]});
               }
               e.actions.push_back(op);
               const ref::World w(e);
               auto pddl = Load(e);
               const Bridge br(w, *pddl);
               std::vector<std::string> names = w.obj;
               names.push_back("nobody");
               for (size_t len = n - 1; len <= n + 1; len++) {
                 std::vector<std::vector<int>> r(len);
                 for (auto& x : r) {
                   for (size_t q = 0; q < names.size(); q++) x.push_back(static_cast<int>(q));
                 }
                 ref::World::product(r, [&](const std::vector<int>& tup) {
                   std::vector<std::string> a;
                   for (int x : tup) a.push_back(names[x]);
                   bool good = len == n;
                   for (size_t q = 0; good && q < n; q++) {
                     good = static_cast<size_t>(tup[q]) < w.obj.size() &&
                            w.subtype(w.obj_type[tup[q]], op.params[q].second);
                   }
                   Call(*pddl, br.state(1), ref::ground_name("many", a), good, good);
                   R.states++;
                 });
               }
               R.traces++;
             });
    }
  }
}

}  // namespace

void H::Main() {
  R.case_cpu_s = 120;
  Rejections();
  WideRejections();
  Listings();
  Wide();
}
