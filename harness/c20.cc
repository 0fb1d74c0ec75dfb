// C20: text forms of propositions, states, actions and formulas round-trip.
#include "bridge.h"
#include "forms.h"
#include "symbolic/planning/planner.h"

namespace {
using namespace H;
using forms::Setting;

// Adds an action for every short parameter list over the types.
ref::Dom WithActions(ref::Dom d) {
  const auto types = vocab::Types(d);
  std::vector<ref::Vars> lists = {{}};
  for (const auto& t : types) lists.push_back({{"x", t}});
  for (const auto& t : types) {
    for (const auto& u : types) lists.push_back({{"x", t}, {"y", u}});
  }
  lists.push_back({{"z", types.back()}, {"y", ""}, {"x", types[types.size() / 2]}});
  if (d.objs.size() + d.consts.size() <= 4) {
    lists.push_back({{"x", types.back()}, {"y", types[0]}, {"z", types[0]}, {"v", types.back()}});
    lists.push_back({{"x", types[0]}, {"y", types[0]}, {"z", types.back()}, {"v", types[0]}, {"w", types.back()}});
  }
  for (size_t i = 0; i < lists.size(); i++) {
    ref::Op op;
    op.name = "act" + std::to_string(i);
    op.params = lists[i];
    d.actions.push_back(op);
  }
  return d;
}

// Ways of writing an argument list.
std::vector<std::string> Spellings(const std::string& head, const std::vector<std::string>& a) {
  static const char* const kForms[][3] = {
      // open, separator, close
      {"(", ", ", ")"},       {"(", ",", ")"},    {"( ", " , ", " )"}, {"(  ", ",  ", "  )"},
      {"(\t", ",\t", "\t)"},  {"(\n", ",\n", "\n)"}, {"(", " ,", ")"},  {"(", ", ", ") "},
      {"(", ", ", ")\n"},     {"( \t", "\t ,\n", "\n\n)"},
  };
  std::vector<std::string> out;
  for (const auto& f : kForms) {
    std::string s = head + f[0];
    for (size_t i = 0; i < a.size(); i++) s += (i ? f[1] : "") + a[i];
    out.push_back(s + f[2]);
  }
  return out;
}
std::vector<std::string> Names(const std::vector<Object>& v) {
  std::vector<std::string> a;
  for (const Object& o : v) a.push_back(o.name());
  return a;
}
// Names close to a declared one that are not declared.
std::vector<std::string> Undeclared(const ref::World& w, const std::string& n) {
  std::vector<std::string> c = {"zzz", n + "x", n + n, "?" + n, "-" + n, n + "-1"};
  if (n.size() > 1) {
    c.push_back(n.substr(0, n.size() - 1));
    c.push_back(n.substr(1));
  }
  std::string up = n;
  for (char& ch : up) ch = static_cast<char>(toupper(ch));
  c.push_back(up);
  for (const auto& t : w.d.types) c.push_back(t.first);
  for (const auto& p : w.d.preds) c.push_back(p.name);
  std::vector<std::string> out;
  for (const auto& x : c) {
    if (w.obj_id.count(x) == 0) out.push_back(x);
  }
  return out;
}

void Propositions(const ref::Dom& d) {
  R.kase([&] { return "propositions of " + d.name; }, [&] {
    const ref::World w(d);
    auto pddl = Load(d);
    const Bridge br(w, *pddl);
    std::map<std::string, int> text, lisp;
    for (size_t i = 0; i < w.bits(); i++) {
      const Proposition& p = br.props[i];
      const auto args = Names(p.arguments());
      CHECK(p.to_string() == w.names[i], "printed as " << p.to_string());
      std::ostringstream o, l;
      o << p;
      CHECK(o.str() == w.names[i], "streamed as " << o.str());
      ref::put_atom(l, p.name(), args);
      CHECK(p.to_pddl() == l.str(), "input form " << p.to_pddl());
      CHECK(text.emplace(p.to_string(), i).second && lisp.emplace(p.to_pddl(), i).second,
            "two propositions print as " << p.to_string());
      const std::vector<std::string> sp = Spellings(p.name(), args);
      for (const auto& s : sp) {
        const Proposition q(*pddl, s);
        CHECK(q == p && !(q != p) && q.hash() == p.hash() && q.to_string() == w.names[i] &&
                  q.arguments() == p.arguments(),
              "'" << s << "' read as " << q.to_string());
        R.transitions++;
      }
      const symbolic::PropositionRef ref(&p.name(), &p.arguments(), std::hash<std::string>{}(p.name()));
      CHECK(ref.to_string() == w.names[i] && ref.to_pddl() == l.str(), "as a reference " << ref.to_string());
      CHECK(symbolic::Predicate(pddl->predicates()[w.ground[i].pred]).to_string(p.arguments()) == w.names[i],
            "predicate applied to the arguments");
      for (size_t k = 0; k < args.size(); k++) {
        for (const auto& bad : Undeclared(w, args[k])) {
          auto a = args;
          a[k] = bad;
          for (const auto& s : {Spellings(p.name(), a)[0], Spellings(p.name(), a)[2]}) {
            CHECK(Throws([&] { Proposition q(*pddl, s); }), "'" << s << "' was read");
            CHECK(Throws([&] { State q(*pddl, {s}); }), "state with '" << s << "' was read");
            CHECK(Throws([&] { PartialState q(*pddl, {}, {s}); }), "partial state with '" << s << "'");
            CHECK(Throws([&] { PartialState q(*pddl, {s}, {}); }), "partial state with '" << s << "'");
            CHECK(Throws([&] { pddl->IsGoalSatisfied(std::set<std::string>{s}); }), "goal in '" << s << "'");
            CHECK(Throws([&] { pddl->ListValidActions(std::set<std::string>{s}); }), "actions in '" << s << "'");
            CHECK(Throws([&] { pddl->ListValidArguments(std::set<std::string>{s}, "act0"); }),
                  "arguments in '" << s << "'");
            CHECK(Throws([&] { pddl->IsValidTuple({s}, "act0()", {}); }) &&
                      Throws([&] { pddl->IsValidTuple({}, "act0()", {s}); }),
                  "tuple with '" << s << "'");
            R.transitions++;
          }
        }
      }
      R.states++;
    }
    // Without a problem only the constants are declared.
    if (!d.consts.empty() || !d.objs.empty()) {
      const symbolic::Pddl alone(DomainFile(ref::domain_text(d)));
      for (size_t i = 0; i < w.bits(); i++) {
        bool known = true;
        for (int a : w.ground[i].args) known &= a < static_cast<int>(d.consts.size());
        CHECK(Throws([&] { Proposition q(alone, w.names[i]); }) == !known,
              w.names[i] << " without a problem");
        if (known) CHECK(Proposition(alone, w.names[i]).to_string() == w.names[i], "without a problem");
      }
    }
    R.traces++;
  });
}

void States(const ref::Dom& d, size_t limit) {
  R.kase([&] { return "states of " + d.name; }, [&] {
    const ref::World w(d);
    auto pddl = Load(d);
    const Bridge br(w, *pddl);
    std::vector<Mask> masks;
    if (w.bits() <= limit) {
      for (Mask m = 0; m <= w.full(); m++) masks.push_back(m);
    } else {
      std::set<Mask> s = {0, w.full()};
      for (size_t i = 0; i < w.bits(); i++) {
        for (size_t j = 0; j < w.bits(); j++) {
          for (size_t k = 0; k < w.bits(); k += 3) {
            const Mask m = Mask(1) << i | Mask(1) << j | Mask(1) << k;
            s.insert(m);
            s.insert(w.full() & ~m);
          }
        }
      }
      masks.assign(s.begin(), s.end());
    }
    std::map<std::string, Mask> printed;
    std::map<std::set<std::string>, Mask> listed;
    for (Mask m : masks) {
      const State s = br.state(m);
      std::set<std::string> want;
      for (size_t i = 0; i < w.bits(); i++) {
        if (m >> i & 1) want.insert(w.names[i]);
      }
      const auto uset = s.Stringify();
      const auto set = symbolic::Stringify(s);
      CHECK(set == want && std::set<std::string>(uset.begin(), uset.end()) == want && uset.size() == want.size(),
            w.show(m) << " prints wrongly");
      const State back(*pddl, uset);
      CHECK(back == s && br.mask(back) == m, w.show(m) << " reads back as " << Bridge::Show(back));
      // every spelling of the members
      for (size_t f = 1; f < 10; f++) {
        std::unordered_set<std::string> text;
        std::set<std::string> stext;
        for (size_t i = 0; i < w.bits(); i++) {
          if (!(m >> i & 1)) continue;
          const auto sp = Spellings(br.props[i].name(), Names(br.props[i].arguments()));
          text.insert(sp[(f + (f == 9 ? i : 0)) % 10]);
          stext.insert(sp[(f + (f == 9 ? i : 0)) % 10]);
        }
        CHECK(State(*pddl, text) == s, w.show(m) << " in spelling " << f);
        if (f == 3) {
          // two spellings of one proposition are one member
          text.insert(uset.begin(), uset.end());
          const State both(*pddl, text);
          CHECK(both == s && both.size() == s.size(), w.show(m) << " spelled twice");
        }
        R.transitions++;
      }
      std::ostringstream o;
      o << s;
      CHECK(printed.emplace(o.str(), m).second, "two states print as " << o.str());
      // "{ a(b), c() }"
      std::string braces;
      for (const auto& n : want) braces += (braces.empty() ? "" : ", ") + n;
      CHECK(o.str() == "{ " + braces + " }", w.show(m) << " prints as " << o.str());
      CHECK(listed.emplace(set, m).second, "two states list the same");
      // the same contents built in another order print the same
      State rev;
      for (size_t i = w.bits(); i-- > 0;) {
        if (m >> i & 1) rev.insert(br.props[i]);
      }
      std::ostringstream o2;
      o2 << rev;
      CHECK(o2.str() == o.str(), "equal states print as " << o.str() << " and " << o2.str());
      R.states++;
    }
    // partial states
    std::map<std::string, std::pair<Mask, Mask>> partials;
    for (size_t a = 0; a < masks.size(); a += 1 + masks.size() / 60) {
      for (size_t b = 0; b < masks.size(); b += 1 + masks.size() / 60) {
        const Mask pos = masks[a], neg = masks[b] & ~masks[a];
        const PartialState p = br.partial(pos, neg);
        const auto txt = p.Stringify();
        const PartialState back(*pddl, txt.first, txt.second);
        CHECK(back == p && br.mask(back.pos()) == pos && br.mask(back.neg()) == neg,
              "partial state " << w.show(pos) << w.show(neg));
        const auto txt2 = symbolic::Stringify(p);
        CHECK(txt2.first == symbolic::Stringify(p.pos()) && txt2.second == symbolic::Stringify(p.neg()) &&
                  txt2.first.size() == p.pos().size() && txt2.second.size() == p.neg().size(),
              "partial state lists");
        std::ostringstream o;
        o << p;
        const auto it = partials.emplace(o.str(), std::make_pair(pos, neg)).first;
        CHECK(it->second == std::make_pair(pos, neg), "two partial states print as " << o.str());
        // One line for each proposition known to be true or false
        std::multiset<std::string> lines, known;
        std::istringstream is(o.str());
        for (std::string line; std::getline(is, line);) {
          const size_t first = line.find_first_not_of(" \t");
          if (first != std::string::npos) lines.insert(line.substr(first));
        }
        known = {"(and", ")"};
        for (size_t i = 0; i < w.bits(); i++) {
          if (pos >> i & 1) known.insert(w.names[i]);
          if (neg >> i & 1) known.insert("not " + w.names[i]);
        }
        CHECK(lines == known, "partial state " << w.show(pos) << w.show(neg) << " prints as " << o.str());
        R.transitions++;
      }
    }
    R.traces++;
  });
}

void Calls(const ref::Dom& base) {
  R.kase([&] { return "calls of " + base.name; }, [&] {
    const ref::Dom d = WithActions(base);
    const ref::World w(d);
    auto pddl = Load(d);
    const Bridge br(w, *pddl);
    std::set<std::string> texts;
    CHECK(symbolic::Stringify(pddl->actions()).size() == d.actions.size(), "names of actions");
    for (size_t k = 0; k < d.actions.size(); k++) {
      const Action& act = pddl->actions()[k];
      CHECK(symbolic::Stringify(pddl->actions())[k] == d.actions[k].name, "name of action " << k);
      for (const auto& t : w.tuples(w.ranges(d.actions[k].params))) {
        const std::vector<Object> args = br.args(t);
        const std::string call = act.to_string(args);
        CHECK(call == w.call(d.actions[k].name, t), "call prints as " << call);
        CHECK(texts.insert(call).second, "two calls print as " << call);
        const auto sp = Spellings(act.name(), Names(args));
        for (const auto& s : sp) {
          const auto aa = Action::Parse(*pddl, s);
          CHECK(aa.first == act && aa.first.name() == act.name() && aa.second == args &&
                    aa.first.to_string(aa.second) == call,
                "'" << s << "' read as " << aa.first.to_string(aa.second));
          CHECK(pddl->IsValidAction(State(), s) && pddl->NextState(State(), s) == State() &&
                    pddl->IsValidTuple(State(), s, State()) && pddl->IsValidPlan({s}) &&
                    pddl->ApplyActions(State(), {s, s}) == State(),
                "'" << s << "' in a query");
          R.transitions++;
        }
        for (size_t i = 0; i < args.size(); i++) {
          for (const auto& bad : Undeclared(w, args[i].name())) {
            auto a = Names(args);
            a[i] = bad;
            const auto s = Spellings(act.name(), a)[(k + i) % 10];
            CHECK(Throws([&] { Action::Parse(*pddl, s); }) && Throws([&] { pddl->IsValidAction(State(), s); }) &&
                      Throws([&] { pddl->NextState(State(), s); }) &&
                      Throws([&] { pddl->IsValidTuple(State(), s, State()); }) &&
                      Throws([&] { pddl->IsValidPlan({s}); }) && Throws([&] { pddl->ApplyActions(State(), {s}); }),
                  "'" << s << "' was accepted");
            R.transitions++;
          }
        }
        R.states++;
      }
    }
    // lists of objects and argument lists
    const auto objs = symbolic::Stringify(pddl->objects());
    CHECK(objs.size() == w.obj.size(), "object names");
    for (const auto& n : objs) {
      CHECK(Object(*pddl, n).name() == n && w.obj_id.count(n), "object " << n);
      for (const auto& bad : Undeclared(w, n)) CHECK(Throws([&] { Object o(*pddl, bad); }), "object " << bad);
    }
    for (const auto& t : w.tuples(w.ranges({{"x", ""}, {"y", ""}, {"z", ""}}))) {
      const auto args = br.args(t);
      std::ostringstream o;
      o << args;
      CHECK(Object::ParseArguments(*pddl, "any(" + o.str() + ")") == args, "arguments " << o.str());
      CHECK(Object::ParseArguments(*pddl, Names(args)) == args, "argument names " << o.str());
      CHECK(symbolic::Stringify(std::vector<std::vector<Object>>{args, args})[1] == Names(args), "argument lists");
    }
    R.traces++;
  });
}

std::vector<Mask> EvalStates(const ref::World& w, size_t limit) {
  std::set<Mask> s = {0, w.full()};
  if (w.bits() <= limit) {
    for (Mask m = 0; m < w.full(); m++) s.insert(m);
  } else {
    for (size_t i = 0; i < w.bits(); i++) {
      for (size_t j = 0; j < w.bits(); j++) {
        s.insert(Mask(1) << i | Mask(1) << j);
        s.insert(w.full() & ~(Mask(1) << i | Mask(1) << j));
      }
    }
  }
  return {s.begin(), s.end()};
}

// Prints every formula as it was loaded, loads the text again and compares
// both with the reference in every state.
void Preconditions(const Setting& s, const std::vector<ref::F>& fs, size_t chunk, const char* tag) {
  for (size_t b = 0; b < fs.size(); b += chunk) {
    const size_t e = std::min(fs.size(), b + chunk);
    R.kase(
        [&] {
          return "setting " + s.name + ": " + tag + " " + std::to_string(b) + ".." + std::to_string(e) +
                 " (first: " + ref::text(fs[b]) + ")";
        },
        [&] {
          ref::Dom d = s.d;
          for (size_t i = b; i < e; i++) {
            ref::Op op;
            op.name = "act" + std::to_string(i);
            op.params = s.params;
            op.pre = fs[i];
            d.actions.push_back(op);
          }
          ref::Dom d2 = d;
          {
            auto first = Load(d);
            for (size_t i = 0; i < e - b; i++) {
              d2.actions[i].pre.raw = first->actions()[i].preconditions().to_string();
              std::ostringstream o;
              o << first->actions()[i].preconditions();
              CHECK(o.str().find(d2.actions[i].pre.raw) != std::string::npos, "streamed as " << o.str());
            }
          }
          std::unique_ptr<Pddl> pddl;
          std::string what;
          if (Throws([&] { pddl = Load(d2); }, &what)) {
            for (size_t i = 0; i < e - b; i++) {
              ref::Dom d3 = d2;
              d3.actions = {d2.actions[i]};
              CHECK(!Throws([&] { Load(d3); }),
                    ref::text(fs[b + i]) << " prints as " << d2.actions[i].pre.raw << ", which cannot be read");
            }
            FAIL("cannot be read: " << what);
          }
          const ref::World w(d);
          const Bridge br(w, *pddl);
          const auto masks = EvalStates(w, 7);
          std::vector<State> states;
          for (Mask m : masks) states.push_back(br.state(m));
          const auto tuples = w.tuples(w.ranges(s.params));
          for (size_t i = b; i < e; i++) {
            const ref::COp c = w.compile(d.actions[i - b]);
            const Action& a = pddl->actions()[i - b];
            for (const auto& t : tuples) {
              const auto args = br.args(t);
              ref::World::Env env = t;
              for (size_t k = 0; k < masks.size(); k++) {
                CHECK(a.IsValid(states[k], args) == w.eval(c.pre, env, masks[k]),
                      ref::text(fs[i]) << " prints as " << d2.actions[i - b].pre.raw << ", which differs for "
                                       << w.call("args", t) << " in " << w.show(masks[k]));
                R.transitions++;
              }
            }
            R.states++;
          }
          R.traces += e - b;
        });
  }
}

void Goals(const Setting& s, const std::vector<ref::F>& fs, size_t stride) {
  const size_t chunk = 25;
  std::vector<ref::F> sub;
  for (size_t i = 0; i < fs.size(); i += stride) sub.push_back(fs[i]);
  for (size_t b = 0; b < sub.size(); b += chunk) {
    const size_t e = std::min(sub.size(), b + chunk);
    R.kase([&] { return "setting " + s.name + ": goals " + std::to_string(b) + " (first: " + ref::text(sub[b]) + ")"; },
           [&] {
             for (size_t i = b; i < e; i++) {
               ref::Dom d = s.d;
               d.goal = sub[i];
               ref::Dom d2 = d;
               d2.goal.raw = Load(d)->goal().to_string();
               auto pddl = Load(d2);
               const ref::World w(d);
               const Bridge br(w, *pddl);
               const ref::CF c = w.compile(d.goal, {});
               ref::World::Env env;
               for (Mask m : EvalStates(w, 7)) {
                 CHECK(pddl->IsGoalSatisfied(br.state(m)) == w.eval(c, env, m),
                       "goal " << ref::text(sub[i]) << " prints as " << d2.goal.raw << ", which differs in "
                               << w.show(m));
                 R.transitions++;
               }
               R.states++;
             }
             R.traces += e - b;
           });
  }
}

}  // namespace

void H::Main() {
  const bool t = R.thorough;
  R.case_cpu_s = 300;
  auto doms = vocab::All();
  {
    // Names that are prefixes of one another, and signs inside names.
    ref::Dom d;
    d.name = "prefixes";
    d.types = {{"t", ""}, {"tt", "t"}};
    d.consts = {{"ab", "t"}};
    d.objs = {{"a", "t"}, {"b", "tt"}, {"a-b", "t"}, {"a_b", "tt"}, {"a1", "t"}};
    d.preds = {{"p", {{"x", "t"}}}, {"pa", {}}, {"pp", {{"x", "tt"}, {"y", "tt"}}}, {"p-p", {{"x", "t"}}}};
    doms.push_back(d);
    // Long names that differ only at the end.
    d.name = "long";
    d.types = {{"movable-physical-object", ""}};
    d.consts = {{"location-in-the-north-of-the-area-1", ""}};
    d.objs = {{"location-in-the-north-of-the-area-2", ""}, {"location-in-the-north-of-the-area", ""},
              {"location-in-the-north-of-the-area-12", "movable-physical-object"}};
    d.preds = {{"movable-object-is-near-1", {{"x", ""}}}, {"movable-object-is-near-2", {{"x", ""}}},
               {"movable-object-is-near", {{"x", "movable-physical-object"}}}};
    doms.push_back(d);
  }
  {
    // Three to five arguments.
    ref::Dom d;
    d.name = "arities";
    d.types = {{"t", ""}, {"u", "t"}, {"v", ""}};
    d.consts = {{"k", "v"}};
    d.objs = {{"a", "t"}, {"b", "u"}};
    d.preds = {{"three", {{"x", "t"}, {"y", "v"}, {"z", "t"}}},
               {"four", {{"x", "u"}, {"y", "t"}, {"z", "t"}, {"w", "t"}}},
               {"five", {{"x", "t"}, {"y", "t"}, {"z", "t"}, {"w", "t"}, {"v", "t"}}}};
    doms.push_back(d);
  }
  for (const auto& d : doms) Propositions(d);
  for (const auto& d : doms) States(d, t ? 12 : 8);
  for (const auto& d : doms) Calls(d);
  static std::vector<Setting> settings = forms::Settings();
  for (const Setting& s : settings) {
    forms::Gen g(s);
    Preconditions(s, g.UpTo(3, s.params), 100, "formulas up to 3 nodes");
    if (t) Preconditions(s, g.Exactly(4, s.params), 100, "formulas of 4 nodes");
    Preconditions(s, g.Prefixes(1, s.params, t ? 1 : 7), 100, "prefix length 1");
    Preconditions(s, g.Prefixes(2, s.params, t ? 7 : 97), 50, "prefix length 2");
    Preconditions(s, g.Prefixes(3, s.params, t ? 97 : 1511), 25, "prefix length 3");
    Goals(s, g.UpTo(2, {}), 1);
    Goals(s, g.Exactly(3, {}), t ? 3 : 17);
    Goals(s, g.Prefixes(2, {}, t ? 53 : 701), 1);
    Preconditions(s, forms::WideForms(s, s.params, t ? 7 : 101), 50, "wide formulas");
    Goals(s, forms::WideForms(s, {}, t ? 31 : 331), 1);
  }
  static const Setting wide = forms::WideSetting();
  Preconditions(wide, forms::AllAtoms(wide, wide.params, 1), 100, "atoms");
  Preconditions(wide, forms::WideForms(wide, wide.params, t ? 31 : 331), 50, "wide formulas");
}
