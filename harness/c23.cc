// C23: a loaded problem reflects exactly what the input files say.
#include <sys/stat.h>

#include <regex>

#include "model.h"
#include "probe.h"
#include "vocab.h"

namespace {
using namespace H;
using ref::Menu;
using ref::Model;

std::string ShowVars(const ref::Vars& v) {
  std::string o = "(";
  for (const auto& x : v) o += (o.size() > 1 ? ", " : "") + x.first + " - " + ref::World::tn(x.second);
  return o + ")";
}
std::string WriteFile(const std::string& name, const std::string& text) { return DomainFile(text, name); }

// How a loaded specification is printed, without the addresses.
struct Printer {
  const ref::Dom& d;
  std::map<ref::Str, ref::Str> type_of;  // of the names in scope
  std::vector<std::string> out;

  explicit Printer(const ref::Dom& dom) : d(dom) {
    for (const auto& v : d.consts) type_of[v.first] = v.second;
    for (const auto& v : d.objs) type_of[v.first] = v.second;
  }
  static std::string Tabs(size_t n) { return std::string(n, '\t'); }
  std::string Args(const std::vector<ref::Str>& a) {
    std::string o = "(";
    for (const ref::Str& x : a) {
      o += (o.size() > 1 ? ", " : "") + (x[0] == '?' ? x.substr(1) : x) + ": " + ref::World::tn(type_of[x]);
    }
    return o + ")";
  }
  // Declares the variables, hiding those of the same name.
  std::string Vars(const ref::Vars& v) {
    std::vector<ref::Str> names;
    for (const auto& x : v) {
      type_of["?" + x.first] = x.second;
      names.push_back("?" + x.first);
    }
    return Args(names);
  }
  void Goal(const ref::F& f, size_t depth) {
    const auto outer = type_of;
    switch (f.k) {
      case ref::F::ATOM:
        out.push_back(Tabs(depth) + f.pred + Args(f.args));
        return;
      case ref::F::AND:
      case ref::F::OR:
        out.push_back(Tabs(depth) + (f.k == ref::F::AND ? "and:" : "or:"));
        break;
      case ref::F::NOT:
        out.push_back(Tabs(depth) + "neg:");
        break;
      case ref::F::ALL:
      case ref::F::EX:
        out.push_back(Tabs(depth) + (f.k == ref::F::ALL ? "forall" : "exists") + Vars(f.vars) + ":");
        break;
    }
    for (const ref::F& x : f.kids) Goal(x, depth + 1);
    type_of = outer;
  }
  static void Flatten(const ref::E& e, std::vector<const ref::E*>* l) {
    if (e.k != ref::E::LIST) {
      l->push_back(&e);
      return;
    }
    for (const ref::E& x : e.kids) Flatten(x, l);
  }
  void Effects(const ref::E& e, size_t depth) {
    std::vector<const ref::E*> l;
    Flatten(e, &l);
    for (ref::E::K k : {ref::E::ADD, ref::E::DEL, ref::E::ALL, ref::E::WHEN}) {
      for (const ref::E* x : l) {
        if (x->k != k) continue;
        const auto outer = type_of;
        if (k == ref::E::ADD) out.push_back(Tabs(depth) + "(+) " + x->pred + Args(x->args));
        if (k == ref::E::DEL) out.push_back(Tabs(depth) + "(-) " + x->pred + Args(x->args));
        if (k == ref::E::ALL) out.push_back(Tabs(depth) + "forall" + Vars(x->vars) + ":");
        if (k == ref::E::WHEN) {
          out.push_back(Tabs(depth) + "when:");
          Goal(x->cond, depth + 1);
          out.push_back(Tabs(depth) + "then:");
        }
        if (k == ref::E::ALL || k == ref::E::WHEN) Effects(x->kids[0], depth + 1);
        type_of = outer;
      }
    }
  }
  void Domain(const Pddl& p) {
    out = {"DOMAIN", "======", "Name: " + d.name, "Requirements:", "Types: "};
    for (const auto& t : d.types) out.push_back("\t" + t.first + ": " + ref::World::tn(t.second));
    out.push_back("Constants: ");
    for (const auto& c : d.consts) out.push_back("\t" + c.first + ": " + ref::World::tn(c.second));
    out.push_back("Predicates:");
    for (const auto& q : d.preds) out.push_back("\t" + q.name + Vars(q.params));
    out.push_back("Actions: ");
    size_t k = 0;
    for (const auto* ops : {&d.axioms, &d.actions}) {
      for (const ref::Op& op : *ops) {
        // axioms have no name in the input
        const std::string name = ops == &d.axioms ? p.axioms()[k++]->name() : op.name;
        const auto outer = type_of;
        out.push_back("\t" + name + Vars(op.params));
        out.push_back("\t\tPreconditions:");
        Goal(op.pre, 3);
        out.push_back("\t\tEffects:");
        Effects(op.eff, 3);
        type_of = outer;
      }
    }
    out.push_back("");
  }
  void Problem() {
    for (const char* l : {"PROBLEM", "=======", "Name: prob"}) out.push_back(l);
    out.push_back("Domain: " + d.name);
    out.push_back("Requirements:");
    out.push_back("Objects:");
    for (const auto& o : d.objs) out.push_back("\t" + o.first + ": " + ref::World::tn(o.second));
    out.push_back("Initial State:");
    for (const auto& a : d.init) out.push_back("\t(+) " + a.first + Args(a.second));
    out.push_back("Goal:");
    Goal(d.goal, 1);
    out.push_back("");
  }
};

void Printed(const ref::Dom& d, const Pddl& p, bool with_problem, const std::string& what) {
  Printer want(d);
  want.Domain(p);
  if (with_problem) want.Problem();
  std::ostringstream os;
  os << p;
  static const std::regex address(" \\[(0x[0-9a-f]+|0)\\]");
  std::istringstream is(std::regex_replace(os.str(), address, ""));
  std::vector<std::string> got;
  bool types = false;
  for (std::string line; std::getline(is, line);) {
    if (line.rfind("Requirements:", 0) == 0) line = "Requirements:";
    if (line == "Constants: ") types = false;
    if (types && line.rfind("\tobject: ", 0) == 0) continue;  // may be listed or not
    if (line == "Types: ") types = true;
    got.push_back(line);
  }
  for (size_t i = 0; i < want.out.size() && i < got.size(); i++) {
    CHECK(got[i] == want.out[i], what << ": printed \"" << got[i] << "\" where \"" << want.out[i] << "\" is declared");
  }
  CHECK(got.size() == want.out.size(), what << ": " << got.size() << " lines printed, not " << want.out.size());
}

// Compares every listed member with the source.
void Members(const ref::Dom& d, const Pddl& p, bool with_problem, bool apply, const std::string& what) {
  const ref::World w(d, !with_problem);
  CHECK(p.name() == d.name, what << ": name " << p.name());
  CHECK(ShowTyped(p.constants()) == ShowVars(d.consts), what << ": constants " << ShowTyped(p.constants()));
  ref::Vars all = d.consts;
  if (with_problem) all.insert(all.end(), d.objs.begin(), d.objs.end());
  CHECK(ShowTyped(p.objects()) == ShowVars(all), what << ": objects " << ShowTyped(p.objects()));

  // Types and their ancestors.
  std::vector<ref::Str> types = vocab::Types(d);
  std::map<ref::Str, std::vector<ref::Str>> listed, want;
  for (const auto& kv : p.object_map()) {
    for (const Object& o : kv.second) listed[kv.first].push_back(o.name());
  }
  for (const ref::Str& t : types) {
    if (want.count(ref::World::tn(t))) continue;  // "" and "object" are the same
    for (int o : w.objects(t)) want[ref::World::tn(t)].push_back(w.obj[o]);
  }
  for (auto* m : {&listed, &want}) {
    for (auto& kv : *m) std::sort(kv.second.begin(), kv.second.end());
  }
  if (listed != want) {
    std::ostringstream o;
    for (const auto& kv : listed) {
      o << " " << kv.first << ":";
      for (const auto& x : kv.second) o << " " << x;
    }
    FAIL(what << ": objects per type" << o.str());
  }
  for (size_t i = 0; i < p.objects().size(); i++) {
    const Object& o = p.objects()[i];
    const auto lineage = o.type().ListTypes();
    const auto anc = w.ancestors(w.obj_type[i]);
    CHECK(std::set<std::string>(lineage.begin(), lineage.end()) == std::set<std::string>(anc.begin(), anc.end()) &&
              lineage.size() == anc.size(),
          what << ": ancestors of the type of " << o.name());
    for (const ref::Str& t : types) {
      CHECK(o.type().IsSubtype(ref::World::tn(t)) == w.subtype(w.obj_type[i], t),
            what << ": " << o.name() << " is a " << ref::World::tn(t));
    }
    CHECK(!o.type().IsSubtype("nosuchtype") || w.obj_type[i] == "nosuchtype", what << ": unknown type");
    const Object by_name(p, o.name());
    CHECK(by_name == o && by_name.name() == o.name() && by_name.type().name() == o.type().name() && !o.IsVariable(),
          what << ": object by name " << o.name());
  }

  CHECK(p.predicates().size() == d.preds.size(), what << ": " << p.predicates().size() << " predicates");
  for (size_t i = 0; i < d.preds.size(); i++) {
    const auto& q = p.predicates()[i];
    CHECK(q.name() == d.preds[i].name && ShowTyped(q.parameters()) == ShowVars(d.preds[i].params),
          what << ": predicate " << q.to_string() << ShowTyped(q.parameters()));
    CHECK(q.parameter_generator().size() == w.tuples(w.ranges(d.preds[i].params)).size(), what << ": instances of " << q.name());
  }
  CHECK(p.state_index().size() == w.bits(), what << ": " << p.state_index().size() << " propositions");
  CHECK(p.actions().size() == d.actions.size(), what << ": " << p.actions().size() << " actions");
  for (size_t i = 0; i < d.actions.size(); i++) {
    const Action& a = p.actions()[i];
    CHECK(a.name() == d.actions[i].name && ShowTyped(a.parameters()) == ShowVars(d.actions[i].params),
          what << ": action " << a.name() << ShowTyped(a.parameters()));
    for (const Object& o : a.parameters()) CHECK(o.IsVariable(), what << ": parameter " << o.name());
    const Action by_name(p, d.actions[i].name);
    CHECK(by_name == a && ShowTyped(by_name.parameters()) == ShowVars(d.actions[i].params), what << ": action by name");
  }
  for (const char* n : {"nosuchaction", "", "act", "Act0", "axiom2"}) {
    CHECK(Throws([&] { Action a(p, n); }), what << ": action '" << n << "'");
  }
  CHECK(p.axioms().size() == d.axioms.size(), what << ": " << p.axioms().size() << " axioms");
  size_t mapped = 0;
  for (const auto& kv : p.axiom_map()) mapped += kv.second.size();
  CHECK(mapped == d.axioms.size(), what << ": " << mapped << " axioms by context");
  for (size_t i = 0; i < d.axioms.size(); i++) {
    const auto& x = *p.axioms()[i];
    const bool neg = d.axioms[i].pre.k == ref::F::NOT;
    const ref::F& atom = neg ? d.axioms[i].pre.kids[0] : d.axioms[i].pre;
    std::vector<std::string> args;
    for (const Object& o : x.context().arguments()) args.push_back((o.IsVariable() ? "?" : "") + o.name());
    CHECK(ShowTyped(x.parameters()) == ShowVars(d.axioms[i].params) && x.context().is_pos() == !neg &&
              x.context().name() == atom.pred && args == atom.args,
          what << ": axiom " << i << " has the context " << x.context().sign() << x.context().to_string());
    const auto it = p.axiom_map().find((neg ? "-" : "+") + atom.pred);
    bool found = it != p.axiom_map().end();
    if (found) {
      found = false;
      for (const auto& wp : it->second) found |= wp.lock().get() == &x;
    }
    CHECK(found, what << ": axiom " << i << " is not listed under its context");
  }
  CHECK(p.derived_predicates().size() == d.ders.size(), what << ": " << p.derived_predicates().size() << " derivation rules");
  for (size_t i = 0; i < d.ders.size(); i++) {
    CHECK(p.derived_predicates()[i].name() == d.ders[i].pred &&
              ShowTyped(p.derived_predicates()[i].parameters()) == ShowVars(d.ders[i].params),
          what << ": derivation rule " << p.derived_predicates()[i].name());
  }

  Printed(d, p, with_problem, what);

  // What the members mean, in a few states.
  if (!with_problem) return;
  const Model m(d);
  if (!m.usable) return;
  const Bridge br(m.w, p);
  const auto init = apply ? m.settle(m.init) : std::optional<Mask>(m.rules.close(m.init));
  if (init) {
    CHECK(br.mask(p.initial_state()) == *init, what << ": initial state " << Bridge::Show(p.initial_state()));
  }
  std::set<Mask> masks = {0, m.w.full(), m.init, m.w.full() & 0x5555555555555555ull, m.w.full() & 0x3333333333333333ull};
  for (Mask s : masks) {
    const State st = br.state(s);
    CHECK(p.IsGoalSatisfied(st) == m.is_goal(s), what << ": goal in " << m.w.show(s));
    for (size_t c = 0; c < m.calls.size(); c++) {
      CHECK(p.IsValidAction(st, m.calls[c].text) == m.applicable(s, c), what << ": " << m.calls[c].text << " in " << m.w.show(s));
      const auto n = m.next(s, c);
      if (n) {
        CHECK(br.mask(p.NextState(st, m.calls[c].text)) == *n,
              what << ": " << m.calls[c].text << " from " << m.w.show(s));
      }
      R.transitions++;
    }
  }
}


// One problem in all the ways it can be given.
void Load23(const ref::Dom& d, const std::string& what, bool settles) {
  const std::string dom = ref::domain_text(d), prob = ref::problem_text(d);
  const std::string df = WriteFile("in.pddl", dom);
  std::vector<bool> applies = {false};
  if (settles) applies.push_back(true);
  for (bool apply : applies) {
    const Pddl text(df, prob, apply);
    Members(d, text, true, apply, what + " as text");
    CHECK(text.domain_pddl() == df && text.problem_pddl() == prob, what << ": inputs");
    const std::string pf = WriteFile("problem.pddl", prob + "\n");
    const Pddl file(df, pf, apply);
    Members(d, file, true, apply, what + " as a file");
    CHECK(file.problem_pddl() == pf, what << ": inputs");
    // other ways of laying out the same text
    std::string spaced, commented = "; a comment (with parentheses)\n";
    for (char c : prob) {
      spaced += c == ' ' ? std::string("\n\t ") : std::string(1, c);
      commented += c;
      if (c == '\n') commented += "  ; (:goal (and)) \n";
    }
    const Pddl odd(df, "\n  " + spaced + " \t\r\n\n", apply);
    const Pddl com(WriteFile("in2.pddl", "; first\n" + dom + "\n; last"), commented, apply);
    const std::string pf2 = WriteFile("problem2", commented + "\n; end");
    const Pddl com2(df, pf2, apply);
    const Pddl com3(df, commented + "\n; end", apply), com4(df, ";\n" + prob + ";(\n;\n", apply);
    const std::string pf3 = WriteFile("problem (1)", prob);
    const Pddl copy(df, pf3, apply);
    ref::World w(d);
    std::vector<Query> qs = GlobalQueries(d, 1);
    for (Mask m : {Mask(0), w.full(), w.full() & 0x55555555}) {
      Texts t;
      for (size_t i = 0; i < w.bits(); i++) {
        if (m >> i & 1) t.insert(w.names[i]);
      }
      if (!settles) break;
      for (auto& q : StateQueries(t)) qs.push_back(std::move(q));
    }
    for (const Query& q : qs) {
      const std::string a = q(text);
      CHECK(a == q(file), what << ": " << q.name << " differs between text and file");
      CHECK(a == q(odd) && a == q(com) && a == q(com2) && a == q(com3) && a == q(com4) && a == q(copy), what << ": " << q.name << " differs with white space or comments");
      R.transitions++;
    }
    CHECK(text.IsValid() && file.IsValid() && odd.IsValid(), what << " is valid");
    R.states++;
  }
  // the default applies the axioms
  if (settles) {
    const Pddl def(df, prob);
    Members(d, def, true, true, what + " by default");
  }
  // without a problem
  const Pddl alone(df);
  Members(d, alone, false, false, what + " without a problem");
  CHECK(alone.problem_pddl().empty() && alone.domain_pddl() == df, what << ": inputs");
  const Pddl alone2(df, "", false);
  Members(d, alone2, false, false, what + " with an empty problem");
  R.traces++;
}

void Vocabularies() {
  for (const ref::Dom& base : vocab::All()) {
    const auto types = vocab::Types(base);
    for (size_t variant = 0; variant < 6; variant++) {
      R.kase([&] { return "vocabulary " + base.name + " variant " + std::to_string(variant); }, [&] {
        ref::Dom d = base;
        // actions over every list of one or two types
        std::vector<ref::Vars> lists = {{}};
        for (const auto& t : types) lists.push_back({{"x", t}});
        for (size_t i = 0; i < types.size(); i++) {
          lists.push_back({{"x", types[i]}, {"y", types[(i + variant) % types.size()]}});
        }
        for (size_t i = variant % 2; i < lists.size(); i++) {
          ref::Op op;
          op.name = "act" + std::to_string(i);
          op.params = lists[i];
          for (const auto& p : d.preds) {
            if (p.params.empty() && variant > 2) {
              op.pre = ref::Not(ref::A(p.name));
              op.eff = ref::Lst({ref::Add(p.name)});
            }
          }
          d.actions.push_back(op);
        }
        const ref::World w(d);
        for (size_t i = variant; i < w.bits(); i += 2 + variant % 3) {
          std::vector<ref::Str> a;
          for (int x : w.ground[i].args) a.push_back(w.obj[x]);
          d.init.emplace_back(d.preds[w.ground[i].pred].name, a);
        }
        if (variant % 2 && !d.init.empty()) {
          d.init.push_back(d.init[0]);  // written twice
          d.goal = ref::And({ref::A(d.init[0].first, d.init[0].second), ref::Not(ref::A(d.init.back().first, d.init.back().second))});
        }
        if (variant == 3) std::reverse(d.objs.begin(), d.objs.end());
        if (variant == 4) std::reverse(d.preds.begin(), d.preds.end());
        Load23(d, "vocabulary " + base.name, true);
      });
    }
  }
}

// Larger declarations: chains of types, predicates of up to five arguments,
// a dozen predicates, actions, axioms and rules.
void Larger() {
  for (size_t variant = 0; variant < 12; variant++) {
    R.kase([&] { return "larger declarations, variant " + std::to_string(variant); }, [&] {
      ref::Dom d;
      d.name = "larger";
      d.types = {{"block-a", ""}, {"block-ab", "block-a"}, {"block-abc", "block-ab"}, {"block-abcd", "block-abc"},
                 {"block-abcde", "block-abcd"}, {"block", ""}, {"blo", "block"}, {"side", "block-abc"}};
      if (variant % 2) std::reverse(d.types.begin(), d.types.end());
      const std::vector<ref::Str> t = {"block-a", "block-abc", "block-abcde", "side", "blo", ""};
      d.consts = {{"obj", "block-abcde"}};
      d.objs = {{"obj-1", "blo"}, {"obj-10", "side"}};
      if (variant % 3 == 1) d.objs.push_back({"ob", "block"});
      d.preds = {{"five", {{"x", t[1]}, {"y", t[0]}, {"z", t[2]}, {"v", t[0]}, {"w", t[3]}}},
                 {"four", {{"x", t[0]}, {"y", t[1]}, {"z", t[4]}, {"w", t[0]}}},
                 {"three", {{"x", t[4]}, {"y", t[0]}, {"z", t[2]}}}};
      for (size_t i = 0; i < 9; i++) {
        ref::Pred q;
        q.name = "p-" + std::to_string(i);
        if (i % 4 != 3) q.params = {{"x", i % 2 ? t[0] : t[1]}};
        d.preds.push_back(q);
      }
      for (size_t i = 0; i < 12; i++) {
        ref::Op op;
        op.name = i < 9 ? "do-it-" + std::to_string(i) : "do-it-1" + std::to_string(i);
        for (size_t k = 0; k < i % 6; k++) {
          op.params.push_back({std::string(1, static_cast<char>('p' + k)), t[(i * (k + 1) + variant) % t.size()]});
        }
        op.pre = ref::Not(ref::A("p-" + std::to_string(i % 2 ? 3 : 7)));
        op.eff = ref::Lst({ref::Add("p-" + std::to_string(i % 2 ? 7 : 3))});
        d.actions.push_back(op);
      }
      if (variant % 3 == 0) {
        for (size_t i = 0; i < 6; i++) {
          ref::Op ax;
          ax.name = "ax" + std::to_string(i);
          ax.params = {{"x", t[1]}};
          const size_t from = i < 3 ? i : i + 1;  // p-0 p-1 p-2, p-4 p-5 p-6
          ax.pre = ref::A("p-" + std::to_string(from), {"?x"});
          const size_t to = from + 1 + (from % 4 == 2);
          if (to > 8) continue;
          ax.eff = ref::Lst({to % 4 == 3 ? ref::Add("p-3") : ref::Add("p-" + std::to_string(to), {"?x"})});
          d.axioms.push_back(ax);
        }
      }
      if (variant % 3 == 2) {
        for (size_t i = 0; i < 6; i++) {
          ref::Der r;
          r.pred = "derived-" + std::to_string(i);
          r.params = {{"x", t[i % 2 ? 0 : 1]}};
          r.body = ref::A("p-" + std::to_string(i == 3 ? 5 : i), {"?x"});
          if (i % 2 == 0 && i > 0) r.body = ref::Or({r.body, ref::A("derived-" + std::to_string(i - 2), {"?x"})});
          if (i % 2) r.body = ref::A(i % 4 == 3 ? "p-5" : "p-1", {"?x"});
          d.preds.push_back({r.pred, r.params});
          d.ders.push_back(r);
        }
      }
      if (!d.axioms.empty()) {  // the reference follows the axioms over few propositions only
        d.preds.erase(d.preds.begin(), d.preds.begin() + 3);
        for (size_t i = 0; i < d.preds.size(); i++) {
          if (!d.preds[i].params.empty() && i != 0) d.preds[i].params[0].second = t[2];
        }
        for (auto& ax : d.axioms) ax.params[0].second = t[2];
      }
      const ref::World w(d);
      if (w.bits() > 64) FAIL("too many propositions");
      std::set<ref::Str> derived;
      for (const auto& r : d.ders) derived.insert(r.pred);
      for (size_t i = variant % 5; i < w.bits(); i += 1 + variant % 4) {
        if (derived.count(d.preds[w.ground[i].pred].name)) continue;
        std::vector<ref::Str> a;
        for (int x : w.ground[i].args) a.push_back(w.obj[x]);
        d.init.emplace_back(d.preds[w.ground[i].pred].name, a);
      }
      std::vector<ref::F> goal;
      for (size_t i = 0; i < d.init.size(); i += 3) {
        goal.push_back(i % 2 ? ref::Not(ref::A(d.init[i].first, d.init[i].second)) : ref::A(d.init[i].first, d.init[i].second));
      }
      d.goal = ref::And(goal);
      const Model model(d);
      CHECK(model.usable, "unusable description");
      Load23(d, "larger declarations " + std::to_string(variant), model.settle(model.init).has_value());
    });
  }
}

// Type hierarchies: every forest over up to n types, in several declaration
// orders, with an object of each type.
void Hierarchies(size_t n) {
  static const char* const kNames[] = {"ta", "tb", "tc", "td"};
  for (size_t k = 1; k <= n; k++) {
    size_t total = 1;
    for (size_t i = 0; i < k; i++) total *= k + 1;
    for (size_t code = 0; code < total; code++) {
      // parent of i: one of the types, or none / "object"
      std::vector<int> par(k);
      for (size_t i = 0, c = code; i < k; i++, c /= k + 1) par[i] = static_cast<int>(c % (k + 1)) - 1;
      bool ok = true;
      for (size_t i = 0; i < k; i++) {
        int x = static_cast<int>(i);
        for (size_t s = 0; s <= k && x >= 0; s++) x = par[x];
        ok &= x < 0;
      }
      if (!ok) continue;
      R.kase([&] { return "hierarchy of " + std::to_string(k) + " types, number " + std::to_string(code); }, [&] {
        for (int style = 0; style < 3; style++) {
          ref::Dom d;
          d.name = "hierarchy";
          for (size_t i = 0; i < k; i++) {
            d.types.emplace_back(kNames[i], par[i] >= 0 ? kNames[par[i]] : style == 1 ? "object" : "");
          }
          if (style == 2) std::reverse(d.types.begin(), d.types.end());
          for (size_t i = 0; i < k; i++) {
            (i % 2 ? d.consts : d.objs).emplace_back(std::string("o") + kNames[i], kNames[i]);
            if (i == 0) d.objs.emplace_back("second", kNames[i]);
          }
          d.objs.emplace_back("plain", style == 1 ? "object" : "");
          d.preds = {{"any", {{"x", ""}}}};
          for (size_t i = 0; i < k; i++) d.preds.push_back({std::string("p") + kNames[i], {{"x", kNames[i]}, {"y", kNames[k - 1]}}});
          ref::Op op;
          op.name = "act0";
          op.params = {{"x", kNames[0]}, {"y", kNames[k - 1]}};
          d.actions = {op};
          const std::string what = "hierarchy:\n" + ref::domain_text(d);
          const Pddl p(DomainFile(ref::domain_text(d)), ref::problem_text(d));
          Members(d, p, true, true, what);
          CHECK(p.IsValid(), what << " is valid");
          // an action or predicate per type accepts exactly its subtypes
          R.states++;
        }
        R.traces++;
      });
    }
  }
}

void MenuProblems(bool thorough) {
  for (const Menu& m : ref::Menus()) {
    const size_t na = m.actions.size();
    for (size_t a = 0; a < na; a++) {
      for (size_t b = 0; b < (thorough ? na : 2); b++) {
        R.kase([&] { return "menu " + m.name + " actions " + std::to_string(a) + "," + std::to_string(b); }, [&] {
          for (size_t i = 0; i < m.inits.size(); i++) {
            std::vector<size_t> which = {a, (a + b + 1) % na};
            if (b == 1) which.push_back((a + 5) % na);
            const ref::Dom d = m.with(which, i, a + b + i);
            const Model model(d);
            Load23(d, "menu " + m.name + ":\n" + ref::domain_text(d) + ref::problem_text(d), model.settle(model.init).has_value());
          }
        });
      }
    }
  }
  for (const auto& v : ref::AxiomVocabs()) {
    const size_t n = v.axioms.size();
    for (size_t i = 0; i < n; i += thorough ? 1 : 3) {
      R.kase([&] { return "axioms " + v.name + " " + std::to_string(i); }, [&] {
        for (size_t k : {size_t(0), size_t(1), n / 2}) {
          ref::Dom d = v.d;
          d.axioms.push_back(v.axioms[i]);
          if (k > 0) d.axioms.push_back(v.axioms[(i + k) % n]);
          const ref::World w(d);
          const ref::AxiomSystem sys(w);
          if (sys.ill_typed || sys.oscillates()) continue;
          bool endless = false;
          for (Mask m = 0; m <= w.full() && !endless; m++) endless = sys.explore(m, 0, true).cyclic;
          if (endless) {
            R.extra["excluded_sets"]++;
            continue;
          }
          const auto o = sys.explore(0, 0, true);
          Load23(d, "axioms " + v.name + ":\n" + ref::domain_text(d), o.unique());
        }
      });
    }
  }
}

// Inputs that are missing or cannot be read.
void BadInputs() {
  const Menu m = ref::Menus()[1];
  const ref::Dom d = m.with({1, 3, 7}, 2, 1);
  const std::string dom = ref::domain_text(d), prob = ref::problem_text(d);
  for (size_t part = 0; part < 8; part++) {
    R.kase([&] { return "truncated inputs, part " + std::to_string(part); }, [&] {
      const std::string good = WriteFile("good.pddl", dom);
      auto still_works = [&](const std::string& what) {
        const Pddl p(good, prob);
        Members(d, p, true, true, "after " + what);
      };
      const size_t last = dom.find_last_of(')');
      for (size_t n = part; n < last; n += 8) {
        const std::string f = WriteFile("cut.pddl", dom.substr(0, n));
        CHECK(Throws([&] { Pddl p(f); }), "a domain cut after " << n << " characters was loaded");
        CHECK(Throws([&] { Pddl p(f, prob); }), "a domain cut after " << n << " characters was loaded");
        R.transitions++;
      }
      still_works("cut domains");
      for (size_t n = part + 1; n + 1 < prob.size(); n += 8) {
        const std::string cut = prob.substr(0, n);
        CHECK(Throws([&] { Pddl p(good, cut); }), "a problem cut after " << n << " characters was loaded: " << cut);
        const std::string f = WriteFile("cutp.pddl", cut);
        CHECK(Throws([&] { Pddl p(good, f); }), "a problem file cut after " << n << " characters was loaded");
        R.transitions++;
      }
      still_works("cut problems");
      R.states++;
      R.traces++;
    });
  }
  R.kase([&] { return std::string("missing inputs"); }, [&] {
    const std::string good = WriteFile("good.pddl", dom);
    const std::string pf = WriteFile("goodp.pddl", prob);
    const std::string dir = R.scratch + "/adir";
    mkdir(dir.c_str(), 0700);
    for (const std::string& f : {R.scratch + "/missing.pddl", std::string(""), R.scratch + "/adir", std::string("/dev/null"),
                                 std::string(" "), pf}) {
      CHECK(Throws([&] { Pddl p(f); }), "domain file '" << f << "' was loaded");
      CHECK(Throws([&] { Pddl p(f, prob); }), "domain file '" << f << "' was loaded");
      CHECK(Throws([&] { Pddl p(f, pf, false); }), "domain file '" << f << "' was loaded");
      R.transitions++;
    }
    for (const std::string& f : {R.scratch + "/missing.pddl", R.scratch + "/adir", std::string("/dev/null"), std::string(" "),
                                 std::string("\n\t"), std::string("()"), std::string(")"), std::string("(define)"), good, dom,
                                 std::string("(define (problem p))")}) {
      if (f == "(define (problem p))") continue;  // sections may be left out
      CHECK(Throws([&] { Pddl p(good, f); }), "problem '" << f << "' was loaded");
      CHECK(Throws([&] { Pddl p(good, f, false); }), "problem '" << f << "' was loaded");
      R.transitions++;
    }
    const Pddl p(good, pf);
    Members(d, p, true, true, "after missing inputs");
    R.states++;
    R.traces++;
  });
}

// Specifications that do or do not type-check.
void Validity() {
  struct Flaw {
    const char* name;
    bool domain;
    std::function<void(ref::Dom*)> make;
  };
  using ref::A;
  const std::vector<Flaw> flaws = {
      {"precondition with too few arguments", true, [](ref::Dom* d) { d->actions[0].pre = A("p"); }},
      {"precondition with an unknown predicate", true, [](ref::Dom* d) { d->actions[0].pre = A("nosuch", {"?x"}); }},
      {"precondition of the wrong type", true, [](ref::Dom* d) { d->actions[1].pre = ref::Not(A("on", {"?x", "?x"})); }},
      {"effect of the wrong type", true, [](ref::Dom* d) { d->actions[1].eff = ref::Lst({ref::Del("on", {"?x", "k"})}); }},
      {"quantified condition with an unknown predicate", true,
       [](ref::Dom* d) { d->actions[0].pre = ref::All({{"y", "t"}}, ref::Or({A("p", {"?y"}), A("q", {"?y"})})); }},
      {"initial proposition of the wrong type", false, [](ref::Dom* d) { d->init = {{"on", {"o", "o"}}}; }},
      {"initial proposition with too many arguments", false, [](ref::Dom* d) { d->init = {{"p", {"o", "o"}}}; }},
      {"goal with an unknown predicate", false, [](ref::Dom* d) { d->goal = ref::And({A("nosuch", {"o"})}); }},
      {"goal of the wrong type", false, [](ref::Dom* d) { d->goal = ref::Not(A("on", {"o", "k"})); }},
  };
  ref::Dom base;
  base.name = "validity";
  base.types = {{"t", ""}, {"u", "t"}};
  base.consts = {{"k", "t"}};
  base.objs = {{"o", "t"}, {"v", "u"}};
  base.preds = {{"p", {{"x", "t"}}}, {"on", {{"x", "u"}, {"y", "t"}}}};
  ref::Op op;
  op.name = "act0";
  op.params = {{"x", "t"}};
  op.pre = A("p", {"?x"});
  op.eff = ref::Lst({ref::Del("p", {"?x"})});
  base.actions.push_back(op);
  op.name = "act1";
  base.actions.push_back(op);
  base.init = {{"p", {"o"}}, {"on", {"v", "k"}}};
  base.goal = ref::Ex({{"x", "u"}}, A("on", {"?x", "o"}));
  for (size_t i = 0; i <= flaws.size(); i++) {
    for (size_t j = 0; j <= flaws.size(); j++) {
      R.kase([&] {
        return std::string("validity: ") + (i < flaws.size() ? flaws[i].name : "nothing") + " and " +
               (j < flaws.size() ? flaws[j].name : "nothing");
      },
             [&] {
               ref::Dom d = base;
               bool ok = true;
               for (size_t f : {i, j}) {
                 if (f == flaws.size()) continue;
                 flaws[f].make(&d);
                 ok = false;
               }
               const Pddl p(DomainFile(ref::domain_text(d)), ref::problem_text(d), false);
               const Pddl other(DomainFile(ref::domain_text(base), "other.pddl"), ref::problem_text(base), false);
               for (int k = 0; k < 2; k++) {
                 std::ostringstream o;
                 CHECK(p.IsValid() == ok && p.IsValid(true, o) == ok && p.IsValid(false, o) == ok, "is valid?");
                 CHECK(other.IsValid(), "the other problem is valid");
                 const Pddl file(DomainFile(ref::domain_text(d)), WriteFile("p.pddl", ref::problem_text(d)), false);
                 CHECK(file.IsValid() == ok, "is valid as a file?");
               }
               R.states++;
               R.traces++;
             });
    }
  }
}

// Conditions the library does not interpret are not loaded as something else.
void Unsupported(size_t depth) {
  using ref::A;
  ref::F imply;
  imply.raw = "(imply (p ?x) (p k))";
  std::vector<std::pair<std::string, ref::F>> bad = {{"", imply}};
  std::vector<ref::F> level = {imply};
  for (size_t n = 0; n < depth; n++) {
    std::vector<ref::F> next;
    for (const ref::F& f : level) {
      next.push_back(ref::Not(f));
      next.push_back(ref::And({f}));
      next.push_back(ref::Or({f}));
      next.push_back(ref::And({A("p", {"k"}), f}));
      next.push_back(ref::Or({A("p", {"k"}), f}));
      next.push_back(ref::And({f, A("p", {"k"})}));
      next.push_back(ref::Or({f, A("p", {"k"})}));
      next.push_back(ref::All({{"z", "t"}}, f));
      next.push_back(ref::Ex({{"z", "u"}}, f));
    }
    for (const ref::F& f : next) bad.push_back({"", f});
    level = next;
  }
  ref::Dom base;
  base.name = "unsupported";
  base.types = {{"t", ""}, {"u", "t"}};
  base.consts = {{"k", "t"}};
  base.objs = {{"o", "t"}, {"v", "u"}};
  base.preds = {{"p", {{"x", "t"}}}, {"q", {{"x", "t"}}}, {"d", {{"x", "t"}}}};
  ref::Op op;
  op.name = "act0";
  op.params = {{"x", "t"}};
  op.pre = A("p", {"?x"});
  op.eff = ref::Lst({ref::Del("p", {"?x"})});
  base.actions = {op, op};
  base.actions[1].name = "act1";
  ref::Op ax;
  ax.params = {{"x", "t"}};
  ax.pre = A("q", {"?x"});
  ax.eff = ref::Lst({ref::Add("p", {"?x"})});
  base.axioms = {ax};
  ref::Der der;
  der.pred = "d";
  der.params = {{"x", "t"}};
  der.body = A("p", {"?x"});
  base.ders = {der};
  base.init = {{"p", {"o"}}};
  base.goal = A("p", {"v"});
  const size_t chunk = 30;
  for (size_t b = 0; b < bad.size(); b += chunk) {
    R.kase([&] { return "conditions not supported, from " + ref::text(bad[b].second); }, [&] {
      for (size_t i = b; i < bad.size() && i < b + chunk; i++) {
        const ref::F& f = bad[i].second;
        for (int where = 0; where < 6; where++) {
          ref::Dom d = base;
          const char* name = "";
          switch (where) {
            case 0: d.actions[0].pre = f; name = "precondition"; break;
            case 1: d.actions[1].pre = f; name = "precondition of the last action"; break;
            case 2: d.goal = ref::All({{"x", "t"}}, f); name = "goal"; break;
            case 3: d.ders[0].body = f; name = "derived predicate"; break;
            case 4: d.axioms[0].pre = f; name = "axiom context"; break;
            case 5: d.actions[0].eff = ref::Lst({ref::When(f, ref::Add("q", {"?x"}))}); name = "effect condition"; break;
          }
          CHECK(Throws([&] { Load(d); }), ref::text(f) << " as " << name << " was loaded");
          R.transitions++;
        }
        R.states++;
      }
      Load(base);
      R.traces++;
    });
  }
  R.kase([&] { return std::string("objects added without a problem"); }, [&] {
    Pddl alone(DomainFile(ref::domain_text(base)));
    for (const char* t : {"t", "u", "object", "k", "nosuch", ""}) {
      CHECK(Throws([&] { alone.AddObject("fresh", t); }), "an object of type '" << t << "' was added to a domain");
      CHECK(alone.objects().size() == 1 && Throws([&] { Object o(alone, "fresh"); }), "objects changed");
      R.transitions++;
    }
    Pddl both(DomainFile(ref::domain_text(base)), ref::problem_text(base));
    both.AddObject("fresh", "u");
    CHECK(both.objects().size() == 4 && Object(both, "fresh").type().name() == "u", "object added to a problem");
    R.states++;
    R.traces++;
  });
  // The context of an axiom is one literal.
  const std::vector<ref::F> lits = {A("q", {"?x"}), A("p", {"k"}), ref::Not(A("q", {"?x"}))};
  std::vector<ref::F> contexts;
  for (const ref::F& l : lits) {
    contexts.push_back(ref::Or({l}));
    contexts.push_back(ref::Not(ref::Not(l)));
    contexts.push_back(ref::All({{"z", "t"}}, l));
    contexts.push_back(ref::Ex({{"z", "u"}}, l));
    for (const ref::F& m : lits) {
      contexts.push_back(ref::And({l, m}));
      contexts.push_back(ref::Or({l, m}));
      contexts.push_back(ref::Not(ref::And({l, m})));
      contexts.push_back(ref::Not(ref::Or({l, m})));
    }
  }
  R.kase([&] { return std::string("axiom contexts"); }, [&] {
    for (const ref::F& f : contexts) {
      for (size_t place = 0; place < 2; place++) {
        ref::Dom d = base;
        d.axioms = {ax, ax};
        d.axioms[place].pre = f;
        CHECK(Throws([&] { Load(d); }), "an axiom with the context " << ref::text(f) << " was loaded");
        R.transitions++;
      }
      R.states++;
    }
    R.traces++;
  });
}

}  // namespace

void H::Main() {
  const bool t = R.thorough;
  R.case_cpu_s = 200;
  Validity();
  BadInputs();
  Unsupported(t ? 3 : 2);
  Vocabularies();
  Larger();
  Hierarchies(t ? 4 : 3);
  MenuProblems(t);
}
