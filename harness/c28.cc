// C28: the Python interface gives the answers of the problem that was loaded.
//
// The module is the real one (src/python/symbolic.cc), compiled against a
// stand-in for pybind11 (harness/pybind11) through which the functions it
// registers are called with Python's values.
#include <python/symbolic.cc>

#include "search.h"

namespace {
using namespace H;
using ref::Mask;
using ref::Menu;
using ref::Model;
using pybind11::Any;
using pybind11::List;
using Set = std::set<std::string>;
using Names = std::vector<std::string>;

pybind11::Module& Py() {
  static pybind11::Module m = [] {
    pybind11::Module x;
    symbolic::pybind11_init_pysymbolic(x);
    return x;
  }();
  return m;
}
const pybind11::Class& Cls(const std::string& name) {
  auto it = Py().classes.find(name);
  if (it == Py().classes.end()) FAIL("no class " << name);
  return it->second;
}
Any Init(const std::string& cls, std::vector<Any> a) { return pybind11::Resolve(Cls(cls).init, a, cls); }
Any Call(const std::string& cls, const std::string& method, std::vector<Any> a) {
  auto it = Cls(cls).methods.find(method);
  if (it == Cls(cls).methods.end()) FAIL("no method " << cls << "." << method);
  return pybind11::Resolve(it->second, a, cls + "." + method);
}
Any Static(const std::string& cls, const std::string& method, std::vector<Any> a) {
  auto it = Cls(cls).statics.find(method);
  if (it == Cls(cls).statics.end()) FAIL("no static method " << cls << "." << method);
  return pybind11::Resolve(it->second, a, cls + "." + method);
}
Any Get(const std::string& cls, const std::string& attr, const Any& self) {
  auto it = Cls(cls).getters.find(attr);
  if (it == Cls(cls).getters.end()) FAIL("no attribute " << cls << "." << attr);
  return it->second.call({self});
}
template <typename T>
T As(const Any& a, const std::string& what) {
  const T* p = std::any_cast<T>(&a);
  if (p == nullptr) FAIL(what << " has an unexpected type");
  return *p;
}
std::string Str(const Any& a) { return As<std::string>(a, "a string"); }
bool Bool(const Any& a) { return As<bool>(a, "a truth value"); }
long Int(const Any& a) { return As<long>(a, "a number"); }
Set StrSet(const Any& a) { return As<Set>(a, "a set"); }
List Items(const Any& a) {
  if (const auto* t = std::any_cast<pybind11::Tuple>(&a)) return t->items;
  return As<List>(a, "a list");
}
Any S(const std::string& s) { return Any(s); }
Any L(const Names& v) {
  List l;
  for (const auto& x : v) l.push_back(S(x));
  return Any(l);
}
Names Strs(const Any& a) {
  Names v;
  for (const Any& x : Items(a)) v.push_back(Str(x));
  return v;
}
Names Objects(const Any& a) {
  Names v;
  for (const Any& x : Items(a)) v.push_back(Str(Get("Object", "name", x)));
  return v;
}
std::string Join(const Names& v) {
  std::string s;
  for (const auto& x : v) s += (s.empty() ? "" : ", ") + x;
  return s;
}
template <typename T>
T Sorted(T v) {
  std::sort(v.begin(), v.end());
  return v;
}
List Iterate(const Any& it, size_t limit) {
  List out;
  const auto& i = As<pybind11::Iterator>(it, "an iterator");
  while (auto x = i.next()) {
    out.push_back(*x);
    CHECK(out.size() <= limit, "an iterator goes on for more than " << limit << " steps");
  }
  return out;
}

struct Ctx {
  const Model& m;
  Any pddl;
  Set text(Mask s) const {
    Set x;
    for (size_t i = 0; i < m.w.bits(); i++) {
      if (s >> i & 1) x.insert(m.w.names[i]);
    }
    return x;
  }
  Any state(Mask s) const { return Any(text(s)); }
  Mask mask(const Set& x) const {
    Mask s = 0;
    for (const auto& p : x) {
      auto it = m.w.bit_of.find(p);
      if (it == m.w.bit_of.end()) FAIL("unexpected proposition " << p);
      s |= Mask(1) << it->second;
    }
    return s;
  }
  Any call(const std::string& method, std::vector<Any> a = {}) const {
    a.insert(a.begin(), pddl);
    R.transitions++;
    return Call("Pddl", method, a);
  }
  Any get(const std::string& attr) const { return Get("Pddl", attr, pddl); }
};

// A parameter generator against the tuples it ranges over.
void Generator(const Ctx& c, const Any& gen, const ref::Vars& params, const std::string& what) {
  const auto tuples = c.m.w.tuples(c.m.w.ranges(params));
  CHECK(Int(Call("ParameterGenerator", "__len__", {gen})) == static_cast<long>(tuples.size()), "len of " << what);
  const List all = Iterate(Call("ParameterGenerator", "__iter__", {gen}), tuples.size());  // list(gen)
  CHECK(all.size() == tuples.size(), "number of tuples of " << what);
  std::set<Names> seen;
  for (size_t i = 0; i < tuples.size(); i++) {
    const Names item = Objects(Call("ParameterGenerator", "__getitem__", {gen, Any(static_cast<long>(i))}));
    CHECK(Objects(all[i]) == item, "position " << i << " of " << what);
    CHECK(Int(Call("ParameterGenerator", "index", {gen, L(item)})) == static_cast<long>(i),
          "index of " << Join(item) << " in " << what);
    CHECK(seen.insert(item).second, "(" << Join(item) << ") twice in " << what);
    R.transitions += 3;
  }
  for (const auto& t : tuples) {
    Names n;
    for (int o : t) n.push_back(c.m.w.obj[static_cast<size_t>(o)]);
    CHECK(seen.count(n), "(" << Join(n) << ") missing in " << what);
  }
}

void Members(const Ctx& c, const ref::Dom& d, const std::string& domain, const std::string& problem) {
  CHECK(Str(c.get("domain_pddl")) == domain && Str(c.get("problem_pddl")) == problem, "sources of the problem");
  CHECK(Call("Pddl", "__repr__", {c.pddl}).has_value(), "repr");
  CHECK(Str(c.get("name")) == d.name, "name " << Str(c.get("name")));
  Names consts, objs;
  for (const auto& o : d.consts) consts.push_back(o.first);
  objs = consts;
  for (const auto& o : d.objs) objs.push_back(o.first);
  CHECK(Sorted(Objects(c.get("constants"))) == Sorted(consts), "constants");
  CHECK(Sorted(Objects(c.get("objects"))) == Sorted(objs), "objects " << Join(Objects(c.get("objects"))));
  std::vector<std::string> types = {"object"};
  for (const auto& t : d.types) types.push_back(t.first);
  for (const Any& o : Items(c.get("objects"))) {
    const auto name = Str(Get("Object", "name", o));
    const auto id = static_cast<size_t>(c.m.w.obj_id.at(name));
    const Any type = Get("Object", "type", o);
    CHECK(Str(Get("ObjectType", "name", type)) == c.m.w.obj_type[id], "type of " << name);
    for (const auto& t : types) {
      CHECK(Bool(Call("ObjectType", "is_subtype", {type, S(t)})) == c.m.w.subtype(c.m.w.obj_type[id], t),
            "type of " << name << " as a subtype of " << t);
    }
    CHECK(Str(Call("Object", "__repr__", {o})) == name, "repr of " << name);
  }
  const auto& map = As<pybind11::Dict>(c.get("object_map"), "object_map");
  for (const auto& t : types) {
    Names want;
    for (int o : c.m.w.objects(t)) want.push_back(c.m.w.obj[static_cast<size_t>(o)]);
    auto it = map.find(t);
    const Names got = it == map.end() ? Names() : Objects(it->second);
    CHECK(Sorted(got) == Sorted(want), "objects of type " << t << ": " << Join(got));
  }
  const Any actions = c.get("actions");
  CHECK(Items(actions).size() == d.actions.size(), "number of actions");
  for (size_t i = 0; i < d.actions.size(); i++) {
    const Any a = Items(actions)[i];
    const ref::Op& o = d.actions[i];
    CHECK(Str(Get("Action", "name", a)) == o.name, "name of action " << o.name);
    Names ps;
    for (const auto& p : o.params) ps.push_back(p.first);
    CHECK(Objects(Get("Action", "parameters", a)) == ps, "parameters of " << o.name);
    Generator(c, Get("Action", "parameter_generator", a), o.params, "the arguments of " + o.name);
    for (const auto& call : c.m.calls) {
      if (call.op != i) continue;
      Names args;
      for (int x : call.args) args.push_back(c.m.w.obj[static_cast<size_t>(x)]);
      CHECK(Str(Call("Action", "to_string", {a, L(args)})) == call.text, "text of " << call.text);
      const Any parsed = Static("Action", "parse", {c.pddl, S(call.text)});
      CHECK(Str(Get("Action", "name", Items(parsed)[0])) == o.name && Objects(Items(parsed)[1]) == args,
            "parsing " << call.text);
    }
    CHECK(Str(Call("Action", "__repr__", {a})).find(o.name) == 0, "repr of " << o.name);
  }
  const Any preds = c.get("predicates");
  CHECK(Items(preds).size() == d.preds.size(), "number of predicates");
  for (size_t i = 0; i < d.preds.size(); i++) {
    const Any p = Items(preds)[i];
    const ref::Pred& x = d.preds[i];
    CHECK(Str(Get("Predicate", "name", p)) == x.name, "name of predicate " << x.name);
    Names ps;
    for (const auto& v : x.params) ps.push_back(v.first);
    CHECK(Objects(Get("Predicate", "parameters", p)) == ps, "parameters of " << x.name);
    Generator(c, Get("Predicate", "parameter_generator", p), x.params, "the arguments of " + x.name);
    for (const auto& g : c.m.w.ground) {
      if (g.pred != static_cast<int>(i)) continue;
      Names args;
      for (int o : g.args) args.push_back(c.m.w.obj[static_cast<size_t>(o)]);
      CHECK(Str(Call("Predicate", "to_string", {p, L(args)})) == c.m.w.name(g.pred, g.args), "text of " << x.name);
    }
    CHECK(Str(Call("Predicate", "__repr__", {p})).find(x.name) == 0, "repr of " << x.name);
  }
  CHECK(Items(c.get("axioms")).size() == d.axioms.size(), "number of axioms");
  for (const Any& a : Items(c.get("axioms"))) CHECK(!Str(Call("Axiom", "__repr__", {a})).empty(), "repr of an axiom");
  CHECK(Items(c.get("derived_predicates")).size() == d.ders.size(), "number of derived predicates");
  for (const Any& x : Items(c.get("derived_predicates"))) {
    CHECK(Call("DerivedPredicate", "__repr__", {x}).has_value(), "repr of a derived predicate");
  }
  CHECK(!Str(Call("Formula", "__repr__", {c.get("goal")})).empty(), "repr of the goal");
  CHECK(Bool(c.call("is_valid")), "the problem should be valid");
}

void Index(const Ctx& c) {
  const Any index = c.get("state_index");
  const auto n = static_cast<long>(c.m.w.bits());
  CHECK(Int(Call("StateIndex", "__len__", {index})) == n, "len of the state index");
  Names all;
  for (long i = 0; i < n; i++) {
    const std::string p = Str(Call("StateIndex", "get_proposition", {index, Any(i)}));
    CHECK(Str(Call("StateIndex", "get_proposition", {index, Any(i - n)})) == p, "proposition " << i - n);
    CHECK(c.m.w.bit_of.count(p), "proposition " << i << " is " << p);
    CHECK(Int(Call("StateIndex", "get_proposition_index", {index, S(p)})) == i, "number of " << p);
    all.push_back(p);
    R.transitions += 3;
  }
  CHECK(Set(all.begin(), all.end()).size() == all.size(), "a proposition has two numbers");
  for (Mask s : ref::StateMasks(c.m.w, 6)) {
    const Any x = Call("StateIndex", "get_indexed_state", {index, c.state(s)});
    const auto& v = As<symbolic::StateIndex::IndexedState>(x, "an indexed state");
    CHECK(v.size() == n, "length of an indexed state");
    for (long i = 0; i < n; i++) {
      CHECK((v[i] != 0) == c.text(s).count(all[static_cast<size_t>(i)]), "entry " << i << " of the indexed state "
                                                                                  << c.m.w.show(s));
    }
    CHECK(StrSet(Call("StateIndex", "get_state", {index, x})) == c.text(s), "indexed state " << c.m.w.show(s));
    R.transitions += 2;
  }
}

std::vector<Mask> Settled(const Model& m, size_t limit) {
  std::vector<Mask> states;
  for (Mask s = 0; s <= m.w.full(); s++) {
    const auto x = m.settle(s);
    if (x && *x == s) states.push_back(s);
  }
  if (states.size() <= limit) return states;
  std::vector<Mask> some;
  for (size_t k = 0; k < states.size(); k += states.size() / limit) some.push_back(states[k]);
  return some;
}

void Queries(const Ctx& c, const ref::Dom& d) {
  const Model& m = c.m;
  for (Mask s : Settled(m, 10)) {
    const Any st = c.state(s);
    R.states++;
    Names valid;
    std::map<std::string, std::set<Names>> args;
    for (size_t k = 0; k < m.calls.size(); k++) {
      const auto& call = m.calls[k];
      const bool ok = m.applicable(s, k);
      if (ok) {
        valid.push_back(call.text);
        Names a;
        for (int o : call.args) a.push_back(m.w.obj[static_cast<size_t>(o)]);
        args[m.ops[call.op].name].insert(a);
      }
      CHECK(Bool(c.call("is_valid_action", {st, S(call.text)})) == ok, "is_valid_action of " << call.text << " in "
                                                                                             << m.w.show(s));
      const auto n = m.next(s, k);
      if (!n) continue;
      CHECK(StrSet(c.call("next_state", {st, S(call.text)})) == c.text(*n), "next_state of " << call.text << " in "
                                                                                            << m.w.show(s));
      for (Mask x : {*n, s, *n ^ 1, m.w.full()}) {
        CHECK(Bool(c.call("is_valid_tuple", {st, S(call.text), c.state(x)})) == (ok && x == *n),
              "is_valid_tuple of " << call.text << " from " << m.w.show(s) << " to " << m.w.show(x));
      }
      for (size_t j = 0; j < m.calls.size(); j += 2) {
        const auto nn = m.next(*n, j);
        if (!nn) continue;
        CHECK(StrSet(c.call("apply_actions", {st, L({call.text, m.calls[j].text})})) == c.text(*nn),
              "apply_actions of " << call.text << ", " << m.calls[j].text << " in " << m.w.show(s));
      }
    }
    CHECK(Sorted(Strs(c.call("list_valid_actions", {st}))) == Sorted(valid), "list_valid_actions in " << m.w.show(s));
    for (const ref::Op& o : d.actions) {
      std::set<Names> got;
      const Any list = c.call("list_valid_arguments", {st, S(o.name)});
      for (const Any& x : Items(list)) {
        CHECK(got.insert(Strs(x)).second, "arguments twice");
      }
      CHECK(got == args[o.name], "list_valid_arguments of " << o.name << " in " << m.w.show(s));
    }
    CHECK(Bool(c.call("is_goal_satisfied", {st})) == m.is_goal(s), "is_goal_satisfied in " << m.w.show(s));
    bool rejected = false;
    try {
      c.call("next_state", {st, S("nosuchaction()")});
    } catch (const Failure&) {
      throw;
    } catch (const std::exception&) {
      rejected = true;
    }
    CHECK(rejected, "an unknown action is applied");
  }
  for (Mask s : ref::StateMasks(m.w, 6)) {
    const Any st = c.state(s);
    CHECK(Bool(c.call("is_valid_state", {st})) == m.ax.valid(s), "is_valid_state of " << m.w.show(s));
    CHECK(StrSet(c.call("derived_state", {st})) == c.text(m.rules.close(s)), "derived_state of " << m.w.show(s));
    const auto o = m.ax.explore(s, 0, true);
    if (o.unique()) {
      CHECK(StrSet(c.call("consistent_state", {st})) == c.text(*o.ends.begin()), "consistent_state of " << m.w.show(s));
    }
  }
  const auto masks = ref::StateMasks(m.w, 6);
  for (size_t i = 0; i < masks.size(); i++) {
    for (size_t j = i % 3; j < masks.size(); j += 3) {
      Mask p = masks[i], q = masks[j] & ~masks[i];
      const Any pos = c.state(p), neg = c.state(q);
      const std::string what = "the partial state " + m.w.show(p) + " / not " + m.w.show(q);
      const bool ok = m.ax.forced(&p, &q);
      CHECK(Bool(c.call("is_valid_state", {pos, neg})) == ok, "is_valid_state of " << what);
      if (!ok) continue;
      const Any got = c.call("consistent_state", {pos, neg});
      CHECK(StrSet(Items(got)[0]) == c.text(p) && StrSet(Items(got)[1]) == c.text(q), "consistent_state of " << what);
    }
  }
}

// Plans, from Python's search and as accepted.
void Planning(const Ctx& c, Mask root, size_t depth) {
  const Model& m = c.m;
  for (size_t k = 0; k < m.calls.size(); k++) {
    const auto n = m.next(root, k);
    if (!n) continue;
    const bool ok = m.applicable(root, k);
    CHECK(Bool(c.call("is_valid_plan", {L({m.calls[k].text})})) == (ok && m.is_goal(*n)), "is_valid_plan "
                                                                                              << m.calls[k].text);
    for (size_t j = 0; j < m.calls.size(); j++) {
      const auto nn = m.next(*n, j);
      if (!nn) continue;
      const bool want = ok && m.applicable(*n, j) && m.is_goal(*nn);
      CHECK(Bool(c.call("is_valid_plan", {L({m.calls[k].text, m.calls[j].text})})) == want,
            "is_valid_plan " << m.calls[k].text << ", " << m.calls[j].text);
    }
  }
  CHECK(Bool(c.call("is_valid_plan", {L({})})) == m.is_goal(root), "the empty plan");
  if (!m.reachable(root)) return;
  for (int given = 0; given < 2; given++) {
    const Any planner =
        given ? Init("Planner", {c.pddl, c.state(root)}) : Init("Planner", {c.pddl});
    const Any node = Get("Planner", "root", planner);
    std::function<void(const Any&, Mask, size_t, std::set<Mask>)> walk = [&](const Any& x, Mask s, size_t level,
                                                                          std::set<Mask> seen) {
      CHECK(StrSet(Get("PlannerNode", "state", x)) == c.text(s), "state of a node at depth " << level);
      CHECK(Int(Get("PlannerNode", "depth", x)) == static_cast<long>(level), "depth of a node");
      CHECK(!Str(Call("PlannerNode", "__repr__", {x})).empty(), "repr of a node");
      seen.insert(s);
      const List kids = Iterate(Call("PlannerNode", "__iter__", {x}), m.calls.size());
      size_t i = 0;
      for (size_t k = 0; k < m.calls.size(); k++) {
        if (!m.applicable(s, k)) continue;
        const Mask n = *m.next(s, k);
        if (seen.count(n)) continue;
        CHECK(i < kids.size(), "child " << m.calls[k].text << " of " << m.w.show(s) << " is missing");
        CHECK(Str(Get("PlannerNode", "action", kids[i])) == m.calls[k].text, "action of a child of " << m.w.show(s));
        const Any copy = Init("PlannerNode", {kids[i]});
        CHECK(StrSet(Get("PlannerNode", "state", copy)) == c.text(n), "state of a child");
        if (level == 0) walk(i % 2 == 0 ? copy : kids[i], n, level + 1, seen);
        i++;
      }
      CHECK(i == kids.size(), "too many children of " << m.w.show(s));
    };
    walk(node, root, 0, {});
    std::multiset<Names> want;
    {
      std::vector<Mask> path = {root};
      H::Plan plan;
      std::vector<H::Plan> plans;
      H::Plans(m, depth, &path, &plan, &plans);
      for (const auto& p : plans) want.insert(p.calls);
    }
    const Any bfs = given ? Init("BreadthFirstSearch", {node, Any(static_cast<long>(depth)), Any(false), Any(0.0)})
                          : Init("BreadthFirstSearch", {node, Any(static_cast<long>(depth))});
    for (int twice = 0; twice < 2; twice++) {
      const Any it = Call("BreadthFirstSearch", "__iter__", {bfs});
      std::multiset<Names> got;
      size_t last = 0;
      for (;;) {
        Any plan;
        try {
          plan = Call("BreadthFirstSearch", "__next__", {it});
        } catch (const pybind11::stop_iteration&) {
          for (int again = 0; again < 3; again++) {
            bool stopped = false;
            try {
              Call("BreadthFirstSearch", "__next__", {it});
            } catch (const pybind11::stop_iteration&) {
              stopped = true;
            }
            CHECK(stopped, "a search goes on after StopIteration");
          }
          break;
        }
        Names calls;
        for (const Any& x : Items(plan)) calls.push_back(Str(Get("PlannerNode", "action", x)));
        CHECK(!calls.empty(), "an empty path");
        calls.erase(calls.begin());
        CHECK(calls.size() >= last, "plans are not in the order of their lengths");
        last = calls.size();
        got.insert(calls);
        CHECK(got.size() <= want.size(), "more plans than there are: " << Join(calls));
      }
      CHECK(got == want, "BreadthFirstSearch finds " << got.size() << " plans instead of " << want.size());
    }
  }
}

// What a program holds keeps what it needs alive: here only the last handle of
// a chain is held.  (The sanitizer reports any use of what is gone.)
void Lifetimes(const Model& m, Mask root, const std::string& domain, const std::string& problem) {
  auto pddl = [&] { return Init("Pddl", {S(domain), S(problem)}); };
  Set want;
  for (size_t k = 0; k < m.calls.size(); k++) {
    if (!m.applicable(root, k)) continue;
    if (*m.next(root, k) != root) want.insert(m.calls[k].text);
  }
  auto children = [&](const Any& node, const char* what) {
    const Any it = Call("PlannerNode", "__iter__", {node});
    Set got;
    while (auto x = As<pybind11::Iterator>(it, "an iterator").next()) got.insert(Str(Get("PlannerNode", "action", *x)));
    CHECK(got == want, "children of the root, " << what);
  };
  if (m.reachable(root)) {
    const Any planner = Init("Planner", {pddl()});
    children(Get("Planner", "root", planner), "holding the planner");
    const Any node = Get("Planner", "root", Init("Planner", {pddl()}));
    children(node, "holding the root");
    const Any it = Call("PlannerNode", "__iter__", {Get("Planner", "root", Init("Planner", {pddl()}))});
    CHECK(Iterate(it, m.calls.size()).size() >= want.size(), "children of the root, holding the iterator");
    const Any search = Call("BreadthFirstSearch", "__iter__",
                            {Init("BreadthFirstSearch", {Get("Planner", "root", Init("Planner", {pddl()})), Any(1L)})});
    size_t n = 0, found = m.is_goal(root);
    for (size_t k = 0; !m.is_goal(root) && k < m.calls.size(); k++) {
      if (m.applicable(root, k) && *m.next(root, k) != root && m.is_goal(*m.next(root, k))) found++;
    }
    try {
      for (;; n++) Call("BreadthFirstSearch", "__next__", {search});
    } catch (const pybind11::stop_iteration&) {
    }
    CHECK(n == found, "plans of at most one action, holding the iterator: " << n << " instead of " << found);
  }
  const Any index = Get("Pddl", "state_index", pddl());
  CHECK(Int(Call("StateIndex", "__len__", {index})) == static_cast<long>(m.w.bits()), "holding the state index");
  for (long i = 0; i < static_cast<long>(m.w.bits()); i++) Call("StateIndex", "get_proposition", {index, Any(i)});
  for (const std::string cls : {"Action", "Predicate"}) {
    const std::string list = cls == "Action" ? "actions" : "predicates";
    const size_t n_members = Items(Get("Pddl", list, pddl())).size();
    for (size_t i = 0; i < n_members; i++) {
      // Only the member, only its generator, and only the iterator.
      auto member = [&] { return Items(Get("Pddl", list, pddl()))[i]; };
      const Any a = member();
      const std::string name = Str(Get(cls, "name", a));
      CHECK(Str(Call(cls, "__repr__", {a})).find(name) == 0, "holding " << name);
      const size_t n_params = Objects(Get(cls, "parameters", member())).size();
      const Any gen = Get(cls, "parameter_generator", member());
      const List tuples = Iterate(Call("ParameterGenerator", "__iter__", {gen}), 1000);
      CHECK(static_cast<long>(tuples.size()) == Int(Call("ParameterGenerator", "__len__", {gen})),
            "holding the generator of " << name);
      const Any it = Call("ParameterGenerator", "__iter__", {Get(cls, "parameter_generator", member())});
      const List again = Iterate(it, 1000);
      CHECK(again.size() == tuples.size(), "holding the iterator of the generator of " << name);
      for (size_t k = 0; k < tuples.size(); k++) {
        CHECK(Objects(again[k]) == Objects(tuples[k]) && Objects(again[k]).size() == n_params,
              "holding the iterator of the generator of " << name);
      }
    }
  }
  for (const Any& x : Items(Get("Pddl", "objects", pddl()))) {
    Get("ObjectType", "name", Get("Object", "type", x));
  }
}

// A normal form read from Python.
bool Truth(const Ctx& c, const Any& f, Mask s) {
  if (f.type() == typeid(std::monostate)) return false;
  const List conj = Items(Get("DisjunctiveFormula", "conjunctions", f));
  if (conj.empty()) return true;
  for (const Any& x : conj) {
    bool ok = true;
    for (int sign = 0; sign < 2; sign++) {
      const Any lits = Get("PartialState", sign ? "neg" : "pos", x);
      for (const std::string& p : StrSet(lits)) {
        auto it = c.m.w.bit_of.find(p);
        if (it == c.m.w.bit_of.end()) return false;  // equality or type: not judged here (C14)
        ok &= (s >> it->second & 1) != static_cast<Mask>(sign);
      }
    }
    if (ok) return true;
  }
  return false;
}
bool Readable(const Ctx& c, const Any& f) {
  if (f.type() == typeid(std::monostate)) return true;
  CHECK(!Str(Call("DisjunctiveFormula", "__repr__", {f})).empty(), "repr of a normal form");
  const List conj = Items(Get("DisjunctiveFormula", "conjunctions", f));
  for (const Any& x : conj) {
    CHECK(Call("PartialState", "__repr__", {x}).has_value(), "repr of a partial state");
    for (const char* side : {"pos", "neg"}) {
      const Any lits = Get("PartialState", side, x);
      for (const std::string& p : StrSet(lits)) {
        if (!c.m.w.bit_of.count(p)) return false;
      }
    }
  }
  return true;
}
void Normal(const Ctx& c) {
  const Model& m = c.m;
  const auto masks = ref::StateMasks(m.w, 6);
  auto compare = [&](const Any& f, const std::string& what, auto truth) {
    if (!Readable(c, f)) return;
    for (Mask s : masks) {
      CHECK(Truth(c, f, s) == truth(s), what << " in " << m.w.show(s));
      R.transitions++;
    }
  };
  compare(Static("DisjunctiveFormula", "normalize_goal", {c.pddl}), "normalize_goal", [&](Mask s) { return m.is_goal(s); });
  for (size_t k = 0; k < m.calls.size(); k++) {
    const Any call = S(m.calls[k].text);
    auto pre = [&](Mask s) { return m.applicable(s, k); };
    const Any a = Static("DisjunctiveFormula", "normalize_preconditions", {c.pddl, call});
    compare(a, "normalize_preconditions of " + m.calls[k].text, pre);
    Any b;
    bool rejected = false;
    try {
      b = Static("DisjunctiveFormula", "normalize_postconditions", {c.pddl, call});
    } catch (const Failure&) {
      throw;
    } catch (const pybind11::type_error&) {
      throw;
    } catch (const std::exception&) {
      rejected = true;
    }
    if (rejected) continue;
    const Any both = Static("DisjunctiveFormula", "normalize_conditions", {c.pddl, call, Any(false)});
    if (both.type() == typeid(std::monostate)) {
      CHECK(a.type() == typeid(std::monostate) || b.type() == typeid(std::monostate), "normalize_conditions of "
                                                                                         << m.calls[k].text);
      continue;
    }
    compare(Items(both)[0], "normalize_conditions of " + m.calls[k].text, pre);
    if (Readable(c, b) && Readable(c, Items(both)[1])) {
      for (Mask s : masks) CHECK(Truth(c, b, s) == Truth(c, Items(both)[1], s), "normalize_conditions");
    }
  }
}

void Everything(const Ctx& c, const ref::Dom& d, Mask root, const std::string& domain, const std::string& problem) {
  CHECK(StrSet(c.get("initial_state")) == c.text(root), "initial_state");
  Members(c, d, domain, problem);
  Index(c);
  Queries(c, d);
  Planning(c, root, 2);
  Normal(c);
}

std::string Source(const ref::Dom& d, const std::string& name) { return DomainFile(ref::domain_text(d), name); }

void One(const Menu& menu, const std::vector<size_t>& which, size_t init, size_t goal) {
  const ref::Dom d = menu.with(which, init, goal);
  const Model model(d);
  const auto root = model.settle(model.init);
  if (!model.usable || !root) {
    R.extra["excluded"]++;
    return;
  }
  try {
    const std::string domain = Source(d, "py.pddl"), problem = ref::problem_text(d);
    Ctx c{model, Init("Pddl", {S(domain), S(problem)})};
    Everything(c, d, *root, domain, problem);
    Lifetimes(model, *root, domain, problem);
    // Pickling, and using the copy after the original is gone.
    {
      const Any state = Cls("Pddl").getstate.at(0).call({c.pddl});
      if (goal % 2 == 0) c.pddl.reset();
      const Ctx copy{model, pybind11::Resolve(Cls("Pddl").setstate, {state}, "Pddl.__setstate__")};
      Everything(copy, d, *root, domain, problem);
      c.pddl = copy.pddl;
    }
    // The initial state as written, and a domain without a problem.
    {
      const Set raw = Ctx{model, {}}.text(model.rules.close(model.init));
      Names constants;
      for (const auto& k : d.consts) constants.push_back(k.first);
      for (const bool whole : {true, false}) {
        Any x = whole ? Init("Pddl", {S(domain), S(problem), Any(false)}) : Init("Pddl", {S(domain)});
        for (int copies = 0; copies < 3; copies++) {
          const std::string what = std::string(whole ? "without axioms" : "without a problem") +
                                   (copies > 0 ? ", pickled" : "");
          const Set init = StrSet(Get("Pddl", "initial_state", x));
          if (whole) CHECK(init == raw, "initial_state " << what);
          CHECK(Str(Get("Pddl", "domain_pddl", x)) == domain, "domain_pddl " << what);
          CHECK(Str(Get("Pddl", "problem_pddl", x)) == (whole ? problem : ""), "problem_pddl " << what);
          if (!whole) {
            CHECK(Sorted(Objects(Get("Pddl", "objects", x))) == Sorted(constants), "objects " << what);
            if (d.ders.empty()) CHECK(init.empty(), "initial_state " << what);
          }
          CHECK(Items(Get("Pddl", "actions", x)).size() == d.actions.size(), "actions " << what);
          const Any state = Cls("Pddl").getstate.at(0).call({x});
          x = pybind11::Resolve(Cls("Pddl").setstate, {state}, "Pddl.__setstate__");
          R.transitions++;
        }
      }
    }
    // Another initial state.
    const auto settled = Settled(model, 4);
    for (Mask s : settled) {
      Cls("Pddl").setters.at("initial_state").call({c.pddl, c.state(s)});
      CHECK(StrSet(c.get("initial_state")) == c.text(s), "initial_state after setting it");
      Planning(c, s, 2);
    }
    Cls("Pddl").setters.at("initial_state").call({c.pddl, c.state(*root)});
    // One object more, and not.
    if (!d.types.empty()) {
      for (const auto& t : d.types) {
        ref::Dom more = d;
        more.objs.emplace_back("extra", t.first);
        const Model bigger(more);
        if (bigger.w.bits() > 20) continue;
        c.call("add_object", {S("extra"), S(t.first)});
        const Ctx b{bigger, c.pddl};
        Members(b, more, domain, problem);
        Index(b);
        const auto calls = Sorted(Strs(b.call("list_valid_actions", {b.state(bigger.w.full())})));
        Names want;
        for (size_t k = 0; k < bigger.calls.size(); k++) {
          if (bigger.applicable(bigger.w.full(), k)) want.push_back(bigger.calls[k].text);
        }
        CHECK(calls == Sorted(want), "list_valid_actions after adding an object of type " << t.first);
        c.call("remove_object", {S("extra")});
        Members(c, d, domain, problem);
        Index(c);
      }
    }
  } catch (const Failure& e) {
    throw Failure(e.key, e.what() + std::string("\n") + ref::domain_text(d) + ref::problem_text(d));
  }
  R.traces++;
}

}  // namespace

void H::Main() {
  R.case_cpu_s = 300;
  const bool t = R.thorough;
  static const std::vector<Menu> menus = [] {
    std::vector<Menu> all = ref::Menus();
    Menu m;  // what is false forces what is true
    m.name = "defaults";
    m.d.name = "defaults";
    m.d.types = {{"t", ""}, {"u", "t"}};
    m.d.consts = {{"a", "u"}};
    m.d.objs = {{"b", "t"}};
    m.d.preds = {{"p", {{"x", "t"}}}, {"q", {{"x", "t"}}}, {"r", {{"x", "u"}, {"y", "t"}, {"z", "u"}}}};
    ref::Op ax;
    ax.name = "axiom";
    ax.params = {{"x", "t"}};
    ax.pre = ref::Not(ref::A("p", {"?x"}));
    ax.eff = ref::Add("q", {"?x"});
    m.d.axioms.push_back(ax);
    ax.params = {{"y", "t"}, {"x", "u"}};
    ax.pre = ref::A("q", {"?y"});
    ax.eff = ref::Del("r", {"?x", "?y", "?x"});
    m.d.axioms.push_back(ax);
    m.add({{"x", "t"}}, ref::Not(ref::A("p", {"?x"})), ref::Lst({ref::Add("p", {"?x"}), ref::Del("q", {"?x"})}));
    m.add({{"x", "t"}}, ref::A("p", {"?x"}), ref::Del("p", {"?x"}));
    m.add({{"x", "u"}, {"y", "t"}, {"z", "u"}}, ref::Not(ref::A("q", {"?y"})), ref::Add("r", {"?x", "?y", "?z"}));
    m.add({{"y", "t"}}, ref::Ex({{"x", "u"}}, ref::A("r", {"?x", "?y", "?x"})), ref::Add("q", {"?y"}));
    m.goals = {ref::And({ref::A("p", {"b"}), ref::Not(ref::A("q", {"b"}))}), ref::A("r", {"a", "b", "a"}),
               ref::And({ref::A("q", {"a"}), ref::A("p", {"a"})})};
    m.inits = {{}, {{"p", {"a"}}, {"p", {"b"}}, {"r", {"a", "b", "a"}}}};
    all.push_back(m);
    return all;
  }();
  for (const Menu& m : menus) {
    const size_t n = m.actions.size();
    for (size_t init = 0; init < m.inits.size(); init++) {
      for (size_t i = 0; i < n; i++) {
        R.kase([&] { return m.name + ": action " + std::to_string(i) + " init " + std::to_string(init); },
               [&] {
                 for (size_t goal = 0; goal < m.goals.size(); goal++) {
                   if (i == 0) One(m, {}, init, goal);
                   if (t || (i + goal) % 5 == 0) One(m, {i}, init, goal);
                   for (size_t j = 0; j < n; j++) {
                     if (t || (i + 3 * j + goal) % 23 == 0) One(m, {i, j}, init, goal);
                     if (t || (i + 5 * j + goal) % 83 == 0) One(m, {i, j, (i + 2 * j + 1) % n}, init, goal);
                   }
                 }
               });
      }
    }
  }
}
