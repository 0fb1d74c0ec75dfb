// Queries on a loaded problem, answered as text, so that the answers of two
// libraries (or of one library at two moments) can be compared.
#ifndef VERIF_PROBE_H_
#define VERIF_PROBE_H_

#include "bridge.h"
#include "symbolic/normal_form.h"
#include "symbolic/planning/a_star.h"
#include "symbolic/planning/breadth_first_search.h"
#include "symbolic/planning/depth_first_search.h"
#include "symbolic/planning/planner.h"

namespace H {

using Texts = std::set<std::string>;  // a state, written out

inline std::string ShowArgs(const std::vector<Object>& v) {
  std::string o = "(";
  for (const Object& x : v) o += (o.size() > 1 ? ", " : "") + x.name();
  return o + ")";
}
inline std::string ShowTyped(const std::vector<Object>& v) {
  std::string o = "(";
  for (const Object& x : v) o += (o.size() > 1 ? ", " : "") + x.name() + " - " + x.type().name();
  return o + ")";
}
inline std::string ShowParams(const ParameterGenerator& g) {
  std::string o;
  size_t n = 0;
  for (const std::vector<Object>& a : g) {
    o += ShowArgs(a);
    if (++n > 10000) throw std::runtime_error("endless generator");
  }
  return o + " size " + std::to_string(g.size());
}
inline std::string ShowOpt(const std::optional<bool>& b) { return b ? (*b ? "true" : "false") : "unknown"; }
inline std::string ShowPartial(const PartialState& s) { return Bridge::Show(s.pos()) + " not " + Bridge::Show(s.neg()); }
inline std::string ShowDnf(const std::optional<symbolic::DisjunctiveFormula>& d) {
  if (!d) return "none";
  std::set<std::string> c;
  for (const auto& x : d->conjunctions) c.insert(ShowPartial(x));
  std::string o;
  for (const auto& x : c) o += "[" + x + "]";
  return o;
}

inline State ParseTexts(const Pddl& p, const Texts& t) {
  return State(p, std::unordered_set<std::string>(t.begin(), t.end()));
}

struct Query {
  std::string name;
  std::function<std::string(const Pddl&)> run;
  std::string operator()(const Pddl& p) const {
    try {
      return run(p);
    } catch (const Failure&) {
      throw;
    } catch (const std::exception&) {
      return "error";
    }
  }
};

inline const Action& FindAction(const Pddl& p, const std::string& name) {
  for (const Action& a : p.actions()) {
    if (a.name() == name) return a;
  }
  throw std::runtime_error("no action " + name);
}

// Queries about the problem as a whole.
inline std::vector<Query> GlobalQueries(const ref::Dom& d, size_t search_depth) {
  std::vector<Query> q;
  q.push_back({"objects", [](const Pddl& p) { return ShowTyped(p.objects()); }});
  q.push_back({"constants", [](const Pddl& p) { return ShowTyped(p.constants()); }});
  q.push_back({"types", [](const Pddl& p) {
                 std::map<std::string, std::string> m;
                 for (const auto& kv : p.object_map()) m[kv.first] = ShowTyped(kv.second);
                 std::string o;
                 for (const auto& kv : m) {
                   // A type without objects may be listed or not.
                   if (kv.second != "()") o += kv.first + kv.second + " ";
                 }
                 return o;
               }});
  q.push_back({"members", [](const Pddl& p) {
                 std::string o;
                 for (const auto& a : p.actions()) o += a.name() + ShowTyped(a.parameters()) + a.preconditions().to_string() + " ";
                 for (const auto& a : p.predicates()) o += a.name() + ShowTyped(a.parameters()) + " ";
                 for (const auto& a : p.derived_predicates()) o += a.name() + ShowTyped(a.parameters()) + " ";
                 for (const auto& a : p.axioms()) o += a->context().sign() + a->context().to_string() + " ";
                 return o + p.name() + " " + p.goal().to_string();
               }});
  q.push_back({"parameters", [](const Pddl& p) {
                 std::string o;
                 for (const auto& a : p.actions()) o += a.name() + ShowParams(a.parameter_generator()) + " ";
                 for (const auto& a : p.predicates()) o += a.name() + ShowParams(a.parameter_generator()) + " ";
                 for (const auto& a : p.derived_predicates()) o += a.name() + ShowParams(a.parameter_generator()) + " ";
                 return o;
               }});
  q.push_back({"index", [](const Pddl& p) {
                 const StateIndex& x = p.state_index();
                 std::string o;
                 size_t n = 0;
                 for (const Proposition& prop : x) {
                   o += prop.to_string() + " ";
                   if (x.GetPropositionIndex(prop) != n || x.GetProposition(n) != prop) o += "!";
                   n++;
                 }
                 return o + std::to_string(x.size());
               }});
  q.push_back({"initial state", [](const Pddl& p) { return Bridge::Show(p.initial_state()); }});
  q.push_back({"goal normal form", [](const Pddl& p) {
                 return ShowDnf(symbolic::DisjunctiveFormula::NormalizeGoal(p));
               }});
  q.push_back({"names", [d](const Pddl& p) {
                 std::string o;
                 for (const char* n : {"k", "a", "b", "c", "n", "m", "o", "new", "hook", "box", "table", "zz"}) {
                   o += n;
                   o += Throws([&] { Object x(p, n); }) ? "- " : "+ ";
                 }
                 return o;
               }});
  auto plans = [](auto& search) {
    std::string o;
    size_t n = 0;
    for (const auto& path : search) {
      for (const auto& node : path) o += node.action() + ";";
      o += " | ";
      if (++n > 3000) throw std::runtime_error("endless search");
    }
    return o;
  };
  q.push_back({"breadth-first plans", [=](const Pddl& p) {
                 const symbolic::Planner pl(p);
                 symbolic::BreadthFirstSearch<symbolic::Planner::Node> s(pl.root(), search_depth);
                 return plans(s);
               }});
  q.push_back({"depth-first plans", [=](const Pddl& p) {
                 const symbolic::Planner pl(p);
                 symbolic::DepthFirstSearch<symbolic::Planner::Node> s(pl.root(), search_depth);
                 return plans(s);
               }});
  return q;
}

// Queries about one complete state.
inline std::vector<Query> StateQueries(const Texts& t) {
  std::vector<Query> q;
  std::string at = " in {";
  for (const auto& x : t) at += (at.size() > 5 ? ", " : "") + x;
  at += "}";
  auto add = [&](const std::string& n, std::function<std::string(const Pddl&, const State&)> f) {
    q.push_back({n + at, [t, f](const Pddl& p) {
                   const State s = ParseTexts(p, t);
                   const State before = s;
                   const std::string o = f(p, s);
                   if (s != before) FAIL("the state passed to a query changed");
                   return o;
                 }});
  };
  add("valid actions", [](const Pddl& p, const State& s) {
    std::string o;
    for (const auto& x : p.ListValidActions(s)) o += x + " ";
    return o;
  });
  add("goal", [](const Pddl& p, const State& s) { return std::to_string(p.IsGoalSatisfied(s)); });
  add("validity", [](const Pddl& p, const State& s) { return std::to_string(p.IsValidState(s)); });
  add("closure", [](const Pddl& p, const State& s) { return Bridge::Show(p.ConsistentState(s)); });
  add("derived", [](const Pddl& p, const State& s) { return Bridge::Show(p.DerivedState(s)); });
  add("vector", [](const Pddl& p, const State& s) {
    const auto v = p.state_index().GetIndexedState(s);
    std::string o;
    for (Eigen::Index i = 0; i < v.size(); i++) o += v[i] ? '1' : '0';
    if (p.state_index().GetState(v) != s) o += "!";
    return o;
  });
  add("successors", [](const Pddl& p, const State& s) {
    std::string o;
    for (const Action& a : p.actions()) {
      const ParameterGenerator g = a.parameter_generator();
      for (const std::vector<Object>& args : g) {
        const std::string call = a.to_string(args);
        o += call + (p.IsValidAction(s, call) ? "+" : "-");
        try {
          const State n = p.NextState(s, call);
          o += Bridge::Show(n) + (p.IsValidTuple(s, call, n) ? "t" : "f") + " ";
        } catch (const std::exception&) {
          o += "error ";
        }
      }
    }
    return o;
  });
  add("arguments", [](const Pddl& p, const State& s) {
    std::string o;
    for (const Action& a : p.actions()) {
      o += a.name() + ":";
      for (const auto& x : p.ListValidArguments(s, a)) o += ShowArgs(x);
    }
    return o;
  });
  add("text forms", [t](const Pddl& p, const State& s) {
    std::string o = std::to_string(p.IsGoalSatisfied(t));
    for (const auto& x : p.ListValidActions(t)) o += x;
    return o + std::to_string(symbolic::Stringify(s) == t);
  });
  add("children", [](const Pddl& p, const State& s) {
    const symbolic::Planner pl(p, s);
    std::string o;
    for (const auto& c : pl.root()) o += c.action() + Bridge::Show(c.state());
    return o;
  });
  return q;
}

// Queries about one partial state.
inline std::vector<Query> PartialQueries(const Texts& pos, const Texts& neg) {
  std::vector<Query> q;
  std::string at = " in {";
  for (const auto& x : pos) at += x + " ";
  at += "} not {";
  for (const auto& x : neg) at += x + " ";
  at += "}";
  auto add = [&](const std::string& n, std::function<std::string(const Pddl&, const PartialState&)> f) {
    q.push_back({n + at, [pos, neg, f](const Pddl& p) {
                   const PartialState s(ParseTexts(p, pos), ParseTexts(p, neg));
                   const PartialState before = s;
                   const std::string o = f(p, s);
                   if (s != before) FAIL("the partial state passed to a query changed");
                   return o;
                 }});
  };
  add("partial goal", [](const Pddl& p, const PartialState& s) { return ShowOpt(p.goal()(s)); });
  add("partial closure", [](const Pddl& p, const PartialState& s) { return ShowPartial(p.ConsistentState(s)); });
  add("partial validity", [](const Pddl& p, const PartialState& s) { return std::to_string(p.IsValidState(s)); });
  add("partial actions", [](const Pddl& p, const PartialState& s) {
    std::string o;
    for (const Action& a : p.actions()) {
      for (const std::vector<Object>& args : a.parameter_generator()) {
        o += a.to_string(args) + ShowOpt(a.IsValid(s, args));
        try {
          PartialState n = s;
          const int st = a.Apply(args, &n);
          o += std::to_string(st) + ShowPartial(n) + " ";
        } catch (const std::exception&) {
          o += "error ";
        }
      }
    }
    return o;
  });
  return q;
}

// Normal forms of the conditions of calls.
inline std::vector<Query> NormalQueries(const std::vector<std::string>& calls) {
  std::vector<Query> q;
  for (const auto& c : calls) {
    q.push_back({"precondition of " + c, [c](const Pddl& p) {
                   return ShowDnf(symbolic::DisjunctiveFormula::NormalizePreconditions(p, c));
                 }});
    q.push_back({"postcondition of " + c, [c](const Pddl& p) {
                   return ShowDnf(symbolic::DisjunctiveFormula::NormalizePostconditions(p, c));
                 }});
  }
  return q;
}

}  // namespace H

#endif  // VERIF_PROBE_H_
