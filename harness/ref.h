// Independent reference model: a small PDDL syntax tree, its text, and its
// semantics over bit masks of ground propositions.  Nothing here uses /repo.
#ifndef VERIF_REF_H_
#define VERIF_REF_H_

#include <algorithm>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace ref {

using Str = std::string;
using Var = std::pair<Str, Str>;  // name, type ("" = no type written)
using Vars = std::vector<Var>;
using Mask = uint64_t;

struct F {
  enum K { ATOM, AND, OR, NOT, ALL, EX } k = AND;
  Str pred;
  std::vector<Str> args;  // "?x" or an object name
  std::vector<F> kids;
  Vars vars;
  Str raw;  // text to print instead of this formula
};
inline F A(Str p, std::vector<Str> a = {}) {
  F f;
  f.k = F::ATOM;
  f.pred = std::move(p);
  f.args = std::move(a);
  return f;
}
inline F And(std::vector<F> k = {}) {
  F f;
  f.k = F::AND;
  f.kids = std::move(k);
  return f;
}
inline F Or(std::vector<F> k = {}) {
  F f;
  f.k = F::OR;
  f.kids = std::move(k);
  return f;
}
inline F Not(F x) {
  F f;
  f.k = F::NOT;
  f.kids.push_back(std::move(x));
  return f;
}
inline F All(Vars v, F x) {
  F f;
  f.k = F::ALL;
  f.vars = std::move(v);
  f.kids.push_back(std::move(x));
  return f;
}
inline F Ex(Vars v, F x) {
  F f;
  f.k = F::EX;
  f.vars = std::move(v);
  f.kids.push_back(std::move(x));
  return f;
}

struct E {
  enum K { ADD, DEL, LIST, ALL, WHEN } k = LIST;
  Str pred;
  std::vector<Str> args;
  std::vector<E> kids;
  Vars vars;
  F cond;
};
inline E Add(Str p, std::vector<Str> a = {}) {
  E e;
  e.k = E::ADD;
  e.pred = std::move(p);
  e.args = std::move(a);
  return e;
}
inline E Del(Str p, std::vector<Str> a = {}) {
  E e = Add(std::move(p), std::move(a));
  e.k = E::DEL;
  return e;
}
inline E Lst(std::vector<E> k = {}) {
  E e;
  e.kids = std::move(k);
  return e;
}
inline E EAll(Vars v, E x) {
  E e;
  e.k = E::ALL;
  e.vars = std::move(v);
  e.kids.push_back(std::move(x));
  return e;
}
inline E When(F c, E x) {
  E e;
  e.k = E::WHEN;
  e.cond = std::move(c);
  e.kids.push_back(std::move(x));
  return e;
}

struct Op {
  Str name;
  Vars params;
  F pre;
  E eff;
};
struct Der {
  Str pred;
  Vars params;
  F body;
};
struct Pred {
  Str name;
  Vars params;
};

struct Dom {
  Str name = "dom";
  bool types_section = true;
  Vars types;  // name, parent ("" = none written)
  Vars consts, objs;
  std::vector<Pred> preds;
  std::vector<Op> actions, axioms;
  std::vector<Der> ders;
  std::vector<std::pair<Str, std::vector<Str>>> init;
  F goal;
};

// ---------------------------------------------------------------- text
inline void put_vars(std::ostream& o, const Vars& v, bool q) {
  // In "a b - t" the type covers both names, so a name without a type can be
  // written bare only at the end of the list.
  size_t last_typed = 0;
  for (size_t i = 0; i < v.size(); i++) {
    if (!v[i].second.empty()) last_typed = i + 1;
  }
  for (size_t i = 0; i < v.size(); i++) {
    o << (i == 0 ? "" : " ") << (q ? "?" : "") << v[i].first;
    if (!v[i].second.empty()) {
      o << " - " << v[i].second;
    } else if (i < last_typed) {
      o << " - object";
    }
  }
}
inline void put_atom(std::ostream& o, const Str& p,
                     const std::vector<Str>& a) {
  o << "(" << p;
  for (const Str& x : a) o << " " << x;
  o << ")";
}
inline void put(std::ostream& o, const F& f) {
  if (!f.raw.empty()) {
    o << f.raw;
    return;
  }
  switch (f.k) {
    case F::ATOM:
      put_atom(o, f.pred, f.args);
      return;
    case F::AND:
    case F::OR:
      o << (f.k == F::AND ? "(and" : "(or");
      for (const F& x : f.kids) {
        o << " ";
        put(o, x);
      }
      o << ")";
      return;
    case F::NOT:
      o << "(not ";
      put(o, f.kids[0]);
      o << ")";
      return;
    case F::ALL:
    case F::EX:
      o << (f.k == F::ALL ? "(forall (" : "(exists (");
      put_vars(o, f.vars, true);
      o << ") ";
      put(o, f.kids[0]);
      o << ")";
      return;
  }
}
inline void put(std::ostream& o, const E& e) {
  switch (e.k) {
    case E::ADD:
      put_atom(o, e.pred, e.args);
      return;
    case E::DEL:
      o << "(not ";
      put_atom(o, e.pred, e.args);
      o << ")";
      return;
    case E::LIST:
      o << "(and";
      for (const E& x : e.kids) {
        o << " ";
        put(o, x);
      }
      o << ")";
      return;
    case E::ALL:
      o << "(forall (";
      put_vars(o, e.vars, true);
      o << ") ";
      put(o, e.kids[0]);
      o << ")";
      return;
    case E::WHEN:
      o << "(when ";
      put(o, e.cond);
      o << " ";
      put(o, e.kids[0]);
      o << ")";
      return;
  }
}
inline Str text(const F& f) {
  std::ostringstream o;
  put(o, f);
  return o.str();
}
inline Str text(const E& e) {
  std::ostringstream o;
  put(o, e);
  return o.str();
}
inline Str text(const Op& a, bool axiom = false) {
  std::ostringstream o;
  if (axiom) {
    o << "(:axiom :vars (";
    put_vars(o, a.params, true);
    o << ") :context ";
    put(o, a.pre);
    o << " :implies ";
  } else {
    o << "(:action " << a.name << " :parameters (";
    put_vars(o, a.params, true);
    o << ") :precondition ";
    put(o, a.pre);
    o << " :effect ";
  }
  put(o, a.eff);
  o << ")";
  return o.str();
}
inline Str text(const Der& r) {
  std::ostringstream o;
  o << "(:derived (" << r.pred;
  if (!r.params.empty()) o << " ";
  put_vars(o, r.params, true);
  o << ") ";
  put(o, r.body);
  o << ")";
  return o.str();
}
inline Str domain_text(const Dom& d) {
  std::ostringstream o;
  o << "(define (domain " << d.name << ")\n (:requirements :adl)\n";
  if (d.types_section) {
    o << " (:types ";
    put_vars(o, d.types, false);
    o << ")\n";
  }
  if (!d.consts.empty()) {
    o << " (:constants ";
    put_vars(o, d.consts, false);
    o << ")\n";
  }
  o << " (:predicates";
  for (const Pred& p : d.preds) {
    o << " (" << p.name;
    if (!p.params.empty()) o << " ";
    put_vars(o, p.params, true);
    o << ")";
  }
  o << ")\n";
  for (const Op& a : d.axioms) o << " " << text(a, true) << "\n";
  for (const Der& r : d.ders) o << " " << text(r) << "\n";
  for (const Op& a : d.actions) o << " " << text(a) << "\n";
  o << ")\n";
  return o.str();
}
inline Str problem_text(const Dom& d) {
  std::ostringstream o;
  o << "(define (problem prob)\n (:domain " << d.name << ")\n (:objects ";
  put_vars(o, d.objs, false);
  o << ")\n (:init";
  for (const auto& p : d.init) {
    o << " ";
    put_atom(o, p.first, p.second);
  }
  o << ")\n (:goal ";
  put(o, d.goal);
  o << "))";
  return o.str();
}

// ----------------------------------------------------------- semantics
inline Str ground_name(const Str& p, const std::vector<Str>& a) {
  Str s = p + "(";
  for (size_t i = 0; i < a.size(); i++) s += (i ? ", " : "") + a[i];
  return s + ")";
}

// Compiled formula over variable slots.
struct CF {
  F::K k = F::AND;
  enum P { PRED, EQ, TYPE } pk = PRED;
  int pred = -1;
  std::vector<int> args;  // >=0: slot; <0: object -1-x
  std::vector<CF> kids;
  std::vector<std::vector<int>> ranges;  // objects per quantified variable
  int base = 0;                          // first slot of the quantified vars
  std::vector<char> member;              // TYPE: object -> bool
};
struct CE {
  E::K k = E::LIST;
  CF::P pk = CF::PRED;
  int pred = -1;
  std::vector<int> args;
  std::vector<CE> kids;
  std::vector<std::vector<int>> ranges;
  int base = 0;
  CF cond;
  std::vector<char> member;
};
struct COp {
  Str name;
  std::vector<std::vector<int>> ranges;
  CF pre;
  CE eff;
};

struct World {
  const Dom& d;
  std::map<Str, Str> parent;      // declared type -> parent type
  std::vector<Str> obj;           // constants, then objects
  std::vector<Str> obj_type;      // effective type name
  std::map<Str, int> obj_id;
  std::map<Str, int> pred_id;
  std::vector<std::vector<int>> table;  // pred -> tuple code -> bit or -1
  struct Ground {
    int pred;
    std::vector<int> args;
  };
  std::vector<Ground> ground;  // bit -> atom
  std::vector<Str> names;      // bit -> "p(a, b)"
  std::map<Str, int> bit_of;
  mutable bool touched_ill_typed = false;  // eval met an atom outside the universe

  static Str tn(const Str& t) { return t.empty() ? Str("object") : t; }

  // `constants_only`: the world of a domain loaded without a problem.
  explicit World(const Dom& dom, bool constants_only = false) : d(dom) {
    for (const Var& t : d.types) parent[t.first] = t.second;
    auto add = [&](const Vars& v) {
      for (const Var& o : v) {
        obj_id[o.first] = static_cast<int>(obj.size());
        obj.push_back(o.first);
        obj_type.push_back(tn(o.second));
      }
    };
    add(d.consts);
    if (!constants_only) add(d.objs);
    for (size_t p = 0; p < d.preds.size(); p++) {
      pred_id[d.preds[p].name] = static_cast<int>(p);
      const Vars& ps = d.preds[p].params;
      size_t n = 1;
      for (size_t i = 0; i < ps.size(); i++) n *= obj.size();
      table.emplace_back(n, -1);
      std::vector<std::vector<int>> r;
      for (const Var& v : ps) r.push_back(objects(v.second));
      product(r, [&](const std::vector<int>& t) {
        const int bit = static_cast<int>(ground.size());
        table[p][code(t)] = bit;
        ground.push_back({static_cast<int>(p), t});
        names.push_back(name(static_cast<int>(p), t));
        bit_of[names.back()] = bit;
      });
    }
  }

  size_t bits() const { return ground.size(); }
  Mask full() const {
    return bits() >= 64 ? ~Mask(0) : (Mask(1) << bits()) - 1;
  }

  // ancestors including itself and "object"
  std::vector<Str> ancestors(const Str& t) const {
    std::vector<Str> a;
    Str c = tn(t);
    for (size_t guard = 0; guard < 100; guard++) {
      a.push_back(c);
      auto it = parent.find(c);
      if (it == parent.end() || it->second.empty()) break;
      c = it->second;
    }
    if (a.back() != "object") a.push_back("object");
    return a;
  }
  bool subtype(const Str& t, const Str& super) const {
    const auto a = ancestors(t);
    return std::find(a.begin(), a.end(), tn(super)) != a.end();
  }
  bool is_type(const Str& t) const {
    if (t == "object") return true;
    for (const Var& v : d.types) {
      if (v.first == t || v.second == t) return true;
    }
    return false;
  }
  std::vector<int> objects(const Str& t) const {
    std::vector<int> r;
    for (size_t i = 0; i < obj.size(); i++) {
      if (subtype(obj_type[i], t)) r.push_back(static_cast<int>(i));
    }
    return r;
  }
  std::vector<std::vector<int>> ranges(const Vars& v) const {
    std::vector<std::vector<int>> r;
    for (const Var& x : v) r.push_back(objects(x.second));
    return r;
  }
  template <typename Fn>
  static void product(const std::vector<std::vector<int>>& r, Fn fn) {
    for (const auto& x : r) {
      if (x.empty()) return;
    }
    std::vector<size_t> c(r.size(), 0);
    std::vector<int> t(r.size());
    for (;;) {
      for (size_t i = 0; i < r.size(); i++) t[i] = r[i][c[i]];
      fn(t);
      size_t i = r.size();
      for (;;) {
        if (i == 0) return;
        i--;
        if (++c[i] < r[i].size()) break;
        c[i] = 0;
      }
    }
  }
  std::vector<std::vector<int>> tuples(
      const std::vector<std::vector<int>>& r) const {
    std::vector<std::vector<int>> out;
    product(r, [&](const std::vector<int>& t) { out.push_back(t); });
    return out;
  }
  size_t code(const std::vector<int>& t) const {
    size_t c = 0;
    for (int x : t) c = c * obj.size() + static_cast<size_t>(x);
    return c;
  }
  int bit(int pred, const std::vector<int>& t) const {
    return table[static_cast<size_t>(pred)][code(t)];
  }
  Str name(int pred, const std::vector<int>& t) const {
    std::vector<Str> a;
    for (int x : t) a.push_back(obj[static_cast<size_t>(x)]);
    return ground_name(d.preds[static_cast<size_t>(pred)].name, a);
  }
  Str call(const Str& op, const std::vector<int>& t) const {
    std::vector<Str> a;
    for (int x : t) a.push_back(obj[static_cast<size_t>(x)]);
    return ground_name(op, a);
  }
  Str show(Mask m) const {
    Str s = "{";
    for (size_t i = 0; i < bits(); i++) {
      if (m >> i & 1) s += (s.size() > 1 ? ", " : "") + names[i];
    }
    return s + "}";
  }

  // ---- compilation
  struct Scope {
    std::vector<Str> vars;  // slot -> name
    int find(const Str& v) const {
      for (size_t i = vars.size(); i-- > 0;) {
        if (vars[i] == v) return static_cast<int>(i);
      }
      throw std::logic_error("ref: unbound ?" + v);
    }
  };
  std::vector<int> terms(const std::vector<Str>& a, const Scope& s) const {
    std::vector<int> r;
    for (const Str& x : a) {
      r.push_back(x[0] == '?' ? s.find(x.substr(1)) : -1 - obj_id.at(x));
    }
    return r;
  }
  template <typename C>
  void head(const Str& p, C* c) const {
    auto it = pred_id.find(p);
    if (p == "=") {
      c->pk = CF::EQ;
    } else if (it != pred_id.end()) {
      c->pred = it->second;
    } else if (is_type(p)) {
      c->pk = CF::TYPE;
      for (size_t i = 0; i < obj.size(); i++) {
        c->member.push_back(subtype(obj_type[i], p));
      }
    } else {
      throw std::logic_error("ref: unknown predicate " + p);
    }
  }
  CF compile(const F& f, Scope s) const {
    CF c;
    c.k = f.k;
    if (f.k == F::ATOM) {
      head(f.pred, &c);
      c.args = terms(f.args, s);
    } else if (f.k == F::ALL || f.k == F::EX) {
      c.base = static_cast<int>(s.vars.size());
      c.ranges = ranges(f.vars);
      for (const Var& v : f.vars) s.vars.push_back(v.first);
      c.kids.push_back(compile(f.kids[0], s));
    } else {
      for (const F& x : f.kids) c.kids.push_back(compile(x, s));
    }
    return c;
  }
  CE compile(const E& e, Scope s) const {
    CE c;
    c.k = e.k;
    if (e.k == E::ADD || e.k == E::DEL) {
      head(e.pred, &c);
      c.args = terms(e.args, s);
    } else if (e.k == E::ALL) {
      c.base = static_cast<int>(s.vars.size());
      c.ranges = ranges(e.vars);
      for (const Var& v : e.vars) s.vars.push_back(v.first);
      c.kids.push_back(compile(e.kids[0], s));
    } else {
      if (e.k == E::WHEN) c.cond = compile(e.cond, s);
      for (const E& x : e.kids) c.kids.push_back(compile(x, s));
    }
    return c;
  }
  COp compile(const Op& o) const {
    COp c;
    c.name = o.name;
    c.ranges = ranges(o.params);
    Scope s;
    for (const Var& v : o.params) s.vars.push_back(v.first);
    c.pre = compile(o.pre, s);
    c.eff = compile(o.eff, s);
    return c;
  }

  // ---- evaluation
  using Env = std::vector<int>;
  static int val(int a, const Env& env) {
    return a >= 0 ? env[static_cast<size_t>(a)] : -1 - a;
  }
  template <typename C>
  int atom_bit(const C& c, const Env& env) const {
    size_t code = 0;
    for (int a : c.args) {
      code = code * obj.size() + static_cast<size_t>(val(a, env));
    }
    return table[static_cast<size_t>(c.pred)][code];
  }
  template <typename C>
  bool static_atom(const C& c, const Env& env) const {
    if (c.pk == CF::EQ) return val(c.args[0], env) == val(c.args[1], env);
    return c.member[static_cast<size_t>(val(c.args[0], env))] != 0;
  }
  bool eval(const CF& c, Env& env, Mask m) const {
    switch (c.k) {
      case F::ATOM: {
        if (c.pk != CF::PRED) return static_atom(c, env);
        const int b = atom_bit(c, env);
        if (b < 0) touched_ill_typed = true;
        return b >= 0 && (m >> b & 1);
      }
      case F::AND:
        for (const CF& x : c.kids) {
          if (!eval(x, env, m)) return false;
        }
        return true;
      case F::OR:
        for (const CF& x : c.kids) {
          if (eval(x, env, m)) return true;
        }
        return false;
      case F::NOT:
        return !eval(c.kids[0], env, m);
      case F::ALL:
      case F::EX: {
        const bool all = c.k == F::ALL;
        bool result = all;
        product(c.ranges, [&](const std::vector<int>& t) {
          if (result != all) return;
          env.resize(static_cast<size_t>(c.base));
          env.insert(env.end(), t.begin(), t.end());
          if (eval(c.kids[0], env, m) != all) result = !all;
        });
        env.resize(static_cast<size_t>(c.base));
        return result;
      }
    }
    return false;
  }

  struct Change {
    Mask add = 0, del = 0;
    bool error = false;     // contradicts equality or a type
    bool ill_typed = false;  // touches an atom outside the universe
    std::vector<int> seq;    // every elementary change: +(bit+1) or -(bit+1)
  };
  // All conditions read `pre`.
  void effects(const CE& e, Env& env, Mask pre, Change* out) const {
    switch (e.k) {
      case E::ADD:
      case E::DEL: {
        if (e.pk != CF::PRED) {
          if (static_atom(e, env) != (e.k == E::ADD)) out->error = true;
          return;
        }
        const int b = atom_bit(e, env);
        if (b < 0) {
          out->ill_typed = true;
          return;
        }
        (e.k == E::ADD ? out->add : out->del) |= Mask(1) << b;
        out->seq.push_back(e.k == E::ADD ? b + 1 : -b - 1);
        return;
      }
      case E::LIST:
        for (const CE& x : e.kids) effects(x, env, pre, out);
        return;
      case E::WHEN:
        if (eval(e.cond, env, pre)) effects(e.kids[0], env, pre, out);
        return;
      case E::ALL:
        product(e.ranges, [&](const std::vector<int>& t) {
          env.resize(static_cast<size_t>(e.base));
          env.insert(env.end(), t.begin(), t.end());
          effects(e.kids[0], env, pre, out);
        });
        env.resize(static_cast<size_t>(e.base));
        return;
    }
  }
  Change change(const COp& o, const std::vector<int>& args, Mask m) const {
    Change c;
    Env env = args;
    effects(o.eff, env, m, &c);
    return c;
  }
  bool holds(const COp& o, const std::vector<int>& args, Mask m) const {
    Env env = args;
    return eval(o.pre, env, m);
  }
};

}  // namespace ref

#endif  // VERIF_REF_H_
