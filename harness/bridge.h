// Connects the reference model with the code under test.
#ifndef VERIF_BRIDGE_H_
#define VERIF_BRIDGE_H_

#include <fstream>
#include <memory>

#include "h.h"
#include "ref.h"
#include "symbolic/pddl.h"
#include "symbolic/state.h"
#include "symbolic/utils/parameter_generator.h"

namespace H {

using ref::Mask;
using symbolic::Action;
using symbolic::DerivedPredicate;
using symbolic::Formula;
using symbolic::Object;
using symbolic::ParameterGenerator;
using symbolic::PartialState;
using symbolic::Pddl;
using symbolic::Predicate;
using symbolic::Proposition;
using symbolic::State;
using symbolic::StateIndex;

inline std::string DomainFile(const std::string& text,
                              const std::string& name = "d.pddl") {
  const std::string path = R.scratch + "/" + name;
  std::ofstream f(path, std::ios::trunc);
  f << text;
  f.close();
  if (!f) throw std::runtime_error("cannot write " + path);
  return path;
}

inline std::unique_ptr<Pddl> Load(const ref::Dom& d, bool apply_axioms = true) {
  return std::make_unique<Pddl>(DomainFile(ref::domain_text(d)),
                                ref::problem_text(d), apply_axioms);
}

// Objects, propositions and states of a loaded problem, by reference number.
struct Bridge {
  const ref::World& w;
  const Pddl& pddl;
  std::vector<Object> obj;         // by reference object id
  std::vector<Proposition> props;  // by bit
  std::map<std::string, int> bit;

  Bridge(const ref::World& world, const Pddl& p) : w(world), pddl(p) {
    std::map<std::string, Object> by_name;
    for (const Object& o : pddl.objects()) by_name.emplace(o.name(), o);
    for (const ref::Str& n : w.obj) {
      auto it = by_name.find(n);
      if (it == by_name.end()) FAIL("object " << n << " is missing");
      obj.push_back(it->second);
    }
    for (size_t i = 0; i < w.bits(); i++) {
      std::vector<Object> args;
      for (int a : w.ground[i].args) args.push_back(obj[a]);
      props.emplace_back(w.d.preds[w.ground[i].pred].name, args);
      bit[w.names[i]] = static_cast<int>(i);
    }
  }
  std::vector<Object> args(const std::vector<int>& t) const {
    std::vector<Object> a;
    for (int x : t) a.push_back(obj[x]);
    return a;
  }
  State state(Mask m) const {
    State s;
    for (size_t i = 0; i < props.size(); i++) {
      if (m >> i & 1) s.insert(props[i]);
    }
    return s;
  }
  PartialState partial(Mask pos, Mask neg) const {
    return PartialState(state(pos), state(neg));
  }
  static std::string Name(const symbolic::PropositionBase& p) {
    std::vector<ref::Str> a;
    for (const Object& o : p.arguments()) a.push_back(o.name());
    return ref::ground_name(p.name(), a);
  }
  Mask mask(const State& s) const {
    Mask m = 0;
    size_t n = 0;
    for (const Proposition& p : s) {
      auto it = bit.find(Name(p));
      if (it == bit.end()) FAIL("unexpected proposition " << Name(p));
      if (m >> it->second & 1) FAIL("proposition twice: " << Name(p));
      m |= Mask(1) << it->second;
      if (++n > 4096) FAIL("endless state");
    }
    if (n != s.size()) FAIL("size " << s.size() << " but " << n << " members");
    return m;
  }
  static std::string Show(const State& s) {
    std::set<std::string> x;
    size_t n = 0;
    for (const Proposition& p : s) {
      x.insert(Name(p));
      if (++n > 4096) break;
    }
    std::string o = "{";
    for (const auto& i : x) o += (o.size() > 1 ? ", " : "") + i;
    return o + "}";
  }
};

// Calls fn and reports whether it threw a std::exception.
template <typename Fn>
bool Throws(Fn fn, std::string* what = nullptr) {
  try {
    fn();
  } catch (const Failure&) {
    throw;
  } catch (const std::exception& e) {
    if (what != nullptr) *what = e.what();
    return true;
  }
  return false;
}

}  // namespace H

#endif  // VERIF_BRIDGE_H_
