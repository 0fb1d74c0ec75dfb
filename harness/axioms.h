// Axioms as a rewriting system over (state, pending elementary changes), and
// small families of axioms.
#ifndef VERIF_AXIOMS_H_
#define VERIF_AXIOMS_H_

#include <unordered_map>

#include "ref.h"

namespace ref {

// A ground literal: +(bit+1) or -(bit+1).
using Lit = int;
using Bag = unsigned __int128;  // four bits per literal: how many times it is pending
inline int lit_id(Lit l) { return l > 0 ? 2 * (l - 1) : 2 * (-l - 1) + 1; }
inline int bag_count(Bag b, Lit l) {
  return lit_id(l) >= 32 ? 0 : static_cast<int>(b >> (4 * lit_id(l)) & 15);
}
inline void bag_add(Bag* b, Lit l) {
  if (lit_id(l) >= 32) throw std::logic_error("ref: too many propositions for a bag");
  if (bag_count(*b, l) < 15) *b += Bag(1) << (4 * lit_id(l));
}
inline Bag bag_of(const std::vector<int>& seq) {
  Bag b = 0;
  for (int l : seq) bag_add(&b, l);
  return b;
}
inline bool lit_holds(Lit l, Mask m) {
  return l > 0 ? (m >> (l - 1) & 1) != 0 : (m >> (-l - 1) & 1) == 0;
}

struct Instance {
  Str text;
  CF ctx;
  std::vector<int> args;
  bool ctx_static = false;  // context is an equality or a type
  Lit lit = 0;              // context literal (0: none or ill-typed)
  std::vector<Lit> implies;
  bool error = false;       // implies something false
};

struct AxiomSystem {
  const World& w;
  std::vector<Instance> inst;
  bool ill_typed = false;  // some implication leaves the universe

  explicit AxiomSystem(const World& world) : w(world) {
    for (const Op& o : w.d.axioms) {
      const COp c = w.compile(o);
      World::product(c.ranges, [&](const std::vector<int>& t) {
        Instance x;
        x.ctx = c.pre;
        x.args = t;
        x.text = text(o, true) + " with " + w.call("vars", t);
        const bool neg = c.pre.k == F::NOT;
        const CF& atom = neg ? c.pre.kids[0] : c.pre;
        World::Env env = t;
        if (atom.pk == CF::PRED) {
          const int b = w.atom_bit(atom, env);
          if (b >= 0) x.lit = neg ? -b - 1 : b + 1;
        } else {
          x.ctx_static = true;
        }
        World::Change ch;
        w.effects(c.eff, env, 0, &ch);
        x.implies = ch.seq;
        x.error = ch.error;
        ill_typed |= ch.ill_typed;
        inst.push_back(x);
      });
    }
  }
  // Whether triggered axioms can go on forever: some literal can trigger itself
  // again and is undone on the way.
  bool oscillates() const {
    const size_t n = 2 * w.bits();
    std::vector<std::vector<char>> reach(n, std::vector<char>(n, 0));
    for (const Instance& x : inst) {
      if (x.lit == 0) continue;
      for (Lit l : x.implies) reach[lit_id(x.lit)][lit_id(l)] = 1;
    }
    for (size_t k = 0; k < n; k++) {
      for (size_t i = 0; i < n; i++) {
        for (size_t j = 0; j < n; j++) reach[i][j] |= reach[i][k] & reach[k][j];
      }
    }
    for (size_t b = 0; b < n; b++) {
      if (reach[b][b] && reach[b][b ^ 1]) return true;
    }
    return false;
  }
  // Whether some literal leads to its own negation.
  bool contradictory() const {
    for (size_t b = 0; b < w.bits(); b++) {
      for (Lit l : {static_cast<int>(b) + 1, -static_cast<int>(b) - 1}) {
        std::set<Lit> seen = {l};
        std::vector<Lit> work = {l};
        while (!work.empty()) {
          const Lit y = work.back();
          work.pop_back();
          for (const Instance& x : inst) {
            if (x.lit != y) continue;
            for (Lit z : x.implies) {
              if (z == -l) return true;
              if (seen.insert(z).second) work.push_back(z);
            }
          }
        }
      }
    }
    return false;
  }
  bool context(const Instance& x, Mask m) const {
    World::Env env = x.args;
    return w.eval(x.ctx, env, m);
  }
  bool would_change(const Instance& x, Mask m) const {
    if (x.error) return true;
    for (Lit l : x.implies) {
      if (!lit_holds(l, m)) return true;
    }
    return false;
  }
  bool valid(Mask m) const {
    for (const Instance& x : inst) {
      if (context(x, m) && would_change(x, m)) return false;
    }
    return true;
  }

  // Explores all firing orders.  With `closure`, violated instances are fired
  // until none is left; without, only the pending changes and what they newly
  // trigger are executed.
  struct Outcome {
    bool cyclic = false;  // some order never ends
    bool error = false;   // some order fails
    std::set<Mask> ends;
    uint64_t nodes = 0, edges = 0;
    bool unique() const { return !cyclic && !error && ends.size() == 1; }
    bool fails() const { return !cyclic && error && ends.empty(); }
  };
  struct Node {
    Mask m;
    Bag pending;
    bool failed;
    bool operator==(const Node& o) const {
      return m == o.m && pending == o.pending && failed == o.failed;
    }
  };
  struct NodeHash {
    size_t operator()(const Node& n) const {
      return (n.m * 0x9E3779B97F4A7C15ull) ^ ((static_cast<uint64_t>(n.pending) ^ static_cast<uint64_t>(n.pending >> 64) * 31) * 0xC2B2AE3D27D4EB4Full) ^ n.failed;
    }
  };
  std::vector<Node> Next(const Node& n, bool closure) const {
    std::vector<Node> out;
    if (n.failed) return out;
    if (n.pending != 0) {
      for (size_t b = 0; b < w.bits(); b++) {
        for (int s = 0; s < 2; s++) {
          const Lit l = s == 0 ? static_cast<int>(b) + 1 : -static_cast<int>(b) - 1;
          if (bag_count(n.pending, l) == 0) continue;
          Node x = n;
          x.pending -= Bag(1) << (4 * lit_id(l));
          if (!lit_holds(l, n.m)) {
            x.m ^= Mask(1) << b;
            for (const Instance& i : inst) {
              if (i.lit != l) continue;
              if (i.error) x.failed = true;
              for (Lit y : i.implies) bag_add(&x.pending, y);
            }
          }
          out.push_back(x);
        }
      }
      return out;
    }
    if (!closure) return out;
    for (const Instance& i : inst) {
      if (!context(i, n.m) || !would_change(i, n.m)) continue;
      Node x = n;
      x.failed = i.error;
      x.pending = bag_of(i.implies);
      out.push_back(x);
    }
    return out;
  }
  Outcome explore(Mask m, Bag pending, bool closure, size_t limit = 200000) const {
    Outcome o;
    std::unordered_map<Node, char, NodeHash> color;  // 1 open, 2 done
    struct Frame {
      Node n;
      std::vector<Node> next;
      size_t i = 0;
    };
    std::vector<Frame> st;
    auto open = [&](const Node& n) {
      color[n] = 1;
      o.nodes++;
      Frame f{n, Next(n, closure)};
      o.edges += f.next.size();
      if (f.next.empty()) {
        if (n.failed) {
          o.error = true;
        } else {
          o.ends.insert(n.m);
        }
      }
      st.push_back(std::move(f));
    };
    open({m, pending, false});
    while (!st.empty()) {
      if (o.nodes > limit) {  // give up: treated as not confluent
        o.cyclic = true;
        return o;
      }
      Frame& f = st.back();
      if (f.i == f.next.size()) {
        color[f.n] = 2;
        st.pop_back();
        continue;
      }
      const Node n = f.next[f.i++];
      auto it = color.find(n);
      if (it == color.end()) {
        open(n);
      } else if (it->second == 1) {
        o.cyclic = true;
      }
    }
    return o;
  }

  // Forced values of a partial state; false if some value is contradicted.
  bool forced(Mask* pos, Mask* neg) const {
    for (;;) {
      Mask p = *pos, q = *neg;
      for (const Instance& x : inst) {
        bool known;
        if (x.ctx_static) {
          known = context(x, 0);
        } else if (x.lit == 0) {
          known = false;  // about a proposition outside the universe
        } else {
          known = x.lit > 0 ? (p >> (x.lit - 1) & 1) : (q >> (-x.lit - 1) & 1);
        }
        if (!known) continue;
        if (x.error) return false;
        for (Lit l : x.implies) (l > 0 ? p : q) |= Mask(1) << (l > 0 ? l - 1 : -l - 1);
      }
      if (p & q) return false;
      if (p == *pos && q == *neg) return true;
      *pos = p;
      *neg = q;
    }
  }
};

// ------------------------------------------------------------- families
struct AxiomVocab {
  Str name;
  Dom d;
  std::vector<Op> axioms;
};

inline void Cross(AxiomVocab* v, const Vars& vars, const std::vector<F>& ctx, const std::vector<E>& imp) {
  for (const F& c : ctx) {
    for (const E& i : imp) {
      Op o;
      o.name = "axiom";
      o.params = vars;
      o.pre = c;
      o.eff = i;
      v->axioms.push_back(o);
    }
  }
}

inline std::vector<AxiomVocab> AxiomVocabs() {
  std::vector<AxiomVocab> out;
  {
    AxiomVocab v;  // 5 propositions
    v.name = "unary";
    v.d.name = "unary";
    v.d.types = {{"t", ""}};
    v.d.consts = {{"a", "t"}};
    v.d.objs = {{"b", "t"}};
    v.d.preds = {{"p", {{"x", "t"}}}, {"q", {{"x", "t"}}}, {"n", {}}};
    const Vars x = {{"x", "t"}}, xy = {{"x", "t"}, {"y", "t"}};
    std::vector<F> ctx;
    for (const F& f : {A("p", {"?x"}), A("q", {"?x"}), A("p", {"a"}), A("n")}) {
      ctx.push_back(f);
      ctx.push_back(Not(f));
    }
    std::vector<E> imp;
    for (const auto& l : std::vector<std::pair<Str, std::vector<Str>>>{
             {"p", {"?x"}}, {"q", {"?x"}}, {"q", {"a"}}, {"n", {}}}) {
      imp.push_back(Add(l.first, l.second));
      imp.push_back(Del(l.first, l.second));
    }
    imp.push_back(Lst({Add("q", {"?x"}), Del("p", {"?x"})}));
    imp.push_back(EAll({{"y", "t"}}, Add("q", {"?y"})));
    imp.push_back(EAll({{"x", "t"}}, Del("q", {"?x"})));
    Cross(&v, x, ctx, imp);
    Cross(&v, xy, {A("p", {"?x"}), Not(A("q", {"?y"})), A("n")},
          {Add("q", {"?y"}), Del("p", {"?y"}), Del("q", {"?x"}), Add("n")});
    out.push_back(v);
  }
  {
    AxiomVocab v;  // 6 propositions
    v.name = "binary";
    v.d.name = "binary";
    v.d.types = {{"t", ""}};
    v.d.consts = {{"a", "t"}};
    v.d.objs = {{"b", "t"}};
    v.d.preds = {{"p", {{"x", "t"}}}, {"r", {{"x", "t"}, {"y", "t"}}}};
    const Vars xy = {{"x", "t"}, {"y", "t"}}, yx = {{"y", "t"}, {"x", "t"}}, x = {{"x", "t"}};
    Cross(&v, xy, {A("r", {"?x", "?y"}), Not(A("r", {"?y", "?x"}))},
          {Add("p", {"?x"}), Del("p", {"?y"}), Add("r", {"?y", "?x"}), Del("r", {"?y", "?x"}),
           Del("r", {"?x", "?x"}), Add("r", {"?y", "a"}), Add("=", {"?x", "?y"}), Del("=", {"?x", "?y"})});
    Cross(&v, yx, {A("r", {"?x", "?y"}), A("p", {"?y"}), Not(A("p", {"?x"}))},
          {Add("p", {"?x"}), Del("r", {"?y", "?x"}), Add("r", {"?x", "?y"}), Del("p", {"a"})});
    Cross(&v, x, {A("r", {"?x", "?x"}), A("r", {"?x", "a"}), A("r", {"a", "?x"}), Not(A("r", {"?x", "?x"})),
                  A("r", {"a", "a"}), A("p", {"?x"})},
          {Add("p", {"?x"}), Del("p", {"?x"}), Add("r", {"a", "?x"}), Del("r", {"?x", "a"}),
           EAll({{"z", "t"}}, Del("r", {"?x", "?z"})), EAll({{"z", "t"}}, Add("r", {"?z", "?x"})),
           Lst({Add("p", {"?x"}), Del("r", {"?x", "?x"})})});
    out.push_back(v);
  }
  {
    AxiomVocab v;  // 7 propositions
    v.name = "typed";
    v.d.name = "typed";
    v.d.types = {{"t", ""}, {"u", "t"}, {"emp", "u"}};
    v.d.consts = {{"k", "u"}, {"m", "t"}};
    v.d.preds = {{"p", {{"x", "t"}}}, {"w", {{"x", "u"}}}, {"on", {{"x", "u"}, {"y", "t"}}}, {"in", {{"x", "u"}, {"y", "u"}}}};
    const Vars t = {{"x", "t"}}, u = {{"x", "u"}}, ut = {{"x", "u"}, {"y", "t"}}, tu = {{"y", "t"}, {"x", "u"}},
               e = {{"x", "emp"}}, ue = {{"x", "u"}, {"y", "emp"}}, uu = {{"x", "u"}, {"y", "u"}};
    Cross(&v, t, {A("p", {"?x"}), Not(A("p", {"?x"})), A("u", {"?x"}), Not(A("u", {"?x"})), A("=", {"?x", "m"})},
          {Add("p", {"m"}), Del("p", {"?x"}), Add("w", {"k"}), Add("u", {"?x"}), Del("on", {"k", "?x"})});
    Cross(&v, u, {A("p", {"?x"}), A("w", {"?x"}), Not(A("w", {"?x"})), A("on", {"?x", "?x"}), A("in", {"?x", "?x"})},
          {Add("w", {"?x"}), Del("p", {"?x"}), Add("p", {"m"}), Add("on", {"?x", "m"}), EAll(t, Del("on", {"k", "?x"})),
           Del("in", {"?x", "?x"})});
    Cross(&v, ut, {A("on", {"?x", "?y"}), Not(A("on", {"?x", "?y"})), A("p", {"?y"})},
          {Add("p", {"?y"}), Del("w", {"?x"}), Add("on", {"?x", "?x"}), Del("on", {"?x", "?y"})});
    Cross(&v, tu, {A("on", {"?x", "?y"}), A("w", {"?x"})}, {Del("p", {"?y"}), Add("on", {"?x", "?y"})});
    Cross(&v, uu, {A("on", {"?x", "?y"}), Not(A("in", {"?y", "?x"}))}, {Add("in", {"?x", "?y"}), Del("w", {"?y"})});
    Cross(&v, e, {A("p", {"?x"}), A("p", {"m"}), Not(A("p", {"k"}))}, {Del("p", {"m"}), Add("p", {"?x"})});
    Cross(&v, ue, {A("w", {"?x"})}, {Add("p", {"?x"}), Add("p", {"?y"})});
    out.push_back(v);
  }
  {
    AxiomVocab v;  // chains and cycles over propositions without arguments
    v.name = "nullary";
    v.d.name = "nullary";
    v.d.types_section = false;
    v.d.preds = {{"a", {}}, {"b", {}}, {"c", {}}, {"d", {}}};
    const std::vector<Str> n = {"a", "b", "c", "d"};
    for (const Str& x : n) {
      for (const Str& y : n) {
        for (int s = 0; s < 4; s++) {
          Op o;
          o.name = "axiom";
          o.pre = s & 1 ? Not(A(x)) : A(x);
          o.eff = s & 2 ? Del(y) : Add(y);
          v.axioms.push_back(o);
        }
      }
      for (const Str& y : n) {
        Op o;
        o.name = "axiom";
        o.pre = A(x);
        o.eff = Lst({Add(y), Del(n[(y[0] - 'a' + 1) % 4])});
        v.axioms.push_back(o);
      }
    }
    out.push_back(v);
  }
  return out;
}

// Vocabularies too large for every set of their axioms: listed sets only.
struct AxiomFamily {
  AxiomVocab v;
  std::vector<std::vector<size_t>> sets;
};

inline std::vector<AxiomFamily> AxiomFamilies(bool thorough) {
  std::vector<AxiomFamily> out;
  {
    // Contexts and implications with three arguments; single axioms and pairs.
    AxiomFamily f;
    AxiomVocab& v = f.v;
    v.name = "ternary";
    v.d.name = "ternary";
    v.d.types = {{"t", ""}, {"u", ""}};
    v.d.consts = {{"a", "t"}};
    v.d.objs = {{"b", "t"}, {"c", "u"}};
    v.d.preds = {{"s", {{"x", "t"}, {"y", "t"}, {"z", "t"}}}, {"q", {{"x", "t"}, {"y", "u"}}}, {"h", {{"x", "u"}, {"y", "t"}}}};
    const std::vector<Str> terms = {"?x", "?y", "?z", "a"};
    const std::vector<Vars> orders = {{{"x", "t"}, {"y", "t"}, {"z", "t"}, {"w", "u"}},
                                      {{"w", "u"}, {"z", "t"}, {"x", "t"}, {"y", "t"}},
                                      {{"y", "t"}, {"z", "t"}, {"w", "u"}, {"x", "t"}}};
    for (size_t c = 0; c < 64; c++) {
      const F ctx = A("s", {terms[c % 4], terms[c / 4 % 4], terms[c / 16]});
      const std::vector<E> imp = {Add("q", {"?x", "?w"}), Del("h", {"?w", "?z"}),
                                  Lst({Add("q", {"?y", "?w"}), Add("h", {"?w", "?x"})}),
                                  EAll({{"e", "t"}, {"x", "u"}}, Add("q", {"?e", "?x"}))};
      for (size_t i = 0; i < imp.size(); i++) {
        Op o;
        o.name = "axiom";
        o.params = orders[(c + i) % orders.size()];
        o.pre = (c + i) & 1 ? Not(ctx) : ctx;
        o.eff = imp[i];
        v.axioms.push_back(o);
      }
    }
    const size_t n1 = v.axioms.size();
    for (const Str& x : {"?y", "?z", "a"}) {
      for (int sg = 0; sg < 2; sg++) {
        Op o;
        o.name = "axiom";
        o.params = orders[static_cast<size_t>(sg)];
        const F ctx = A("q", {x, "?w"});
        o.pre = sg ? Not(ctx) : ctx;
        o.eff = Lst({Add("h", {"?w", x}), Del("s", {"?x", x, "?z"})});
        v.axioms.push_back(o);
      }
    }
    for (size_t i = 0; i < n1; i += thorough ? 1 : 17) {
      f.sets.push_back({i});
      f.sets.push_back({i, n1 + i % (v.axioms.size() - n1)});
      f.sets.push_back({n1 + i % (v.axioms.size() - n1), i});
    }
    out.push_back(f);
  }
  {
    // Chains over eight propositions, in several orders of declaration, with
    // every sign, some of them broken or forked.
    AxiomFamily f;
    AxiomVocab& v = f.v;
    v.name = "long";
    v.d.name = "long";
    v.d.types_section = false;
    for (int i = 0; i < 8; i++) v.d.preds.push_back({"c" + std::to_string(i), {}});
    const size_t step = thorough ? 3 : 37;
    for (size_t signs = 0; signs < 256; signs += step) {
      const size_t first = v.axioms.size();
      for (size_t i = 0; i < 7; i++) {
        Op o;
        o.name = "axiom";
        const Str from = "c" + std::to_string(i), to = "c" + std::to_string(i + 1);
        o.pre = signs >> i & 1 ? Not(A(from)) : A(from);
        E e = signs >> (i + 1) & 1 ? Del(to) : Add(to);
        // A fork two further along the chain.
        if ((signs + i) % 5 == 0 && i + 3 < 8) {
          const Str far = "c" + std::to_string(i + 3);
          e = Lst({signs >> (i + 3) & 1 ? Del(far) : Add(far), e});
        }
        o.eff = e;
        v.axioms.push_back(o);
      }
      std::vector<size_t> fwd, rev, mid;
      for (size_t i = 0; i < 7; i++) {
        fwd.push_back(first + i);
        rev.push_back(first + 6 - i);
        mid.push_back(first + (i * 3 + 2) % 7);
      }
      f.sets.push_back(fwd);
      f.sets.push_back(rev);
      f.sets.push_back(mid);
      std::vector<size_t> gap = mid;
      gap.erase(gap.begin() + static_cast<long>(signs % 7));
      f.sets.push_back(gap);
    }
    out.push_back(f);
  }
  {
    // A chain through the objects: three objects, two predicates.
    AxiomFamily f;
    AxiomVocab& v = f.v;
    v.name = "through";
    v.d.name = "through";
    v.d.types = {{"t", ""}};
    v.d.consts = {{"a", "t"}, {"b", "t"}, {"c", "t"}};
    v.d.preds = {{"p", {{"x", "t"}}}, {"q", {{"x", "t"}}}};
    const std::vector<Str> o = {"a", "b", "c"};
    for (size_t code = 0; code < 64; code++) {
      const size_t first = v.axioms.size();
      auto ax = [&](Vars ps, F pre, E eff) {
        Op x;
        x.name = "axiom";
        x.params = std::move(ps);
        x.pre = std::move(pre);
        x.eff = std::move(eff);
        v.axioms.push_back(x);
      };
      ax({}, A("p", {"a"}), code & 1 ? Add("q", {"b"}) : Lst({Add("p", {"b"}), Add("q", {"a"})}));
      ax({{"x", "t"}}, A("q", {"?x"}), code & 2 ? Add("p", {"?x"}) : EAll({{"y", "t"}}, Add("p", {"?y"})));
      ax({}, code & 4 ? A("p", {"b"}) : A("q", {"b"}), Add("q", {"c"}));
      ax({{"y", "t"}, {"x", "t"}}, code & 8 ? Not(A("q", {"?x"})) : A("p", {"?x"}),
         code & 16 ? Add("p", {"c"}) : Add("q", {"?x"}));
      std::vector<size_t> s = {first, first + 1, first + 2, first + 3};
      if (code & 32) std::reverse(s.begin(), s.end());
      f.sets.push_back(s);
      f.sets.push_back({first + 1, first + 3});
      f.sets.push_back({first + 2, first, first + 1});
    }
    out.push_back(f);
  }
  return out;
}

// All states, or (with many propositions) those with up to two true or false.
inline std::vector<Mask> StateMasks(const World& w, size_t limit) {
  std::set<Mask> s = {0, w.full()};
  if (w.bits() <= limit) {
    for (Mask m = 0; m < w.full(); m++) s.insert(m);
  } else {
    for (size_t i = 0; i < w.bits(); i++) {
      for (size_t j = 0; j <= i; j++) {
        s.insert(Mask(1) << i | Mask(1) << j);
        s.insert(w.full() & ~(Mask(1) << i | Mask(1) << j));
      }
    }
  }
  return {s.begin(), s.end()};
}

}  // namespace ref

#endif  // VERIF_AXIOMS_H_
