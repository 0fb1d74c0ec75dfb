// C02: equality, ordering and hashing of states depend only on the contents.
#include "pool.h"
#include "vocab.h"

namespace {
using namespace H;

State Build(const std::vector<Proposition>& el, const std::vector<int>& order) {
  State s;
  for (int i : order) s.insert(el[i]);
  return s;
}
std::vector<int> Members(int mask, int n) {
  std::vector<int> r;
  for (int i = 0; i < n; i++) {
    if (mask >> i & 1) r.push_back(i);
  }
  return r;
}

// Checks that two states with the given "same contents" flag compare so.
void Compare(const State& a, const State& b, bool same, const std::string& what) {
  R.transitions++;
  CHECK((a == b) == same, what << ": == gives " << (a == b));
  CHECK((b == a) == same, what << ": == (swapped) gives " << (b == a));
  CHECK((a != b) == !same, what << ": != gives " << (a != b));
  const bool lt = a < b, gt = b < a;
  if (same) {
    CHECK(!lt && !gt, what << ": equal states are ordered");
    CHECK(std::hash<State>{}(a) == std::hash<State>{}(b), what << ": hashes differ");
  } else {
    CHECK(lt != gt, what << ": lt=" << lt << " gt=" << gt);
  }
}

// The histories by which a subset of the elements is reached.
std::vector<State> Ways(const Pool& pool, const std::vector<Proposition>& el, int mask) {
  const int n = static_cast<int>(el.size());
  const std::vector<int> in = Members(mask, n);
  std::vector<State> w;
  auto rev = in;
  std::reverse(rev.begin(), rev.end());
  w.push_back(Build(el, in));
  w.push_back(Build(el, rev));
  if (in.size() <= 4) {
    auto p = in;
    do {
      w.push_back(Build(el, p));
    } while (std::next_permutation(p.begin(), p.end()));
  }
  {  // through the full set, removing in both directions
    std::vector<int> all = Members((1 << n) - 1, n);
    State s = Build(el, all);
    for (int i = 0; i < n; i++) {
      if (!(mask >> i & 1)) s.erase(el[i]);
    }
    w.push_back(s);
    std::reverse(all.begin(), all.end());
    State t = Build(el, all);
    for (int i = n - 1; i >= 0; i--) {
      if (!(mask >> i & 1)) t.erase(el[i]);
    }
    w.push_back(t);
  }
  {  // toggling every outsider in the middle
    State s;
    size_t k = 0;
    for (int i : in) {
      s.insert(el[i]);
      for (int j = 0; j < n; j++) {
        if (mask >> j & 1) continue;
        if (k++ % 2 == 0) s.insert(el[j]);
      }
      for (int j = n - 1; j >= 0; j--) {
        if (!(mask >> j & 1)) s.erase(el[j]);
      }
    }
    w.push_back(s);
  }
  {  // every way of inserting, one after the other
    State s;
    for (size_t i = 0; i < in.size(); i++) {
      InsertBy(static_cast<int>(i % kInsertVariants), *pool.pddl, el[in[i]], &s);
    }
    w.push_back(s);
    std::unordered_set<std::string> text = s.Stringify();
    w.push_back(State(*pool.pddl, text));
    State copy(s);
    State moved(std::move(copy));
    w.push_back(moved);
  }
  {  // removing and re-inserting each member, and erasing absent ones
    State s = Build(el, in);
    for (int i : in) {
      s.erase(el[i]);
      s.insert(el[i]);
    }
    for (int j = 0; j < n; j++) {
      if (!(mask >> j & 1)) s.erase(el[j]);
    }
    w.push_back(s);
  }
  {  // emptied and refilled
    State s = Build(el, Members((1 << n) - 1, n));
    for (int i = 0; i < n; i++) s.erase(el[i]);
    for (int i : rev) s.insert(el[i]);
    w.push_back(s);
  }
  return w;
}

void Histories(const Pool& pool, const std::vector<Proposition>& el, const char* tag) {
  const int n = static_cast<int>(el.size());
  for (int mask = 0; mask < (1 << n); mask++) {
    R.kase([&] { return std::string(tag) + ": histories of subset " + std::to_string(mask) +
                        " of " + std::to_string(n); },
           [&] {
             const std::vector<State> w = Ways(pool, el, mask);
             for (size_t i = 0; i < w.size(); i++) {
               R.states++;
               R.traces++;
               for (size_t j = 0; j < w.size(); j++) {
                 Compare(w[i], w[j], true,
                         Bridge::Show(w[0]) + " reached by ways " + std::to_string(i) +
                             " and " + std::to_string(j));
               }
             }
             // every neighbouring subset differs, however both were reached
             for (int i = 0; i < n; i++) {
               State t = w[static_cast<size_t>(i) % w.size()];
               if (mask >> i & 1) {
                 t.erase(el[i]);
               } else {
                 t.insert(el[i]);
               }
               for (const State& s : w) Compare(s, t, false, "neighbour");
             }
           });
  }
}

// Every size up to several hundred elements, reached by growing to it and by
// shrinking to it from above, in several orders.
void Sizes(const Pool& pool, size_t n) {
  for (size_t collide : {size_t{0}, n / 4}) {
    const std::vector<Proposition> el = pool.pick(n, collide, 3255);
    for (int order = 0; order < 4; order++) {
      R.kase([&] { return "sizes up to " + std::to_string(n) + ", " + std::to_string(collide) + " colliding, order " +
                          std::to_string(order); },
             [&] {
               // The set of size k holds the elements seq[0..k).
               std::vector<Proposition> seq = el;
               if (order % 2) std::reverse(seq.begin(), seq.end());
               std::vector<State> up = {State()};
               for (const Proposition& p : seq) {
                 up.push_back(up.back());
                 CHECK(up.back().insert(p), "insertion of " << p.to_string());
               }
               State s;
               if (order < 2) {
                 s = up.back();
               } else {  // grown in the other order
                 for (size_t i = n; i-- > 0;) s.insert(seq[i]);
               }
               for (size_t k = n; k-- > 0;) {
                 CHECK(s.erase(seq[k]), "removal of " << seq[k].to_string());
                 const std::string what = "size " + std::to_string(k) + ", by growing and by shrinking";
                 Compare(up[k], s, true, what);
                 Compare(up[k + 1], s, false, what + ", against one more");
                 if (k > 0) Compare(up[k - 1], s, false, what + ", against one less");
                 // Two sets of one size.
                 if (k > 0 && k + 1 < n) {
                   State other = s;
                   other.erase(seq[k / 2]);
                   other.insert(seq[k + 1]);
                   Compare(up[k], other, false, what + ", against one element exchanged");
                   other.insert(seq[k / 2]);
                   other.erase(seq[k + 1]);
                   Compare(up[k], other, true, what + ", an element exchanged and back");
                 }
                 R.states++;
               }
               CHECK(s.empty() && s == State(), "emptied");
               R.traces++;
             });
    }
  }
}

// Strict total order over all subsets of a few elements.
void Total(const std::vector<Proposition>& el, const char* tag) {
  const int n = static_cast<int>(el.size());
  const int m = 1 << n;
  std::vector<State> s;
  for (int i = 0; i < m; i++) s.push_back(Build(el, Members(i, n)));
  for (int a = 0; a < m; a++) {
    R.kase([&] { return std::string(tag) + ": ordering of subset " + std::to_string(a) +
                        " against all pairs of subsets"; },
           [&] {
             for (int b = 0; b < m; b++) {
               Compare(s[a], s[b], a == b, "subsets " + std::to_string(a) + " and " + std::to_string(b));
               for (int c = 0; c < m; c++) {
                 if (s[a] < s[b] && s[b] < s[c]) CHECK(s[a] < s[c], "not transitive " << b << " " << c);
                 R.states++;
               }
             }
           });
  }
}

void PartialOrder(const std::vector<Proposition>& el, const char* tag) {
  const int n = static_cast<int>(el.size());
  int m = 1;
  for (int i = 0; i < n; i++) m *= 3;
  std::vector<PartialState> s, t;
  for (int c = 0; c < m; c++) {
    PartialState p, q;
    int x = c;
    for (int i = 0; i < n; i++, x /= 3) {
      if (x % 3 == 1) p.insert(el[i]);
      if (x % 3 == 2) p.erase(el[i]);
    }
    // the same by another history: everything denied or asserted first
    for (int i = n - 1; i >= 0; i--) {
      int y = c;
      for (int k = 0; k < i; k++) y /= 3;
      if (y % 3 == 0) continue;
      if (y % 3 == 1) {
        q.erase(el[i]);
        q.insert(el[i]);
      } else {
        q.insert(el[i]);
        q.erase(el[i]);
      }
    }
    s.push_back(p);
    t.push_back(q);
  }
  for (int a = 0; a < m; a++) {
    R.kase([&] { return std::string(tag) + ": partial state " + std::to_string(a) + " of " +
                        std::to_string(m); },
           [&] {
             for (int b = 0; b < m; b++) {
               const bool same = a == b;
               CHECK((s[a] == t[b]) == same, "==");
               CHECK((s[a] != t[b]) == !same, "!=");
               if (same) {
                 CHECK(!(s[a] < t[b]) && !(t[b] < s[a]), "equal but ordered");
               } else {
                 CHECK((s[a] < t[b]) != (t[b] < s[a]), "not a total order: " << b);
               }
               R.transitions++;
               for (int c = 0; c < m; c++) {
                 if (s[a] < t[b] && t[b] < s[c]) CHECK(s[a] < s[c], "not transitive");
                 R.states++;
               }
             }
           });
  }
}

// Propositions: only the predicate and argument names count.  Two separately
// loaded problems give distinct symbols with equal names.
void Propositions() {
  ref::Dom d;
  d.types = {{"t", ""}};
  d.consts = {{"a", "t"}, {"ab", "t"}};
  d.objs = {{"b", "t"}, {"c", ""}, {"bc", "t"}};
  for (size_t i = 0; i < 2; i++) d.objs.push_back({vocab::kTwinObjects[i], "t"});
  d.preds = {{"p", {}}, {"pa", {{"x", ""}}}, {"q", {{"x", ""}, {"y", ""}}},
             {vocab::kTwinPredicates[0], {}}, {vocab::kTwinPredicates[1], {}}};
  auto one = std::make_shared<std::unique_ptr<Pddl>>(Load(d));
  ref::Dom d2 = d;
  std::reverse(d2.objs.begin(), d2.objs.end());
  auto two = std::make_shared<std::unique_ptr<Pddl>>(Load(d2));
  const std::vector<std::string> heads = {"p", "pa", "q"};
  struct P {
    Proposition p, q;
    std::string n;
    std::vector<std::string> a;
  };
  std::vector<P> all;
  const std::vector<std::string> on = {"a", "ab", "b", "c", "bc", vocab::kTwinObjects[0], vocab::kTwinObjects[1]};
  std::vector<std::vector<std::string>> argv = {{}};
  for (const auto& x : on) {
    argv.push_back({x});
    for (const auto& y : on) argv.push_back({x, y});
  }
  const std::vector<std::string> few = {"a", "ab", "b"};
  for (const auto& x : few) {
    for (const auto& y : few) {
      for (const auto& z : few) {
        argv.push_back({x, y, z});
        if (x != "ab" && y != "ab" && z != "ab") {
          argv.push_back({x, y, z, "a"});
          argv.push_back({x, y, z, "b"});
        }
      }
    }
  }
  auto objs = [&](const Pddl& pd, const std::vector<std::string>& v) {
    std::vector<Object> o;
    for (const auto& x : v) o.emplace_back(pd, x);
    return o;
  };
  for (const auto& h : heads) {
    for (const auto& v : argv) {
      all.push_back({Proposition(h, objs(**one, v)),
                     Proposition(**two, ref::ground_name(h, v)), h, v});
    }
  }
  for (const auto& h : vocab::kTwinPredicates) {
    for (const auto& v : std::vector<std::vector<std::string>>{{}, {"a"}, {vocab::kTwinObjects[1]}}) {
      all.push_back({Proposition(h, objs(**one, v)), Proposition(**two, ref::ground_name(h, v)), h, v});
    }
  }
  for (size_t i = 0; i < all.size(); i++) {
    R.kase([&] { return "proposition " + all[i].p.to_string() + " against all others"; },
           [&] {
             const P& x = all[i];
             const symbolic::PropositionRef xr(&x.p.name(), &x.p.arguments(),
                                               std::hash<std::string>{}(x.p.name()));
             const symbolic::PropositionBase& xb = x.p;
             CHECK(std::hash<symbolic::PropositionBase>{}(xb) == std::hash<Proposition>{}(x.q) &&
                       std::hash<symbolic::PropositionRef>{}(xr) == std::hash<Proposition>{}(x.q),
                   "hash depends on the representation");
             for (const P& y : all) {
               const bool same = x.n == y.n && x.a == y.a;
               const symbolic::PropositionRef yr(&y.q.name(), &y.q.arguments(),
                                                 std::hash<std::string>{}(y.q.name()));
               const symbolic::PropositionBase* xs[3] = {&x.p, &x.q, &xr};
               const symbolic::PropositionBase* ys[3] = {&y.p, &y.q, &yr};
               for (const auto* u : xs) {
                 for (const auto* v : ys) {
                   R.transitions++;
                   CHECK((*u == *v) == same, "== " << y.p.to_string());
                   CHECK((*u != *v) == !same, "!= " << y.p.to_string());
                   if (same) {
                     CHECK(u->hash() == v->hash(), "hash " << y.p.to_string());
                     CHECK(!(*u < *v) && !(*v < *u), "< " << y.p.to_string());
                   } else {
                     CHECK((*u < *v) != (*v < *u), "not total: " << y.p.to_string());
                   }
                 }
               }
               for (const P& z : all) {
                 R.states++;
                 if (x.p < y.q && y.q < z.p) CHECK(x.p < z.p, "not transitive");
               }
             }
             // states built from either problem are the same
             State s, t;
             s.insert(x.p);
             t.insert(x.q);
             s.insert(all[0].q);
             t.insert(all[0].p);
             Compare(s, t, true, "states of two problems");
           });
  }
  // Objects
  for (size_t i = 0; i < on.size(); i++) {
    R.kase([&] { return "object " + on[i] + " of two problems against all others"; },
           [&] {
             for (const auto& y : on) {
               for (const Pddl* pa : {one->get(), two->get()}) {
                 for (const Pddl* pb : {one->get(), two->get()}) {
                   const Object a(*pa, on[i]), b(*pb, y);
                   const bool same = on[i] == y;
                   R.transitions++;
                   CHECK((a == b) == same && (a != b) == !same, y);
                   CHECK((a < b || b < a) == !same && !(a < b && b < a), y);
                   if (same) CHECK(std::hash<Object>{}(a) == std::hash<Object>{}(b), y);
                   for (const auto& z : on) {
                     const Object c(*pa, z);
                     if (a < b && b < c) CHECK(a < c, "not transitive");
                   }
                 }
               }
             }
           });
  }
}

// Objects, types and actions of separately loaded problems compare by name.
void Symbols() {
  std::vector<ref::Dom> doms = vocab::All();
  for (auto& d : doms) {
    const auto types = vocab::Types(d);
    for (const std::string& n : {std::string("go"), std::string("go-on"), std::string("ago"), std::string("z"),
                                 vocab::kTwinActions[0], vocab::kTwinActions[1]}) {
      ref::Op op;
      op.name = n;
      op.params = {{"x", types.back()}};
      d.actions.push_back(op);
    }
  }
  for (size_t i = 0; i < doms.size(); i++) {
    R.kase([&] { return "objects, types and actions of " + doms[i].name + " against those of every domain"; },
           [&] {
             auto one = Load(doms[i]);
             for (const auto& d2 : doms) {
               auto two = Load(d2);
               auto all = [&](const auto& a, const auto& b, const auto& name, const char* what) {
                 for (const auto& x : a) {
                   for (const auto& y : b) {
                     const std::string m = name(x), n = name(y);
                     CHECK((x == y) == (m == n), what << " " << m << " == " << n);
                     CHECK(!(x < y && y < x) && (x < y || y < x) == (m != n), what << " " << m << " < " << n);
                     R.transitions++;
                     for (const auto& z : b) {
                       if (x < y && y < z) CHECK(x < z, what << " order is not transitive");
                     }
                   }
                 }
               };
               auto nm = [](const auto& x) { return x.name(); };
               all(one->objects(), two->objects(), nm, "object");
               all(one->actions(), two->actions(), nm, "action");
               std::vector<Object::Type> ta, tb;
               for (const auto& o : one->objects()) ta.push_back(o.type());
               for (const auto& o : two->objects()) tb.push_back(o.type());
               for (const auto& p : one->predicates()) {
                 for (const auto& o : p.parameters()) ta.push_back(o.type());
               }
               for (const auto& p : two->predicates()) {
                 for (const auto& o : p.parameters()) tb.push_back(o.type());
               }
               all(ta, tb, nm, "type");
               R.states++;
             }
             R.traces++;
           });
  }
}

}  // namespace

void H::Main() {
  const Pool pool;
  const bool t = R.thorough;
  Histories(pool, pool.pick(t ? 10 : 8, 0, 3255), "not colliding");
  Histories(pool, pool.pick(t ? 10 : 8, 4, 3255), "partly colliding");
  Histories(pool, pool.twins(7), "equal hashes");
  {
    const auto el = pool.pick(17, 3, 3255);
    const int m = (1 << 17) - 1;
    for (int hole : {0, 1, 3, 0x55, 0x1ff, 0x3ff, 0x7fff, 0xffff, 0x1fe00, 0x15555, 0xff00}) {
      R.kase([&] { return "histories of a large subset without " + std::to_string(hole); },
             [&] {
               const auto w = Ways(pool, el, m & ~hole);
               for (size_t i = 0; i < w.size(); i++) {
                 R.states++;
                 for (size_t j = 0; j < w.size(); j++) {
                   Compare(w[i], w[j], true, "ways " + std::to_string(i) + "," + std::to_string(j));
                 }
               }
             });
    }
  }
  Sizes(pool, t ? 530 : 270);
  Total(pool.pick(t ? 7 : 6, 0, 3255), "not colliding");
  Total(pool.pick(t ? 7 : 6, 3, 3255), "partly colliding");
  Total(pool.twins(7), "equal hashes");
  PartialOrder(pool.pick(t ? 5 : 4, 2, 3255), "partly colliding");
  PartialOrder(pool.pick(t ? 5 : 4, 0, 3255), "not colliding");
  PartialOrder(pool.twins(t ? 5 : 4), "equal hashes");
  Propositions();
  Symbols();
}
