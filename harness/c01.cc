// C01: a state behaves as a mathematical set of propositions.
#include "pool.h"
#include "symbolic/utils/hash_set.h"
#include "symbolic/utils/unique_vector.h"

namespace {

// Element type with a chosen hash, for the generic set underneath.
struct Key {
  int id = 0;
  Key() = default;
  explicit Key(int i) : id(i) {}
  friend bool operator<(const Key& a, const Key& b) { return a.id < b.id; }
  friend bool operator==(const Key& a, const Key& b) { return a.id == b.id; }
  friend bool operator!=(const Key& a, const Key& b) { return a.id != b.id; }
};
size_t g_hash_mode = 0;

}  // namespace

namespace std {
template <>
struct hash<Key> {
  size_t operator()(const Key& k) const noexcept {
    switch (g_hash_mode) {
      case 0:
        return static_cast<size_t>(k.id);
      case 1:
        return 0;
      case 2:
        return static_cast<size_t>(k.id % 2) * 0x8000000000000001ull;
      default:
        return ~static_cast<size_t>(k.id) * 2654435761u;
    }
  }
};
}  // namespace std

namespace {

using namespace H;
using Set = std::set<int>;

// Compares the state with the model; returns the iteration order.
std::vector<int> Verify(const State& s, const std::vector<Proposition>& el,
                        const Set& model) {
  CHECK(s.size() == model.size(), "size " << s.size() << " want " << model.size());
  CHECK(s.empty() == model.empty(), "empty");
  std::vector<int> order;
  std::set<int> seen;
  auto index = [&](const symbolic::PropositionBase& p) {
    for (size_t i = 0; i < el.size(); i++) {
      if (el[i].name() == p.name() && el[i].arguments() == p.arguments()) {
        return static_cast<int>(i);
      }
    }
    return -1;
  };
  for (auto it = s.begin(); it != s.end(); ++it) {
    const int i = index(*it);
    CHECK(i >= 0, "unknown member " << (*it).to_string());
    CHECK(it.operator->() == &*it, "operator->");
    CHECK(seen.insert(i).second, "member visited twice: " << it->to_string());
    order.push_back(i);
    CHECK(order.size() <= model.size(), "too many members");
  }
  CHECK(seen == model, "members differ: " << Bridge::Show(s));
  for (size_t i = 0; i < el.size(); i++) {
    const bool want = model.count(static_cast<int>(i)) > 0;
    CHECK(s.contains(el[i]) == want, "contains " << el[i].to_string());
    const symbolic::PropositionRef ref(&el[i].name(), &el[i].arguments(),
                                       std::hash<std::string>{}(el[i].name()));
    CHECK(s.contains(ref) == want, "contains (by reference) " << el[i].to_string());
  }
  return order;
}

void VerifyReverse(State* s, const std::vector<int>& order,
                   const std::vector<Proposition>& el) {
  const State& c = *s;
  size_t n = 0;
  for (auto it = c.end(); it != c.begin();) {
    --it;
    CHECK(n < order.size(), "backward walk too long");
    CHECK(*it == el[order[order.size() - 1 - n]], "backward walk order");
    n++;
  }
  CHECK(n == order.size(), "backward walk too short");
  n = 0;
  for (auto it = s->end(); it != s->begin();) {
    it--;
    CHECK(n < order.size(), "backward walk too long (mutable)");
    CHECK(*it == el[order[order.size() - 1 - n]], "backward walk order (mutable)");
    n++;
  }
  CHECK(n == order.size(), "backward walk too short (mutable)");
  n = 0;
  for (auto it = s->begin(); it != s->end(); it++) {
    CHECK(*it == el[order[n]], "mutable forward walk");
    CHECK(it.operator->() == &*it, "operator-> (mutable)");
    n++;
  }
  CHECK(n == order.size(), "mutable forward walk length");
  // Stepping forwards and backwards from every position.
  auto it = c.begin();
  for (size_t i = 0; i + 1 < order.size(); i++) {
    ++it;
    auto jt = it;
    --jt;
    CHECK(*jt == el[order[i]], "step back from position " << i + 1);
    jt++;
    CHECK(jt == it && *jt == el[order[i + 1]], "step forward again");
  }
}

struct Node {
  State s;
  Set model;
  std::vector<std::string> hist;
};

std::string Ops(const std::vector<std::string>& h) {
  std::string o;
  for (const auto& x : h) o += x + "; ";
  return o;
}

// Applies one operation to the state and the model and compares everything.
void Step(const Pool& pool, const std::vector<Proposition>& el, int op, int e,
          int variant, State* s, Set* model) {
  const State before = *s;
  const Set model_before = *model;
  const std::vector<int> order0 = Verify(before, el, model_before);
  bool changed, want;
  if (op == 0) {
    want = model->insert(e).second;
    changed = InsertBy(variant, *pool.pddl, el[e], s);
  } else {
    want = model->erase(e) > 0;
    changed = EraseBy(variant, *pool.pddl, el[e], s);
  }
  R.transitions++;
  CHECK(changed == want, "reported change " << changed << " after "
                                            << (op == 0 ? "insert " : "erase ")
                                            << el[e].to_string());
  const std::vector<int> order = Verify(*s, el, *model);
  VerifyReverse(s, order, el);
  // The copy made before is untouched, and changing a copy leaves this alone.
  CHECK(Verify(before, el, model_before) == order0, "copy changed");
}

// All operation sequences of a length, every element and variant.
void AllSequences(const Pool& pool, const std::vector<Proposition>& el, int len,
                  int nvar_ins, int nvar_del, const char* tag) {
  const int n = static_cast<int>(el.size());
  const int alphabet = n * (nvar_ins + nvar_del);
  auto decode = [&](int a, int* op, int* e, int* v) {
    *e = a % n;
    const int k = a / n;
    *op = k < nvar_ins ? 0 : 1;
    *v = k < nvar_ins ? k : k - nvar_ins;
  };
  auto show = [&](const std::vector<int>& seq) {
    std::string o;
    for (int a : seq) {
      int op, e, v;
      decode(a, &op, &e, &v);
      o += (op == 0 ? "insert#" : "erase#") + std::to_string(v) + " " +
           el[e].to_string() + "; ";
    }
    return o;
  };
  for (int a0 = 0; a0 < alphabet; a0++) {
    for (int a1 = 0; a1 < alphabet; a1++) {
      R.kase([&] { return std::string(tag) + ": all sequences of " +
                          std::to_string(len) + " operations starting with " +
                          show({a0, a1}); },
             [&] {
               std::vector<int> seq;
               std::function<void(const State&, const Set&, int)> go =
                   [&](const State& s, const Set& m, int left) {
                     if (left == 0) {
                       R.traces++;
                       return;
                     }
                     for (int a = 0; a < alphabet; a++) {
                       if (seq.size() == 0 && a != a0) continue;
                       if (seq.size() == 1 && a != a1) continue;
                       int op, e, v;
                       decode(a, &op, &e, &v);
                       seq.push_back(a);
                       State t(s);
                       Set mt(m);
                       try {
                         Step(pool, el, op, e, v, &t, &mt);
                       } catch (const Failure& f) {
                         throw Failure(f.key, show(seq) + ": " + f.what());
                       }
                       R.states++;
                       go(t, mt, left - 1);
                       // the child must not have disturbed this state
                       seq.pop_back();
                     }
                   };
               go(State(), Set(), len);
             });
    }
  }
}

// Breadth-first over the contents (and iteration orders) reachable with n
// elements, entered from the empty set and from the full set.
void Reach(const Pool& pool, const std::vector<Proposition>& el, const char* tag) {
  const int n = static_cast<int>(el.size());
  // Shard by the first element touched: each case explores the subsets that
  // contain / lack the chosen bits.
  const int bits = std::min(5, n);
  for (int part = 0; part < (1 << bits); part++) {
    for (int from_full = 0; from_full < 2; from_full++) {
      R.kase(
          [&] {
            return std::string(tag) + ": reachable contents of " +
                   std::to_string(n) + " elements, low bits " +
                   std::to_string(part) +
                   (from_full ? ", erasing from the full set"
                              : ", inserting into the empty set");
          },
          [&] {
            // Reach every subset with these low bits by insertion from empty or
            // by removal from full, then try every single operation in it.
            for (int hi = 0; hi < (1 << (n - bits)); hi++) {
              const int mask = (hi << bits) | part;
              State s;
              Set m;
              if (from_full) {
                for (int i = 0; i < n; i++) {
                  InsertBy(i % kInsertVariants, *pool.pddl, el[i], &s);
                }
                for (int i = 0; i < n; i++) {
                  if (!(mask >> i & 1)) {
                    EraseBy(i % kEraseVariants, *pool.pddl, el[i], &s);
                  } else {
                    m.insert(i);
                  }
                }
              } else {
                for (int i = n - 1; i >= 0; i--) {
                  if (mask >> i & 1) {
                    InsertBy(i % kInsertVariants, *pool.pddl, el[i], &s);
                    m.insert(i);
                  }
                }
              }
              const std::vector<int> order = Verify(s, el, m);
              VerifyReverse(&s, order, el);
              R.states++;
              for (int e = 0; e < n; e++) {
                for (int op = 0; op < 2; op++) {
                  State t(s);
                  Set mt(m);
                  const int v = (mask + e) % (op == 0 ? kInsertVariants
                                                      : kEraseVariants);
                  Step(pool, el, op, e, v, &t, &mt);
                }
              }
              Verify(s, el, m);
              R.traces++;
            }
          });
    }
  }
}

// Long chains through every bucket count up to `n` elements: fill in one
// permutation, empty in another, with look-back copies.
void Chains(const Pool& pool, int n, size_t collide, size_t modulus) {
  const std::vector<Proposition> el = pool.pick(n, collide, modulus);
  std::vector<std::vector<int>> perms;
  for (int stride : {1, 7, 11, 13}) {
    for (int off : {0, n / 2}) {
      std::vector<int> p, q;
      std::vector<char> used(n, 0);
      int x = off;
      for (int i = 0; i < n; i++) {
        while (used[x % n]) x++;
        used[x % n] = 1;
        p.push_back(x % n);
        x += stride;
      }
      q.assign(p.rbegin(), p.rend());
      perms.push_back(p);
      perms.push_back(q);
    }
  }
  for (size_t a = 0; a < perms.size(); a++) {
    for (size_t b = 0; b < perms.size(); b++) {
      R.kase([&] { return "fill " + std::to_string(n) + " elements in order " +
                          std::to_string(a) + ", empty in order " +
                          std::to_string(b) + ", colliding modulo " +
                          std::to_string(modulus); },
             [&] {
               State s;
               Set m;
               std::vector<std::pair<State, Set>> kept;
               for (int i = 0; i < n; i++) {
                 Step(pool, el, 0, perms[a][i], i % kInsertVariants, &s, &m);
                 if (i % 5 == 0) kept.push_back({s, m});
                 R.states++;
               }
               for (int i = 0; i < n; i++) {
                 Step(pool, el, 1, perms[b][i], i % kEraseVariants, &s, &m);
                 if (i % 3 == 0) {  // put it back and remove it again
                   Step(pool, el, 0, perms[b][i], i % kInsertVariants, &s, &m);
                   Step(pool, el, 1, perms[b][i], i % kEraseVariants, &s, &m);
                 }
                 if (i % 5 == 0) kept.push_back({s, m});
                 R.states++;
               }
               for (const auto& k : kept) Verify(k.first, el, k.second);
               R.traces++;
             });
    }
  }
}

// Whole-set operations: range insertion, initialiser lists, construction from
// text, copy and move assignment between every pair of subsets.
void Whole(const Pool& pool, const std::vector<Proposition>& el) {
  const int n = static_cast<int>(el.size());
  for (int a = 0; a < (1 << n); a++) {
    R.kase([&] { return "whole-set operations on subset " + std::to_string(a); },
           [&] {
             auto build = [&](int mask) {
               State s;
               for (int i = 0; i < n; i++) {
                 if (mask >> i & 1) s.insert(el[i]);
               }
               return s;
             };
             auto model = [&](int mask) {
               Set m;
               for (int i = 0; i < n; i++) {
                 if (mask >> i & 1) m.insert(i);
               }
               return m;
             };
             std::unordered_set<std::string> text;
             for (int i : model(a)) text.insert(el[i].to_string());
             Verify(State(*pool.pddl, text), el, model(a));
             CHECK(build(a).Stringify() == text, "Stringify");
             State moved_from = build(a);
             State moved_to(std::move(moved_from));
             Verify(moved_to, el, model(a));
             moved_from = build(a);  // a moved-from state can be assigned again
             Verify(moved_from, el, model(a));
             for (int b = 0; b < (1 << n); b++) {
               R.transitions++;
               // Range insertion, with repeated elements in the range.
               State s = build(a);
               std::vector<Proposition> range;
               for (int i : model(b)) range.push_back(el[i]);
               for (int i : model(b)) range.push_back(el[i]);
               const bool changed = s.insert(range.begin(), range.end());
               CHECK(changed == ((a | b) != a), "range insertion reports " << changed);
               Verify(s, el, model(a | b));
               const State from = build(b);
               State s2 = build(a);
               const bool changed2 = s2.insert(from.begin(), from.end());
               CHECK(changed2 == ((a | b) != a), "range insertion reports " << changed2);
               Verify(s2, el, model(a | b));
               Verify(from, el, model(b));
               // Assignment and independence.
               State t = build(b);
               t = s;
               Verify(t, el, model(a | b));
               for (int i = 0; i < n; i++) t.erase(el[i]);
               Verify(t, el, {});
               Verify(s, el, model(a | b));
               State u = build(b);
               u = std::move(t);
               Verify(u, el, {});
               std::swap(u, s);
               Verify(u, el, model(a | b));
               Verify(s, el, {});
               State& self = u;
               u = self;
               Verify(u, el, model(a | b));
               R.states++;
             }
             // initialiser lists of up to three elements
             for (int i = 0; i < n; i++) {
               for (int j = 0; j < n; j++) {
                 State l{el[i], el[j], el[i], el[a % n]};
                 Verify(l, el, Set{i, j, a % n});
               }
             }
             R.traces++;
           });
  }
}

// The generic set with controlled hashes.
void Generic(int n, int len) {
  for (size_t mode = 0; mode < 4; mode++) {
    for (int a0 = 0; a0 < 2 * n; a0++) {
      R.kase([&] { return "generic set, hash mode " + std::to_string(mode) +
                          ", all sequences of length " + std::to_string(len) +
                          " over " + std::to_string(n) + " elements starting with " +
                          std::to_string(a0); },
             [&] {
               g_hash_mode = mode;
               std::vector<int> seq;
               std::function<void(const symbolic::HashSet<Key>&, unsigned)> go =
                   [&](const symbolic::HashSet<Key>& s, unsigned m) {
                     if (static_cast<int>(seq.size()) == len) {
                       R.traces++;
                       return;
                     }
                     for (int a = 0; a < 2 * n; a++) {
                       if (seq.empty() && a != a0) continue;
                       symbolic::HashSet<Key> t(s);
                       unsigned mt = m;
                       const Key k(a % n);
                       seq.push_back(a);
                       bool got;
                       if (a < n) {
                         got = seq.size() % 2 ? t.insert(k) : t.insert(Key(k));
                         mt |= 1u << k.id;
                       } else {
                         got = t.erase(k);
                         mt &= ~(1u << k.id);
                       }
                       auto ctx = [&] {
                         std::string o = "sequence";
                         for (int x : seq) {
                           o += (x < n ? " +" : " -") + std::to_string(x % n);
                         }
                         return o;
                       };
                       CHECK(got == (mt != m), ctx());
                       R.transitions++;
                       R.states++;
                       unsigned seen = 0, cnt = 0;
                       for (const Key& x : static_cast<const symbolic::HashSet<Key>&>(t)) {
                         CHECK(!(seen >> x.id & 1), ctx());
                         seen |= 1u << x.id;
                         cnt++;
                       }
                       CHECK(seen == mt && cnt == t.size(), ctx());
                       CHECK(t.empty() == (mt == 0), ctx());
                       for (int i = 0; i < n; i++) {
                         CHECK(t.contains(Key(i)) == ((mt >> i & 1) != 0), ctx());
                       }
                       unsigned back = 0;
                       for (auto it = t.end(); it != t.begin();) {
                         --it;
                         back++;
                       }
                       CHECK(back == cnt, ctx());
                       go(t, mt);
                       seq.pop_back();
                     }
                     unsigned seen = 0;
                     for (const Key& x : s) seen |= 1u << x.id;
                     CHECK(seen == m, "a copy was disturbed");
                   };
               go(symbolic::HashSet<Key>(), 0);
             });
    }
  }
}

// The sorted vector with unique elements underneath: every sequence of
// operations, and every initialiser list of up to five elements.
void Sorted(int n, int len) {
  using Vec = symbolic::UniqueVector<Key>;
  auto same = [&](const Vec& v, const Set& m, const std::string& what) {
    CHECK(v.size() == m.size() && v.empty() == m.empty(), what << ": size " << v.size());
    auto it = m.begin();
    for (const Key& k : v) {
      CHECK(it != m.end() && k.id == *it, what << ": not the sorted elements");
      ++it;
    }
    for (int i = -1; i <= n; i++) {
      CHECK(v.contains(Key(i)) == (m.count(i) > 0), what << ": contains " << i);
    }
  };
  for (int a = 0; a < n; a++) {
    R.kase([&] { return "sorted vectors: initialiser lists starting with " + std::to_string(a); },
           [&] {
             same(Vec{}, {}, "{}");
             same(Vec{Key(a)}, {a}, "one element");
             for (int b = 0; b < n; b++) {
               same(Vec{Key(a), Key(b)}, {a, b}, "two elements");
               for (int c = 0; c < n; c++) {
                 same(Vec{Key(a), Key(b), Key(c)}, {a, b, c}, "three elements");
                 for (int d = 0; d < n; d++) {
                   same(Vec{Key(a), Key(b), Key(c), Key(d)}, {a, b, c, d}, "four elements");
                   for (int e = 0; e < n; e++) {
                     same(Vec{Key(a), Key(b), Key(c), Key(d), Key(e)}, {a, b, c, d, e},
                          "elements " + std::to_string(a) + std::to_string(b) + std::to_string(c) +
                              std::to_string(d) + std::to_string(e));
                     R.states++;
                   }
                 }
               }
             }
             R.traces++;
           });
    R.kase([&] { return "sorted vectors: all sequences of " + std::to_string(len) + " operations on element " +
                        std::to_string(a) + " first"; },
           [&] {
             std::string ops;
             std::function<void(const Vec&, const Set&, int)> go = [&](const Vec& v, const Set& m, int left) {
               if (left == 0) return;
               for (int e = 0; e < n; e++) {
                 if (left == len && e != a) continue;
                 for (int op = 0; op < 4; op++) {
                   Vec w(v);
                   Set mw(m);
                   const Key key(e);
                   const size_t mark = ops.size();
                   ops += " " + std::string(op == 0 ? "+" : op == 1 ? "+move" : op == 2 ? "+emplace" : "-") +
                          std::to_string(e);
                   const bool got = op == 0   ? w.insert(key)
                                    : op == 1 ? w.insert(Key(e))
                                    : op == 2 ? w.emplace(e)
                                              : w.erase(key);
                   const bool want = op == 3 ? mw.erase(e) > 0 : mw.insert(e).second;
                   CHECK(got == want, "sequence" << ops << ": reported " << got);
                   same(w, mw, "sequence" + ops);
                   R.transitions++;
                   R.states++;
                   go(w, mw, left - 1);
                   ops.resize(mark);
                 }
               }
               same(v, m, "a copy after" + ops);
             };
             go({}, {}, len);
             R.traces++;
           });
  }
}

}  // namespace

void H::Main() {
  const Pool pool;
  const bool t = R.thorough;
  AllSequences(pool, pool.pick(2, 2, 3255), t ? 5 : 4, kInsertVariants,
               kEraseVariants, "two colliding elements");
  AllSequences(pool, pool.twins(3), t ? 5 : 3, kInsertVariants, kEraseVariants, "three elements with one hash");
  Reach(pool, pool.twins(7), "equal hashes");
  AllSequences(pool, pool.pick(4, 2, 3255), t ? 7 : 5, 1, 1, "four elements");
  AllSequences(pool, pool.pick(3, 0, 3255), t ? 8 : 6, 1, 1, "three elements");
  Reach(pool, pool.pick(t ? 13 : 9, 4, 3255), "partly colliding");
  Reach(pool, pool.pick(t ? 12 : 9, 0, 3255), "not colliding");
  Chains(pool, 33, 0, 3255);
  Chains(pool, t ? 70 : 35, 5, 3255);
  Chains(pool, 20, 20, 105);
  Chains(pool, t ? 270 : 140, t ? 60 : 20, 3255);
  Whole(pool, pool.pick(t ? 6 : 5, 2, 105));
  Whole(pool, pool.twins(5));
  Generic(4, t ? 7 : 5);
  Generic(9, t ? 5 : 4);
  Sorted(4, t ? 6 : 4);
  Sorted(7, 3);
}
