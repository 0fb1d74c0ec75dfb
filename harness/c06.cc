// C06: the state index is a bijection and indexed states round-trip.
#include "bridge.h"
#include "vocab.h"

namespace {
using namespace H;

struct Fixture {
  const ref::Dom& d;
  ref::World w;
  std::unique_ptr<Pddl> pddl;
  std::unique_ptr<Bridge> b;
  std::vector<std::string> number;  // numbering agreed on by all indices
  std::map<std::string, size_t> index;

  explicit Fixture(const ref::Dom& dom) : d(dom), w(dom), pddl(Load(dom)) {
    b = std::make_unique<Bridge>(w, *pddl);
    const StateIndex si(pddl->predicates(), false);
    CHECK(si.size() == w.bits(), "size " << si.size() << " want " << w.bits());
    for (size_t i = 0; i < w.bits(); i++) {
      const std::string n = Bridge::Name(si.GetProposition(i));
      CHECK(w.bit_of.count(n) > 0, "number " << i << " is " << n);
      CHECK(index.emplace(n, i).second, n << " has two numbers");
      number.push_back(n);
    }
  }
  const Proposition& prop(size_t i) const { return b->props[w.bit_of.at(number[i])]; }
};

void Compare(const Fixture& f, const StateIndex& si, size_t i) {
  CHECK(Bridge::Name(si.GetProposition(i)) == f.number[i], "proposition " << i);
  CHECK(si.GetPropositionIndex(f.prop(i)) == i, "index of " << f.number[i]);
}

void Bijection(const Fixture& f, const StateIndex& si, const char* what) {
  CHECK(si.size() == f.w.bits(), what << ": size");
  for (size_t i = 0; i < si.size(); i++) {
    const Proposition p = si.GetProposition(i);
    CHECK(Bridge::Name(p) == f.number[i], what << ": number " << i << " is " << p.to_string());
    CHECK(si.GetPropositionIndex(p) == i, what << ": index of its own " << p.to_string());
    CHECK(si.GetPropositionIndex(f.prop(i)) == i, what << ": index of " << p.to_string());
    CHECK(p == f.prop(i) && p.hash() == f.prop(i).hash(), what << ": equal proposition");
    R.states++;
  }
  size_t n = 0;
  for (const Proposition& p : si) {
    CHECK(n < si.size() && Bridge::Name(p) == f.number[n], what << ": iteration at " << n);
    n++;
  }
  CHECK(n == si.size(), what << ": iteration length " << n);
  auto it = si.end();
  while (it != si.begin()) {
    --it;
    n--;
    CHECK(Bridge::Name(*it) == f.number[n], what << ": backward iteration");
    CHECK(it->name() == it->name() && it - si.begin() == static_cast<long>(n), what);
  }
  for (size_t i = 0; i < si.size(); i++) {
    CHECK(Bridge::Name(si.begin()[static_cast<long>(i)]) == f.number[i], what << ": begin()[i]");
    const auto j = si.begin() + static_cast<long>(i);
    CHECK(Bridge::Name(*j) == f.number[i], what << ": begin()+i");
    CHECK(si.end() - j == static_cast<long>(si.size() - i), what << ": distance");
  }
}

// Iterators of one index: every sequence of moves, looks and copies.
struct Walker {
  StateIndex::iterator it;
  long pos;
};
void Look(const Fixture& f, const Walker& w, bool arrow, const std::string& hist) {
  if (w.pos < 0 || w.pos >= static_cast<long>(f.number.size())) return;
  const std::string got = arrow ? Bridge::Name(*w.it.operator->()) : Bridge::Name(*w.it);
  CHECK(got == f.number[static_cast<size_t>(w.pos)], "iterator at " << w.pos << " after " << hist << ": " << got);
}
constexpr int kMoves = 13;
const char* const kMoveNames[kMoves] = {"++", "--", "post++", "post--", "+=2", "-=2", "+3", "2+", "-1",
                                        "*", "->", "copy", "[]"};
void Step(const Fixture& f, const StateIndex& si, int move, Walker* a, Walker* b, const std::string& hist) {
  const long n = static_cast<long>(si.size());
  auto to = [&](long d) { return a->pos + d >= -1 && a->pos + d <= n; };  // one beyond either end
  switch (move) {
    case 0:
      if (to(1)) ++a->it, a->pos++;
      break;
    case 1:
      if (to(-1)) --a->it, a->pos--;
      break;
    case 2:
      if (to(1)) {
        const Walker old{a->it++, a->pos++};
        Look(f, old, false, hist + "(old value)");
      }
      break;
    case 3:
      if (to(-1)) {
        const Walker old{a->it--, a->pos--};
        Look(f, old, true, hist + "(old value)");
      }
      break;
    case 4:
      if (to(2)) a->it += 2, a->pos += 2;
      break;
    case 5:
      if (to(-2)) a->it -= 2, a->pos -= 2;
      break;
    case 6:
      if (to(3)) a->it = a->it + 3, a->pos += 3;
      break;
    case 7:
      if (to(2)) a->it = 2 + a->it, a->pos += 2;
      break;
    case 8:
      if (to(-1)) a->it = a->it - 1, a->pos--;
      break;
    case 9:
    case 10:
      Look(f, *a, move == 10, hist);
      break;
    case 11:
      *b = *a;
      break;
    default:
      for (long d : {-2l, 0l, 1l}) {
        const long q = a->pos + d;
        if (q >= 0 && q < n) CHECK(Bridge::Name(a->it[d]) == f.number[static_cast<size_t>(q)], "[] after " << hist);
      }
  }
}
void Iterators(const Fixture& f, const StateIndex& si, int length, bool two) {
  const int kinds = two ? 2 * kMoves : kMoves;
  long total = 1;
  for (int i = 0; i < length; i++) total *= kinds;
  for (long start : {0l, static_cast<long>(si.size())}) {
    for (long c = 0; c < total; c++) {
      Walker a{start == 0 ? si.begin() : si.end(), start};
      Walker b{si.begin(), 0};
      std::string hist = start == 0 ? "begin " : "end ";
      long x = c;
      for (int i = 0; i < length; i++, x /= kinds) {
        const int m = static_cast<int>(x % kinds);
        hist += std::string(m >= kMoves ? "b:" : "a:") + kMoveNames[m % kMoves] + " ";
        if (m < kMoves) {
          Step(f, si, m, &a, &b, hist);
        } else {
          Step(f, si, m - kMoves, &b, &a, hist);
        }
      }
      CHECK(a.it - b.it == a.pos - b.pos && (a.it == b.it) == (a.pos == b.pos) && (a.it != b.it) == (a.pos != b.pos) &&
                (a.it < b.it) == (a.pos < b.pos) && (a.it > b.it) == (a.pos > b.pos) &&
                (a.it <= b.it) == (a.pos <= b.pos) && (a.it >= b.it) == (a.pos >= b.pos),
            "comparisons after " << hist);
      Look(f, a, c % 2 == 0, hist);
      Look(f, b, c % 2 == 1, hist);
      Look(f, a, c % 2 == 1, hist);
      R.transitions++;
    }
  }
}

void RoundTrip(const Fixture& f, const StateIndex& si, Mask m) {
  const State s = f.b->state(m);
  const StateIndex::IndexedState v = si.GetIndexedState(s);
  CHECK(static_cast<size_t>(v.size()) == si.size(), "vector size");
  for (size_t i = 0; i < si.size(); i++) {
    const bool want = (m >> f.w.bit_of.at(f.number[i]) & 1) != 0;
    CHECK(v(static_cast<long>(i)) == want, "entry " << i << " of " << f.w.show(m));
  }
  const State t = si.GetState(v);
  CHECK(t == s && f.b->mask(t) == m, "round trip of " << f.w.show(m) << " gives " << Bridge::Show(t));
  CHECK(f.b->mask(s) == m, "state changed");
  const StateIndex::IndexedState v2 = si.GetIndexedState(t);
  CHECK((v2 == v).all(), "second round trip");
  R.transitions++;
}

void All(const ref::Dom& dom) {
  auto f = std::make_shared<std::unique_ptr<Fixture>>();
  auto fix = [f, &dom]() -> Fixture& {
    if (!*f) *f = std::make_unique<Fixture>(dom);
    return **f;
  };
  R.kase([&] { return "domain " + dom.name + ": bijection with and without caching"; },
         [&] {
           Fixture& x = fix();
           Bijection(x, x.pddl->state_index(), "the problem's index");
           const StateIndex cached(x.pddl->predicates(), true);
           const StateIndex plain(x.pddl->predicates(), false);
           Bijection(x, cached, "cached");
           Bijection(x, cached, "cached, again");
           Bijection(x, plain, "uncached");
           StateIndex copy(cached);
           Bijection(x, copy, "copy");
           copy = plain;
           Bijection(x, copy, "assigned");
           StateIndex moved(std::move(copy));
           Bijection(x, moved, "moved");
           CHECK(&moved.pddl() == x.pddl.get(), "pddl()");
           {
             // an index outlives the predicate list it was made from
             auto preds = std::make_unique<std::vector<Predicate>>(x.pddl->predicates());
             const StateIndex own(*preds);
             preds.reset();
             Bijection(x, own, "own predicates");
           }
           R.traces += 8;
         });
  for (bool cache : {true, false}) {
    R.kase([&] { return "domain " + dom.name + ": iterators, " + (cache ? "cached" : "uncached"); },
           [&] {
             Fixture& x = fix();
             const StateIndex si(x.pddl->predicates(), cache);
             Iterators(x, si, R.thorough ? 5 : 4, false);
             Iterators(x, si, R.thorough ? 4 : 3, true);
             R.traces++;
           });
  }
  for (int part = 0; part < 8; part++) {
    R.kase([&] { return "domain " + dom.name + ": round trips of all states, part " +
                        std::to_string(part); },
           [&] {
             Fixture& x = fix();
             const StateIndex cached(x.pddl->predicates(), true);
             const StateIndex plain(x.pddl->predicates(), false);
             const size_t nb = std::min<size_t>(x.w.bits(), R.thorough ? 14 : 11);
             for (Mask m = part; m < (Mask(1) << nb); m += 8) {
               // spread over all bits when there are more than enumerated
               RoundTrip(x, cached, m);
               RoundTrip(x, plain, m);
               RoundTrip(x, x.pddl->state_index(), ~m & x.w.full());
             }
             R.traces++;
           });
  }
  // Lookup histories: every sequence of queries on a fresh index.
  const int depth = R.thorough ? 5 : 4;
  for (int first = 0; first < 12; first++) {
    R.kase([&] { return "domain " + dom.name + ": query histories of length " +
                        std::to_string(depth) + ", first query " + std::to_string(first); },
           [&] {
             Fixture& x = fix();
             const size_t n = x.w.bits();
             if (n == 0) return;
             // queries: proposition of i, index of i (i over a spread), states
             std::vector<size_t> is = {0, n - 1, n / 2, n / 3};
             auto query = [&](const StateIndex& si, int q) {
               if (q < 4) {
                 CHECK(Bridge::Name(si.GetProposition(is[q])) == x.number[is[q]], "proposition " << is[q]);
               } else if (q < 8) {
                 CHECK(si.GetPropositionIndex(x.prop(is[q - 4])) == is[q - 4],
                       "index of " << x.number[is[q - 4]]);
               } else if (q == 8) {
                 RoundTrip(x, si, x.w.full());
               } else if (q == 9) {
                 RoundTrip(x, si, Mask(1) << x.w.bit_of.at(x.number[n / 2]));
               } else if (q == 10) {
                 StateIndex copy(si);
                 for (size_t i : is) Compare(x, copy, i);
               } else {
                 size_t k = 0;
                 for (const Proposition& p : si) {
                   CHECK(Bridge::Name(p) == x.number[k], "iteration");
                   k++;
                 }
               }
             };
             int total = 1;
             for (int i = 1; i < depth; i++) total *= 12;
             for (int c = 0; c < total; c++) {
               for (bool cache : {true, false}) {
                 const StateIndex si(x.pddl->predicates(), cache);
                 query(si, first);
                 int y = c;
                 for (int i = 1; i < depth; i++, y /= 12) query(si, y % 12);
                 for (size_t i : is) Compare(x, si, i);
                 R.transitions++;
               }
             }
             R.traces++;
           });
  }
}

// Hundreds of propositions: many predicates of up to four arguments.  States
// are described by sets of names.
void Large(const char* name, ref::Dom d, size_t step) {
  d.name = name;
  auto names = [d] {
    std::set<std::string> all;
    for (const auto& p : d.preds) {
      std::vector<std::vector<std::string>> rows = {{}};
      for (const auto& v : p.params) {
        std::vector<std::vector<std::string>> next;
        for (const auto& r : rows) {
          for (const auto* list : {&d.consts, &d.objs}) {
            for (const auto& o : *list) {
              if (v.second != "" && o.second != v.second) continue;
              next.push_back(r);
              next.back().push_back(o.first);
            }
          }
        }
        rows = next;
      }
      for (const auto& r : rows) all.insert(ref::ground_name(p.name, r));
    }
    return all;
  };
  for (int part = 0; part < 16; part++) {
    R.kase([&] { return std::string("large domain ") + name + ", part " + std::to_string(part); },
           [&] {
             const std::set<std::string> want = names();
             auto pddl = Load(d);
             std::vector<std::string> number;
             std::vector<Proposition> props;
             const StateIndex cached(pddl->predicates(), true), plain(pddl->predicates(), false);
             CHECK(cached.size() == want.size() && plain.size() == want.size() &&
                       pddl->state_index().size() == want.size(),
                   "size " << cached.size() << " want " << want.size());
             std::set<std::string> seen;
             for (size_t i = 0; i < want.size(); i++) {
               const Proposition p = plain.GetProposition(i);
               const std::string n = p.to_string();
               CHECK(want.count(n) && seen.insert(n).second, "number " << i << " is " << n);
               const Proposition q(*pddl, n);
               for (const StateIndex* si : {&cached, &plain, &pddl->state_index()}) {
                 CHECK(si->GetProposition(i) == q, "proposition " << i);
                 CHECK(si->GetPropositionIndex(q) == i, "index of " << n);
               }
               number.push_back(n);
               props.push_back(q);
               R.transitions++;
             }
             size_t n = 0;
             for (const Proposition& p : plain) {
               CHECK(n < number.size() && p.to_string() == number[n], "iteration at " << n);
               n++;
             }
             CHECK(n == number.size(), "iteration ends at " << n);
             auto round = [&](const StateIndex& si, const std::vector<char>& in, const std::string& what) {
               State s;
               for (size_t i = 0; i < props.size(); i++) {
                 if (in[i]) s.insert(props[i]);
               }
               const auto v = si.GetIndexedState(s);
               CHECK(static_cast<size_t>(v.size()) == props.size(), "vector size");
               for (size_t i = 0; i < props.size(); i++) {
                 CHECK(v(static_cast<long>(i)) == (in[i] != 0), "entry " << i << " of " << what);
               }
               const State t = si.GetState(v);
               CHECK(t == s && t.size() == s.size(), "round trip of " << what);
               for (size_t i = 0; i < props.size(); i++) {
                 CHECK(t.contains(props[i]) == (in[i] != 0), props[i].to_string() << " after the round trip of " << what);
               }
               R.states++;
             };
             for (size_t i = static_cast<size_t>(part); i < props.size(); i += 16) {
               std::vector<char> in(props.size(), 0);
               in[i] = 1;
               round(plain, in, "only " + number[i]);
               for (size_t j = i % step; j < props.size(); j += step) {
                 in.assign(props.size(), 0);
                 in[i] = in[j] = 1;
                 round(cached, in, number[i] + " and " + number[j]);
               }
               in.assign(props.size(), 1);
               in[i] = 0;
               round(cached, in, "all but " + number[i]);
               // every multiple of i + 1
               in.assign(props.size(), 0);
               for (size_t j = 0; j < props.size(); j += i + 1) in[j] = 1;
               round(pddl->state_index(), in, "every " + std::to_string(i + 1) + "th");
             }
             R.traces++;
           });
  }
}

}  // namespace

void H::Main() {
  const bool t = R.thorough;
  R.case_cpu_s = 200;
  std::vector<ref::Dom> doms = vocab::All();
  {
    // predicates without ground instances first, in the middle and last
    ref::Dom d = vocab::Hier();
    d.name = "gaps";
    d.preds = {{"no1", {{"x", "emp"}}}, {"in", {{"x", "mov"}}},       {"no2", {{"x", "mov"}, {"y", "emp"}}},
               {"w", {}},               {"v", {}},                     {"on", {{"x", "mov"}, {"y", "thr"}}},
               {"no3", {{"x", "emp"}}}};
    doms.push_back(d);
    d.name = "single";
    d.preds = {{"w", {}}};
    doms.push_back(d);
    // similar names: texts must not be confused
    d.name = "similar";
    d.types = {{"t", ""}};
    d.consts = {};
    d.objs = {{"a", "t"}, {"aa", "t"}, {"b", "t"}};
    d.preds = {{"p", {{"x", "t"}}}, {"pa", {{"x", "t"}}}, {"p2", {{"x", "t"}, {"y", "t"}}}, {"p2a", {}}};
    doms.push_back(d);
  }
  for (const ref::Dom& d : doms) All(*new ref::Dom(d));
  {
    ref::Dom d;
    d.types = {{"t", ""}, {"u", ""}};
    d.consts = {{"k", "u"}};
    d.objs = {{"a", "t"}, {"b", "t"}, {"c", "t"}, {"d", "u"}};
    d.preds = {{"four", {{"x", "t"}, {"y", "t"}, {"z", "t"}, {"w", "t"}}}, {"none", {}},
               {"three", {{"x", "t"}, {"y", "u"}, {"z", ""}}},  {"two", {{"x", "u"}, {"y", "u"}}},
               {"mix", {{"x", "u"}, {"y", "t"}, {"z", "u"}, {"w", "t"}}}};
    for (int i = 0; i < 10; i++) d.preds.push_back({"one" + std::to_string(i), {{"x", i % 2 ? "t" : "u"}}});
    Large("large", d, t ? 5 : 41);
    d.consts = {};
    d.objs = {{"a", "t"}, {"d", "u"}};
    d.preds.clear();
    for (int i = 0; i < 70; i++) d.preds.push_back({"p" + std::to_string(i), {}});
    Large("many predicates", d, t ? 3 : 11);
    for (int i = 0; i < 30; i++) d.preds[static_cast<size_t>(i)].params = {{"x", i % 3 ? "t" : ""}};
    for (int i = 0; i < 40; i++) d.objs.push_back({"o" + std::to_string(i), i % 4 ? "t" : "u"});
    Large("many objects", d, t ? 41 : 401);
  }
}
