// C04: combination generators enumerate exactly the Cartesian product.
#include <deque>
#include <list>

#include "h.h"
#include "symbolic/utils/combination_generator.h"

namespace {
using namespace H;

template <typename V>
V Make(int option, int i);
template <>
int Make<int>(int option, int i) {
  return 100 * (option + 1) + i;
}
template <>
std::string Make<std::string>(int option, int i) {
  return "o" + std::to_string(option) + "e" + std::to_string(i);
}

template <typename V>
std::string Show(const std::vector<V>& c) {
  std::ostringstream o;
  o << "(";
  for (const auto& x : c) o << x << " ";
  o << ")";
  return o.str();
}

template <typename C>
struct Setup {
  using V = typename std::remove_const<C>::type::value_type;
  std::vector<typename std::remove_const<C>::type> store;
  std::vector<C*> options;
  std::vector<std::vector<V>> want;  // expected combinations in order

  explicit Setup(const std::vector<int>& shape, bool shared = false) {
    for (size_t i = 0; i < shape.size(); i++) {
      store.emplace_back();
      for (int k = 0; k < shape[i]; k++) {
        store.back().push_back(Make<V>(shared ? 0 : static_cast<int>(i), k));
      }
    }
    for (auto& s : store) options.push_back(&s);
    std::vector<int> c(shape.size(), 0);
    for (;;) {
      std::vector<V> v;
      for (size_t i = 0; i < shape.size(); i++) {
        v.push_back(Make<V>(shared ? 0 : static_cast<int>(i), c[i]));
      }
      want.push_back(v);
      size_t i = shape.size();
      for (;;) {
        if (i == 0) return;
        i--;
        if (++c[i] < shape[i]) break;
        c[i] = 0;
      }
    }
  }
};

std::string ShapeName(const std::vector<int>& s) {
  std::string o = "(";
  for (int x : s) o += std::to_string(x) + " ";
  return o + ")";
}

// Position `pos` of an iterator whose element i is expected to be want[i]
// (reversed for reverse iterators).
template <typename It, typename V>
void At(const It& it, long pos, const std::vector<std::vector<V>>& want, bool rev,
        const std::string& hist) {
  const long n = static_cast<long>(want.size());
  if (pos < 0 || pos >= n) return;
  const auto& w = want[static_cast<size_t>(rev ? n - 1 - pos : pos)];
  CHECK(*it == w, hist << " at position " << pos << " gives " << Show(*it) << " want " << Show(w));
  CHECK(*it.operator->() == w, "operator-> after " << hist);
}

struct Move {
  int kind;  // 0 ++x, 1 x++, 2 --x, 3 x--, 4 +=n, 5 -=n, 6 x = x+n, 7 x = n+x, 8 x = x-n, 9 copy
  long n;
};
std::string Show(const Move& m) {
  static const char* names[] = {"++it", "it++", "--it", "it--", "it+=", "it-=",
                                "it=it+", "it=n+it:", "it=it-", "copy"};
  return std::string(names[m.kind]) + (m.kind >= 4 && m.kind <= 8 ? std::to_string(m.n) : "") + "; ";
}
template <typename It>
long Do(const Move& m, It* it) {
  switch (m.kind) {
    case 0: {
      It& r = ++*it;
      CHECK(&r == it, "++it returns itself");
      return 1;
    }
    case 1: {
      const It old = *it;
      const It ret = (*it)++;
      CHECK(ret == old, "it++ returns the old position");
      return 1;
    }
    case 2:
      --*it;
      return -1;
    case 3: {
      const It old = *it;
      const It ret = (*it)--;
      CHECK(ret == old, "it-- returns the old position");
      return -1;
    }
    case 4:
      *it += m.n;
      return m.n;
    case 5:
      *it -= m.n;
      return -m.n;
    case 6:
      *it = *it + m.n;
      return m.n;
    case 7:
      *it = m.n + *it;
      return m.n;
    case 8:
      *it = *it - m.n;
      return -m.n;
    default: {
      It copy(*it);
      It other(copy);
      ++other;  // moving a copy has no effect on this one
      *it = copy;
      return 0;
    }
  }
}

std::vector<Move> Moves(long n, bool full) {
  std::vector<Move> m;
  for (int k = 0; k < 4; k++) m.push_back({k, 0});
  m.push_back({9, 0});
  for (long d = -(n + 2); d <= n + 2; d++) {
    m.push_back({4, d});
    if (full) {
      for (int k = 5; k <= 8; k++) m.push_back({k, d});
    }
  }
  return m;
}

// Explicit-state search over (position, stored combination).
template <typename It, typename Gen, typename V>
void Search(Gen& gen, const It& start, const It& first, const std::vector<std::vector<V>>& want,
            bool rev, bool full) {
  const long n = static_cast<long>(want.size());
  const std::vector<Move> moves = Moves(n, full);
  struct Node {
    It it;
    long pos;
    std::string hist;
  };
  std::set<std::pair<long, std::vector<V>>> seen;
  std::deque<Node> q;
  const long p0 = start - first;
  q.push_back({start, p0, ""});
  seen.insert({p0, *start});
  At(start, p0, want, rev, "start");
  while (!q.empty()) {
    const Node cur = q.front();
    q.pop_front();
    R.states++;
    for (const Move& m : moves) {
      It it(cur.it);
      const long pos = cur.pos + Do(m, &it);
      const std::string h = cur.hist + Show(m);
      R.transitions++;
      CHECK(it - first == pos, h << "distance " << (it - first) << " want " << pos);
      CHECK((it == first) == (pos == 0), h << "comparison with begin");
      At(it, pos, want, rev, h);
      CHECK(cur.it - first == cur.pos, "source iterator moved by " << Show(m));
      At(cur.it, cur.pos, want, rev, cur.hist + " then, on a copy, " + Show(m));
      CHECK((it < cur.it) == (pos < cur.pos), h << " <");
      CHECK((it > cur.it) == (pos > cur.pos), h << " >");
      CHECK((it <= cur.it) == (pos <= cur.pos), h << " <=");
      CHECK((it >= cur.it) == (pos >= cur.pos), h << " >=");
      CHECK((it != cur.it) == (pos != cur.pos), h << " !=");
      if (pos < -3 || pos > n + 2) continue;
      std::vector<V> stored = *it;
      if (seen.insert({pos, stored}).second) q.push_back({it, pos, h});
    }
    for (long k = -cur.pos; k < n - cur.pos; k++) {
      const std::vector<V> v = cur.it[k];
      const long p = cur.pos + k;
      CHECK(v == want[static_cast<size_t>(rev ? n - 1 - p : p)], cur.hist << "it[" << k << "]");
    }
  }
  R.traces += seen.size();
  R.extra["max_iterator_states"] = std::max<uint64_t>(R.extra["max_iterator_states"], seen.size());
}

// All move sequences up to a length, without merging states.
template <typename It, typename V>
void Sequences(const It& start, const It& first, const std::vector<std::vector<V>>& want, bool rev,
               int len) {
  const long n = static_cast<long>(want.size());
  std::vector<Move> moves = {{0, 0}, {2, 0}, {1, 0}, {3, 0}, {9, 0}, {4, n}, {4, -n}, {5, 2}, {6, 2}};
  std::function<void(const It&, long, int, const std::string&)> go = [&](const It& it0, long p0,
                                                                         int left,
                                                                         const std::string& h0) {
    if (left == 0) {
      R.traces++;
      return;
    }
    for (const Move& m : moves) {
      It it(it0);
      const long pos = p0 + Do(m, &it);
      const std::string h = h0 + Show(m);
      R.transitions++;
      CHECK(it - first == pos, h << "distance");
      At(it, pos, want, rev, h);
      go(it, pos, left - 1, h);
    }
  };
  go(start, start - first, len, "");
}

// Two iterators of one generator, moves interleaved in every order.
template <typename It, typename V>
void Pair(const It& b, const std::vector<std::vector<V>>& want, int len) {
  const long n = static_cast<long>(want.size());
  const std::vector<Move> moves = {{0, 0}, {3, 0}, {4, 2}, {4, -n}};
  std::function<void(It&, long, It&, long, int, const std::string&)> go =
      [&](It& x, long px, It& y, long py, int left, const std::string& h0) {
        if (left == 0) {
          R.traces++;
          return;
        }
        for (int who = 0; who < 2; who++) {
          for (const Move& m : moves) {
            It x2(x), y2(y);
            long qx = px, qy = py;
            (who == 0 ? qx : qy) += Do(m, who == 0 ? &x2 : &y2);
            const std::string h = h0 + (who == 0 ? "first " : "second ") + Show(m);
            R.transitions++;
            At(x2, qx, want, false, h);
            At(y2, qy, want, false, h);
            CHECK(x2 - y2 == qx - qy, h);
            CHECK((x2 == y2) == (qx == qy), h);
            go(x2, qx, y2, qy, left - 1, h);
          }
        }
      };
  It x(b), y(b);
  go(x, 0, y, 0, len, "");
}

template <typename C>
void Enumeration(const std::vector<int>& shape, const char* tag, bool shared) {
  using Gen = symbolic::CombinationGenerator<C>;
  R.kase([&] { return "enumeration over options of sizes " + ShapeName(shape) + " of " + tag; },
         [&] {
           Setup<C> s(shape, shared);
           Gen gen(s.options);
           const Gen& cgen = gen;
           const long n = static_cast<long>(s.want.size());
           CHECK(gen.size() == s.want.size(), "size " << gen.size());
           CHECK(gen.empty() == s.want.empty(), "empty");
           auto walk = [&](auto b, auto e, bool rev, const char* what) {
             std::vector<std::vector<typename Setup<C>::V>> got;
             for (auto it = b; it != e; ++it) {
               got.push_back(*it);
               CHECK(static_cast<long>(got.size()) <= n, what << ": too many");
             }
             if (rev) std::reverse(got.begin(), got.end());
             CHECK(got == s.want, what);
             got.clear();
             for (auto it = e; it != b;) {
               --it;
               got.push_back(*it);
               CHECK(static_cast<long>(got.size()) <= n, what << " backwards: too many");
             }
             if (!rev) std::reverse(got.begin(), got.end());
             CHECK(got == s.want, what << " backwards");
             CHECK(e - b == n && b - e == -n, what << " distance");
             R.traces++;
           };
           walk(gen.begin(), gen.end(), false, "begin/end");
           walk(cgen.begin(), cgen.end(), false, "const begin/end");
           walk(gen.cbegin(), gen.cend(), false, "cbegin/cend");
           walk(gen.rbegin(), gen.rend(), true, "rbegin/rend");
           walk(cgen.rbegin(), cgen.rend(), true, "const rbegin/rend");
           walk(gen.crbegin(), gen.crend(), true, "crbegin/crend");
           Gen copy(gen);
           walk(copy.begin(), copy.end(), false, "copy");
           Gen assigned;
           CHECK(assigned.size() == 0 && assigned.empty(), "default generator");
           assigned = gen;
           walk(assigned.begin(), assigned.end(), false, "assigned");
           for (long i = 0; i < n; i++) {
             CHECK(cgen[static_cast<int>(i)] == s.want[i], "[" << i << "]");
             CHECK(gen.find(s.want[i]) == i, "find " << Show(s.want[i]) << " = " << gen.find(s.want[i]));
             R.states++;
           }
           for (long i = -2 * n - 2; i <= 2 * n + 2; i++) {
             R.transitions++;
             bool threw = false;
             std::vector<typename Setup<C>::V> v;
             try {
               v = gen.at(static_cast<int>(i));
             } catch (const std::out_of_range&) {
               threw = true;
             }
             if (i >= n || i < -n) {
               CHECK(threw, "at(" << i << ") of " << n << " gives " << Show(v));
             } else {
               CHECK(!threw && v == s.want[static_cast<size_t>(i < 0 ? i + n : i)],
                     "at(" << i << ") gives " << (threw ? "an error" : Show(v)));
             }
           }
           // combinations with a foreign element are not found
           for (size_t k = 0; k < shape.size(); k++) {
             auto c = s.want[0];
             c[k] = Make<typename Setup<C>::V>(9, 9);
             bool threw = false;
             try {
               gen.find(c);
             } catch (const std::out_of_range&) {
               threw = true;
             }
             CHECK(threw, "found " << Show(c));
           }
         });
}

// Many combinations, many options, or long options: every combination as
// above, and the moves between all the positions next to a carry.
template <typename C>
void Large(const std::vector<int>& shape, const char* tag) {
  using Gen = symbolic::CombinationGenerator<C>;
  Enumeration<C>(shape, tag, false);
  R.kase([&] { return "jumps over options of sizes " + ShapeName(shape) + " of " + tag; },
         [&] {
           Setup<C> s(shape, false);
           Gen gen(s.options);
           const long n = static_cast<long>(s.want.size());
           std::set<long> at = {0, 1, n / 2, n - 1};
           long group = 1;
           for (size_t k = shape.size(); k-- > 0;) {
             for (long p : {group - 1, group, 2 * group, n - group, n - group - 1}) {
               if (p >= 0 && p < n) at.insert(p);
             }
             group *= shape[k];
           }
           auto all = [&](auto first, bool rev) {
             for (long p : at) {
               auto start = first;
               start += p;
               At(start, p, s.want, rev, "begin+" + std::to_string(p));
               for (long q : at) {
                 for (int kind = 4; kind <= 8; kind++) {
                   auto it = start;
                   const Move m = {kind, kind == 5 || kind == 8 ? p - q : q - p};
                   Do(m, &it);
                   const std::string h = "at " + std::to_string(p) + " " + Show(m);
                   CHECK(it - first == q && start - it == p - q, h << " distance");
                   CHECK((it < start) == (q < p) && (it == start) == (q == p), h << " comparison");
                   At(it, q, s.want, rev, h);
                   // One step further on either side.
                   auto up = it, down = it;
                   At(++up, q + 1, s.want, rev, h + "++it");
                   if (q > 0) At(--down, q - 1, s.want, rev, h + "--it");
                   R.transitions += 3;
                 }
                 CHECK(start[q - p] == s.want[static_cast<size_t>(rev ? n - 1 - q : q)], "it[" << q - p << "] at " << p);
               }
               R.states++;
             }
           };
           all(gen.begin(), false);
           all(gen.cbegin(), false);
           all(gen.rbegin(), true);
           all(gen.crbegin(), true);
           R.traces++;
         });
}

template <typename C>
void Shape(const std::vector<int>& shape, const char* tag, bool shared) {
  using Gen = symbolic::CombinationGenerator<C>;
  const bool t = R.thorough;
  auto name = [&](const char* what) {
    return std::string(what) + " over options of sizes " + ShapeName(shape) + " of " + tag;
  };
  Enumeration<C>(shape, tag, shared);
  R.kase([&] { return name("iterator states"); },
         [&] {
           Setup<C> s(shape, shared);
           Gen gen(s.options);
           const bool full = s.want.size() <= (t ? 36u : 16u);
           Search(gen, gen.begin(), gen.begin(), s.want, false, full);
           Search(gen, gen.end(), gen.begin(), s.want, false, full);
         });
  R.kase([&] { return name("reverse iterator states"); },
         [&] {
           Setup<C> s(shape, shared);
           Gen gen(s.options);
           const bool full = s.want.size() <= (t ? 36u : 12u);
           Search(gen, gen.rbegin(), gen.rbegin(), s.want, true, full);
           Search(gen, gen.rend(), gen.rbegin(), s.want, true, full);
         });
  R.kase([&] { return name("const iterator states"); },
         [&] {
           Setup<C> s(shape, shared);
           const Gen gen(s.options);
           Search(gen, gen.cbegin(), gen.cbegin(), s.want, false, false);
           Search(gen, gen.crend(), gen.crbegin(), s.want, true, false);
         });
  R.kase([&] { return name("all move sequences"); },
         [&] {
           Setup<C> s(shape, shared);
           Gen gen(s.options);
           Sequences(gen.begin(), gen.begin(), s.want, false, t ? 6 : 5);
           Sequences(gen.end(), gen.begin(), s.want, false, t ? 5 : 4);
           Sequences(gen.rbegin(), gen.rbegin(), s.want, true, t ? 5 : 4);
           Sequences(gen.rend(), gen.rbegin(), s.want, true, t ? 5 : 4);
         });
  R.kase([&] { return name("two iterators"); },
         [&] {
           Setup<C> s(shape, shared);
           Gen gen(s.options);
           Pair(gen.begin(), s.want, t ? 5 : 4);
         });
}

void Shapes(int k, int maxsize, long maxprod, std::vector<int>* cur,
            const std::function<void(const std::vector<int>&)>& fn) {
  fn(*cur);
  if (static_cast<int>(cur->size()) == k) return;
  for (int s = 1; s <= maxsize; s++) {
    long p = s;
    for (int x : *cur) p *= x;
    if (p > maxprod) continue;
    cur->push_back(s);
    Shapes(k, maxsize, maxprod, cur, fn);
    cur->pop_back();
  }
}

template <typename Fn>
bool Refused(Fn fn) {
  try {
    fn();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}

// A generator with an option list that offers nothing is refused.
void EmptyOptions(size_t max_len, int max_size) {
  R.kase([&] { return std::string("lists with an empty option"); }, [&] {
    std::vector<int> shape;
    std::function<void()> go = [&] {
      if (!shape.empty() && std::find(shape.begin(), shape.end(), 0) != shape.end()) {
        std::vector<std::vector<int>> v;
        for (int n : shape) v.emplace_back(n, 7);
        std::vector<const std::vector<int>*> o;
        std::vector<std::vector<int>*> m;
        for (auto& x : v) o.push_back(&x), m.push_back(&x);
        CHECK(Refused([&] { symbolic::CombinationGenerator<const std::vector<int>> g(o); }) &&
                  Refused([&] { symbolic::CombinationGenerator<std::vector<int>> g(m); }),
              "options of sizes " << ShapeName(shape) << " are accepted");
        R.states++;
      }
      if (shape.size() == max_len) return;
      for (int n = 0; n <= max_size; n++) {
        shape.push_back(n);
        go();
        shape.pop_back();
      }
    };
    go();
    R.traces++;
  });
}

}  // namespace

void H::Main() {
  EmptyOptions(R.thorough ? 6 : 5, 3);
  std::vector<int> cur;
  const bool t = R.thorough;
  R.case_cpu_s = t ? 200 : 60;
  Shapes(t ? 5 : 4, t ? 5 : 4, t ? 48 : 24, &cur, [&](const std::vector<int>& s) {
    Shape<const std::vector<int>>(s, "const vector<int>", false);
    if (s.size() <= 3) {
      Shape<std::vector<int>>(s, "vector<int>", false);
      Shape<const std::deque<std::string>>(s, "const deque<string>", true);
    }
  });
  const std::vector<std::vector<int>> large = {
      {6},       {12},      {40},         {300},           {2, 12},          {12, 2},         {5, 5, 5},
      {7, 1, 6}, {3, 11},   {11, 3, 2},   {17, 16},        {20, 20, 3},      {2, 2, 2, 2, 2}, {2, 2, 2, 2, 2, 2, 2, 2},
      {6, 5, 4, 3, 2},      {2, 3, 4, 5, 6}, {1, 3, 1, 2, 1, 3}, {3, 1, 1, 3, 1, 1, 3}, {3, 3, 3, 3, 3, 3}};
  for (const auto& s : large) {
    Large<const std::vector<int>>(s, "const vector<int>");
    if (s.size() < 4) Large<std::deque<std::string>>(s, "deque<string>");
  }
  Large<const std::vector<int>>({260, 253}, "const vector<int>");
  if (t) {
    Large<const std::vector<int>>({17, 17, 17, 17}, "const vector<int>");
    Large<std::vector<int>>(std::vector<int>(16, 2), "vector<int>");
    Large<const std::vector<int>>({3, 70000}, "const vector<int>");
  }
}
