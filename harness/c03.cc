// C03: a partial state is a consistent three-valued assignment.
#include "pool.h"

namespace {
using namespace H;

// 0 unknown, 1 true, 2 false
using Model = std::vector<int>;

void Verify(const PartialState& s, const std::vector<Proposition>& el, const Model& m) {
  size_t npos = 0, nneg = 0;
  for (size_t i = 0; i < el.size(); i++) {
    npos += m[i] == 1;
    nneg += m[i] == 2;
    CHECK(s.pos().contains(el[i]) == (m[i] == 1), "known true: " << el[i].to_string());
    CHECK(s.neg().contains(el[i]) == (m[i] == 2), "known false: " << el[i].to_string());
    const symbolic::PropositionRef ref(&el[i].name(), &el[i].arguments(),
                                       std::hash<std::string>{}(el[i].name()));
    for (int k = 0; k < 4; k++) {
      const symbolic::PropositionBase& q =
          k % 2 ? static_cast<const symbolic::PropositionBase&>(ref) : el[i];
      std::string named;
      int got = -1;
      try {
        got = k < 2 ? s.contains(q) : s.does_not_contain(q);
      } catch (const PartialState::UnknownEvaluation& e) {
        named = Bridge::Name(e.proposition());
        CHECK(e.what() == named, "error text " << e.what());
      }
      if (m[i] == 0) {
        CHECK(got == -1, "unknown proposition answered: " << el[i].to_string());
        CHECK(named == el[i].to_string(), "error names " << named);
      } else {
        CHECK(got == ((k < 2) == (m[i] == 1)), "value of " << el[i].to_string());
      }
    }
  }
  CHECK(s.pos().size() == npos && s.neg().size() == nneg, "sizes");
  CHECK(s.size() == npos + nneg && s.empty() == (npos + nneg == 0), "size");
  CHECK(s.IsConsistent(), "reported inconsistent");
  const auto str = s.Stringify();
  CHECK(str.first == s.pos().Stringify() && str.second == s.neg().Stringify(), "Stringify");
  size_t n = 0;
  for (const Proposition& p : s.pos()) {
    CHECK(!s.neg().contains(p), "both true and false: " << p.to_string());
    n++;
  }
  CHECK(n == npos, "members");
}

constexpr int kVariants = 6;
int Apply(const Pool& pool, const std::vector<Proposition>& el, int i, bool assert_it, int v,
          PartialState* s) {
  const Proposition& p = el[i];
  const symbolic::PropositionRef ref(&p.name(), &p.arguments(), std::hash<std::string>{}(p.name()));
  // A reference to the element inside the set it may have to leave.
  auto inside = [&](State& st) -> const Proposition* {
    for (const Proposition& q : st) {
      if (q == p) return &q;
    }
    return nullptr;
  };
  if (assert_it) {
    switch (v) {
      case 0:
        return s->insert(p);
      case 1:
        return s->insert(Proposition(p));
      case 2:
        return s->insert(static_cast<const symbolic::PropositionBase&>(ref));
      case 3:
        return s->emplace(p.name(), p.arguments());
      case 4:
        return s->emplace(*pool.pddl, p.to_string());
      default: {
        const Proposition* q = inside(s->neg());
        if (q == nullptr) q = inside(s->pos());
        return s->insert(q != nullptr ? *q : p);
      }
    }
  }
  switch (v) {
    case 0:
    case 3:
      return s->erase(p);
    case 1:
      return s->erase(Proposition(p));
    case 2:
      return s->erase(static_cast<const symbolic::PropositionBase&>(ref));
    case 4:
      return s->erase(Proposition(*pool.pddl, p.to_string()));
    default: {
      const Proposition* q = inside(s->pos());
      if (q == nullptr) q = inside(s->neg());
      return s->erase(q != nullptr ? *q : p);
    }
  }
}

void Step(const Pool& pool, const std::vector<Proposition>& el, int i, bool assert_it, int v,
          PartialState* s, Model* m) {
  const PartialState before(*s);
  const Model before_m(*m);
  const int got = Apply(pool, el, i, assert_it, v, s);
  const int val = assert_it ? 1 : 2;
  const int want = (*m)[i] == val ? 0 : (*m)[i] == 0 ? 1 : 2;
  (*m)[i] = val;
  R.transitions++;
  CHECK(got == want, (assert_it ? "assert " : "deny ") << el[i].to_string() << " reports " << got);
  Verify(*s, el, *m);
  Verify(before, el, before_m);
}

void FromEveryAssignment(const Pool& pool, const std::vector<Proposition>& el, const char* tag) {
  const int n = static_cast<int>(el.size());
  int total = 1;
  for (int i = 0; i < n; i++) total *= 3;
  const int chunk = 27;
  for (int c0 = 0; c0 < total; c0 += chunk) {
    R.kase([&] { return std::string(tag) + ": every operation in the assignments " +
                        std::to_string(c0) + ".. of " + std::to_string(n) + " propositions"; },
           [&] {
             for (int c = c0; c < std::min(total, c0 + chunk); c++) {
               State pos, neg;
               Model m(n, 0);
               int x = c;
               for (int i = 0; i < n; i++, x /= 3) {
                 m[i] = x % 3;
                 if (m[i] == 1) pos.insert(el[i]);
                 if (m[i] == 2) neg.insert(el[i]);
               }
               const PartialState s(pos, neg);
               Verify(s, el, m);
               Verify(PartialState(State(pos), State(neg)), el, m);
               Verify(PartialState(*pool.pddl, pos.Stringify(), neg.Stringify()), el, m);
               R.states++;
               for (int i = 0; i < n; i++) {
                 for (int a = 0; a < 2; a++) {
                   for (int v = 0; v < kVariants; v++) {
                     PartialState t(s);
                     Model mt(m);
                     Step(pool, el, i, a == 0, v, &t, &mt);
                     // and once more with another element
                     const int j = (i + 1 + v) % n;
                     Step(pool, el, j, a != 0, (v + 1) % kVariants, &t, &mt);
                   }
                 }
               }
               Verify(s, el, m);
             }
           });
  }
}

void Sequences(const Pool& pool, const std::vector<Proposition>& el, int len) {
  const int n = static_cast<int>(el.size());
  for (int a0 = 0; a0 < 2 * n; a0++) {
    for (int a1 = 0; a1 < 2 * n; a1++) {
      R.kase([&] { return "all sequences of length " + std::to_string(len) + " over " +
                          std::to_string(n) + " propositions, first operations " +
                          std::to_string(a0) + "," + std::to_string(a1); },
             [&] {
               std::vector<int> seq;
               std::function<void(const PartialState&, const Model&)> go =
                   [&](const PartialState& s, const Model& m) {
                     if (static_cast<int>(seq.size()) == len) {
                       R.traces++;
                       return;
                     }
                     for (int a = 0; a < 2 * n; a++) {
                       if (seq.size() == 0 && a != a0) continue;
                       if (seq.size() == 1 && a != a1) continue;
                       PartialState t(s);
                       Model mt(m);
                       seq.push_back(a);
                       R.states++;
                       try {
                         Step(pool, el, a % n, a < n, static_cast<int>(seq.size() + a) % kVariants,
                              &t, &mt);
                       } catch (const Failure& f) {
                         std::string o;
                         for (int x : seq) o += (x < n ? " +" : " -") + el[x % n].to_string();
                         throw Failure(f.key, o + ": " + f.what());
                       }
                       go(t, mt);
                       seq.pop_back();
                     }
                   };
               go(PartialState(), Model(n, 0));
             });
    }
  }
}

void Long(const Pool& pool, int n, size_t collide) {
  const std::vector<Proposition> el = pool.pick(n, collide, 3255);
  for (int stride : {1, 3, 7, 11}) {
    for (int mode = 0; mode < 4; mode++) {
      R.kase([&] { return "long history over " + std::to_string(n) + " propositions, stride " +
                          std::to_string(stride) + " mode " + std::to_string(mode); },
             [&] {
               PartialState s;
               Model m(n, 0);
               for (int round = 0; round < 3; round++) {
                 for (int k = 0; k < n; k++) {
                   const int i = (k * stride + round) % n;
                   const bool a = mode == 0   ? round % 2 == 0
                                  : mode == 1 ? (k + round) % 2 == 0
                                  : mode == 2 ? round % 2 == 1
                                              : (k / 3 + round) % 2 == 0;
                   Step(pool, el, i, a, (k + round) % kVariants, &s, &m);
                   R.states++;
                 }
               }
               R.traces++;
             });
    }
  }
}

}  // namespace

void H::Main() {
  const Pool pool;
  const bool t = R.thorough;
  FromEveryAssignment(pool, pool.pick(t ? 8 : 6, 3, 3255), "partly colliding");
  FromEveryAssignment(pool, pool.pick(t ? 8 : 6, 0, 3255), "not colliding");
  FromEveryAssignment(pool, pool.twins(t ? 7 : 5), "equal hashes");
  Sequences(pool, pool.pick(3, 2, 3255), t ? 8 : 6);
  Sequences(pool, pool.pick(4, 0, 3255), t ? 7 : 5);
  Long(pool, 20, 0);
  Long(pool, 34, 6);
}
