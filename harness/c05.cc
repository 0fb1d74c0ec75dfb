// C05: parameters range over exactly the well-typed argument tuples.
#include "bridge.h"
#include "vocab.h"

namespace {
using namespace H;
using Tuple = std::vector<std::string>;

std::string Show(const Tuple& t) {
  std::string o = "(";
  for (const auto& x : t) o += x + " ";
  return o + ")";
}
Tuple Names(const std::vector<Object>& v) {
  Tuple t;
  for (const Object& o : v) t.push_back(o.name());
  return t;
}

// What the generator yields must be `want`, in whatever fixed order.
std::vector<Tuple> Verify(const ParameterGenerator& gen, const std::set<Tuple>& want,
                          const std::string& what) {
  std::vector<Tuple> got;
  CHECK(gen.size() == want.size(), what << ": size " << gen.size() << " want " << want.size());
  CHECK(gen.empty() == want.empty(), what << ": empty");
  std::set<Tuple> seen;
  for (const std::vector<Object>& args : gen) {
    const Tuple t = Names(args);
    CHECK(want.count(t) > 0, what << ": yields " << Show(t));
    CHECK(seen.insert(t).second, what << ": yields twice " << Show(t));
    CHECK(gen.find(args) == static_cast<int>(got.size()), what << ": find " << Show(t));
    CHECK(Names(gen[static_cast<int>(got.size())]) == t, what << ": [] " << Show(t));
    CHECK(Names(gen.at(static_cast<int>(got.size()))) == t, what << ": at " << Show(t));
    got.push_back(t);
    R.transitions++;
  }
  CHECK(got.size() == want.size(), what << ": yields only " << got.size());
  for (size_t i = got.size(); i-- > 0;) {
    CHECK(Names(gen.at(static_cast<int>(i) - static_cast<int>(got.size()))) == got[i], what);
  }
  std::vector<Tuple> back;
  for (auto it = gen.rbegin(); it != gen.rend(); ++it) back.push_back(Names(*it));
  std::reverse(back.begin(), back.end());
  CHECK(back == got, what << ": backwards");
  for (int i : {static_cast<int>(got.size()), -1 - static_cast<int>(got.size())}) {
    CHECK(Throws([&] { gen.at(i); }), what << ": no error for index " << i);
  }
  return got;
}

std::set<Tuple> Want(const ref::World& w, const ref::Vars& params) {
  std::set<Tuple> s;
  for (const auto& t : w.tuples(w.ranges(params))) {
    Tuple n;
    for (int i : t) n.push_back(w.obj[static_cast<size_t>(i)]);
    s.insert(n);
  }
  return s;
}

void Actions(ref::Dom d, const std::vector<ref::Vars>& lists);

// All lists of parameter types up to a length, as actions of one domain.
void Lists(const ref::Dom& d, int maxlen) {
  const std::vector<ref::Str> types = vocab::Types(d);
  std::vector<ref::Vars> lists = {{}};
  for (size_t i = 0; i < lists.size(); i++) {
    if (static_cast<int>(lists[i].size()) == maxlen) break;
    for (const auto& t : types) {
      ref::Vars v = lists[i];
      v.push_back({"v" + std::to_string(v.size()), t});
      lists.push_back(v);
    }
  }
  Actions(d, lists);
}

// Many objects of one type, many types, long chains of types, and lists of up
// to seven parameters.
void Many() {
  ref::Dom d;
  d.name = "many";
  d.types = {{"t", ""}, {"u", ""}, {"d0", ""}};
  for (int i = 1; i < 8; i++) d.types.push_back({"d" + std::to_string(i), "d" + std::to_string(i - 1)});
  for (int i = 0; i < 12; i++) d.types.push_back({"w" + std::to_string(i), "d0"});
  for (int i = 0; i < 4; i++) d.consts.push_back({"k" + std::to_string(i), "t"});
  for (int i = 0; i < 11; i++) d.objs.push_back({"a" + std::to_string(i), "t"});
  d.objs.push_back({"c0", "u"});
  d.objs.push_back({"c1", "u"});
  for (int i = 7; i >= 0; i--) d.objs.push_back({"e" + std::to_string(i), "d" + std::to_string(i)});
  for (int i = 0; i < 12; i += 3) d.objs.push_back({"f" + std::to_string(i), "w" + std::to_string(i)});
  d.preds = {{"p0", {}}, {"p", {{"x", ""}}}};
  std::vector<ref::Vars> lists;
  auto add = [&](const std::vector<std::string>& types) {
    ref::Vars v;
    for (const auto& t : types) v.push_back({"v" + std::to_string(v.size()), t});
    lists.push_back(v);
  };
  for (const auto& t : vocab::Types(d)) add({t});
  add({"t", "t"});
  add({"u", "t"});
  add({"d0", "t"});
  add({"", ""});
  add({"t", "u", "t"});
  add({"d4", "d5", "d6"});
  for (int n = 4; n <= 7; n++) add(std::vector<std::string>(static_cast<size_t>(n), "u"));
  add({"u", "t", "u", "u"});
  add({"d5", "u", "d6", "d7", "u"});
  add({"d7", "d6", "d5", "d4", "u", "u"});
  add({"u", "d7", "u", "d7", "u", "d7", "u"});
  add({"d3", "u", "w1", "u"});
  add({"u", "u", "w0", "u", "w3", "u"});
  Actions(d, lists);
}

void Actions(ref::Dom d, const std::vector<ref::Vars>& lists) {
  for (size_t i = 0; i < lists.size(); i++) {
    ref::Op op;
    op.name = "act" + std::to_string(i);
    op.params = lists[i];
    d.actions.push_back(op);
  }
  std::unique_ptr<ref::World> w;
  std::unique_ptr<Pddl> pddl;
  for (size_t i = 0; i < lists.size(); i++) {
    R.kase(
        [&] {
          return "domain " + d.name + ", " + ref::text(d.actions[i]);
        },
        [&] {
          if (!pddl) {
            w = std::make_unique<ref::World>(d);
            pddl = Load(d);
          }
          CHECK(pddl->actions().size() == lists.size(), "number of actions");
          const Action& a = pddl->actions()[i];
          const std::set<Tuple> want = Want(*w, lists[i]);
          R.states++;
          const auto order = Verify(a.parameter_generator(), want, "the action's generator");
          ParameterGenerator g(*pddl, a.parameters());
          CHECK(Verify(g, want, "a new generator") == order, "order");
          CHECK(&g.pddl() == pddl.get(), "pddl()");
          const Action copy(a);
          Verify(copy.parameter_generator(), want, "a copied action's generator");
          const Action named(*pddl, d.actions[i].name);
          Verify(named.parameter_generator(), want, "a named action's generator");
          R.traces++;
        });
  }
  for (size_t i = 0; i < d.preds.size(); i++) {
    R.kase([&] { return "domain " + d.name + ", predicate " + d.preds[i].name; },
           [&] {
             ref::World ww(d);
             auto p = Load(d);
             const std::set<Tuple> want = Want(ww, d.preds[i].params);
             Verify(p->predicates()[i].parameter_generator(), want, "predicate generator");
             const Predicate copy(p->predicates()[i]);
             Verify(copy.parameter_generator(), want, "copied predicate generator");
             R.states++;
           });
  }
}

// All histories of copies, moves, assignments and destructions over three
// generators held on the heap.
void Lifetimes(const ref::Dom& base, const std::vector<ref::Vars>& lists, int depth) {
  ref::Dom d = base;
  for (size_t i = 0; i < lists.size(); i++) {
    ref::Op op;
    op.name = "act" + std::to_string(i);
    op.params = lists[i];
    d.actions.push_back(op);
  }
  const int kSlots = 3;
  const int kOps = 6;
  const int nops = kOps * kSlots * kSlots;
  static const char* names[] = {"copy-construct", "move-construct", "copy-assign", "move-assign",
                                "via a copied iteration", "destroy"};
  for (int first = 0; first < nops; first++) {
    R.kase([&] { return "domain " + d.name + ": generator histories of length " +
                        std::to_string(depth) + " starting with " + names[first / 9] + " " +
                        std::to_string(first / 3 % 3) + "<-" + std::to_string(first % 3); },
           [&] {
             const ref::World w(d);
             auto pddl = Load(d);
             std::vector<std::set<Tuple>> want;
             std::vector<std::vector<Tuple>> order;
             for (size_t i = 0; i < lists.size(); i++) {
               want.push_back(Want(w, lists[i]));
               order.push_back(Verify(pddl->actions()[i].parameter_generator(), want[i], "first"));
             }
             // slot -> which list it stands for; -1 destroyed, -2 moved from
             std::vector<int> seq;
             std::function<void(int)> go = [&](int left) {
               // rebuild from scratch by replaying the history
               for (int op = 0; op < nops; op++) {
                 if (seq.empty() && op != first) continue;
                 seq.push_back(op);
                 std::unique_ptr<ParameterGenerator> slot[kSlots];
                 int is[kSlots];
                 for (int i = 0; i < kSlots; i++) {
                   const int l = i % static_cast<int>(lists.size());
                   slot[i] = std::make_unique<ParameterGenerator>(*pddl, pddl->actions()[l].parameters());
                   is[i] = l;
                 }
                 bool legal = true;
                 for (int o : seq) {
                   const int k = o / 9, to = o / 3 % 3, from = o % 3;
                   if (k == 5) {
                     if (from != 0 || !slot[to]) { legal = false; break; }
                     slot[to].reset();
                     is[to] = -1;
                     continue;
                   }
                   if (!slot[from] || is[from] < 0) { legal = false; break; }
                   if (to == from && k != 2) { legal = false; break; }
                   if (k >= 2 && k <= 3 && !slot[to]) { legal = false; break; }
                   switch (k) {
                     case 0:
                       slot[to] = std::make_unique<ParameterGenerator>(*slot[from]);
                       is[to] = is[from];
                       break;
                     case 1:
                       slot[to] = std::make_unique<ParameterGenerator>(std::move(*slot[from]));
                       is[to] = is[from];
                       is[from] = -2;
                       break;
                     case 2:
                       *slot[to] = *slot[from];
                       is[to] = is[from];
                       break;
                     case 3:
                       *slot[to] = std::move(*slot[from]);
                       is[to] = is[from];
                       is[from] = -2;
                       break;
                     default: {
                       // a copy made in the middle of an iteration
                       auto it = slot[from]->begin();
                       auto c = std::make_unique<ParameterGenerator>(*slot[from]);
                       size_t n = 0;
                       for (; it != slot[from]->end(); ++it, ++n) {
                         CHECK(Names(*it) == order[is[from]][n], "iteration during a copy");
                       }
                       slot[to] = std::move(c);
                       is[to] = is[from];
                     }
                   }
                 }
                 R.states++;
                 if (legal) {
                   std::string h;
                   for (int o : seq) {
                     h += std::string(names[o / 9]) + " " + std::to_string(o / 3 % 3) + "<-" +
                          std::to_string(o % 3) + "; ";
                   }
                   for (int i = 0; i < kSlots; i++) {
                     if (is[i] < 0) continue;
                     CHECK(Verify(*slot[i], want[is[i]], h) == order[is[i]], h << " order");
                     CHECK(&slot[i]->pddl() == pddl.get(), h << " pddl()");
                   }
                   R.traces++;
                   if (left > 1) go(left - 1);
                 }
                 seq.pop_back();
               }
             };
             go(depth);
           });
  }
}

}  // namespace

void H::Main() {
  const bool t = R.thorough;
  R.case_cpu_s = 120;
  for (const ref::Dom& d : vocab::All()) Lists(d, t ? 4 : 3);
  Many();
  Lifetimes(vocab::Hier(), {{}, {{"a", "emp"}}, {{"a", "mov"}, {"b", ""}}}, t ? 3 : 2);
  Lifetimes(vocab::Hier(), {{{"a", "phys"}}, {{"a", "thr"}, {"b", "mov"}}, {{"a", "mov"}, {"b", "emp"}}},
            t ? 3 : 2);
  Lifetimes(vocab::NoObjects(), {{}, {{"a", "t"}}, {{"a", ""}}}, t ? 3 : 2);
  Lifetimes(vocab::Three(), {{{"a", "t"}, {"b", "t"}}, {{"a", "t"}}, {}}, t ? 3 : 2);
}
