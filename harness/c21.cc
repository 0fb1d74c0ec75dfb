// C21: problems built with the Python helper mean what they were told.
#include <poll.h>
#include <sys/wait.h>

#include "bridge.h"
#include "forms.h"
#include "VAL/ptree.h"

namespace {
using namespace H;
using forms::Setting;

// The real Python module, in a process of its own.
class Python {
 public:
  // Runs the statements; returns what they assign to `out`.
  std::string Run(const std::string& code, bool* error = nullptr) {
    if (pid_ == 0) Start();
    std::string line = code;
    for (char& c : line) {
      if (c == '\n') c = '\x1f';
    }
    line += "\n";
    size_t done = 0;
    while (done < line.size()) {
      const ssize_t n = write(to_, line.data() + done, line.size() - done);
      if (n <= 0) Die("cannot write", code);
      done += static_cast<size_t>(n);
    }
    const std::string head = Line(code);
    const size_t len = std::stoul(head.substr(head.find(' ') + 1));
    while (buf_.size() < len) Fill(code);
    const std::string out = buf_.substr(0, len);
    buf_.erase(0, len);
    const bool err = head.compare(0, 3, "err") == 0;
    if (error != nullptr) {
      *error = err;
    } else if (err) {
      FAIL("Python raised " << out << " in\n" << code);
    }
    return out;
  }

 private:
  void Start() {
    const char* repo = getenv("VERIF_REPO");
    std::string dir = __FILE__;
    dir = dir.substr(0, dir.rfind('/'));
    int in[2], out[2];
    if (pipe(in) != 0 || pipe(out) != 0) throw std::runtime_error("pipe");
    signal(SIGPIPE, SIG_IGN);
    pid_ = fork();
    if (pid_ == 0) {
      dup2(in[0], 0);
      dup2(out[1], 1);
      for (int fd : {in[0], in[1], out[0], out[1]}) close(fd);
      const std::string script = dir + "/c21_server.py";
      execlp("python3", "python3", "-B", script.c_str(), repo != nullptr && *repo ? repo : "/repo",
             static_cast<char*>(nullptr));
      _exit(127);
    }
    close(in[0]);
    close(out[1]);
    to_ = in[1];
    from_ = out[0];
  }
  void Die(const char* what, const std::string& code) {
    if (pid_ > 0) {
      kill(pid_, SIGKILL);
      waitpid(pid_, nullptr, 0);
      close(to_);
      close(from_);
    }
    pid_ = 0;
    buf_.clear();
    FAILK("python", what << " while running\n" << code);
  }
  void Fill(const std::string& code) {
    pollfd p{from_, POLLIN, 0};
    if (poll(&p, 1, 40000) <= 0) Die("no answer from Python", code);
    char b[65536];
    const ssize_t n = read(from_, b, sizeof b);
    if (n <= 0) Die("Python ended", code);
    buf_.append(b, static_cast<size_t>(n));
  }
  std::string Line(const std::string& code) {
    size_t p;
    while ((p = buf_.find('\n')) == std::string::npos) Fill(code);
    const std::string l = buf_.substr(0, p);
    buf_.erase(0, p + 1);
    return l;
  }
  pid_t pid_ = 0;
  int to_ = -1, from_ = -1;
  std::string buf_;
} g_python;

std::string Quote(const std::string& s) {
  std::string o = "'";
  for (char c : s) {
    if (c == '\'' || c == '\\') o += '\\';
    if (c == '\t') {
      o += "\\t";
    } else {
      o += c;
    }
  }
  return o + "'";
}
// The Python term that builds the formula.  `style` picks among equivalent ways.
std::string Term(const ref::F& f, int style) {
  switch (f.k) {
    case ref::F::ATOM: {
      if (style % 3 == 1) return Quote(ref::text(f));
      std::string s = "_P(" + Quote(f.pred);
      for (const auto& a : f.args) s += ", " + Quote(a);
      return s + ")";
    }
    case ref::F::AND:
    case ref::F::OR: {
      if (style % 3 == 2 && f.kids.empty()) return Quote(ref::text(f));
      std::string s = f.k == ref::F::AND ? "_and(" : "_or(";
      for (size_t i = 0; i < f.kids.size(); i++) s += (i ? ", " : "") + Term(f.kids[i], style + (i ? 1 : 0));
      return s + ")";
    }
    case ref::F::NOT:
      return "_not(" + Term(f.kids[0], style) + ")";
    case ref::F::ALL:
    case ref::F::EX: {
      std::string s, e;
      for (const auto& v : f.vars) {
        s += std::string(f.k == ref::F::ALL ? "_forall(" : "_exists(") + Quote(v.first) + ", " + Quote(v.second) + ", ";
        e += ")";
      }
      return s + Term(f.kids[0], style) + e;
    }
  }
  return "";
}

// What a builder was told.
struct Told {
  std::vector<std::pair<std::string, std::string>> objs;
  std::vector<std::pair<std::string, std::vector<std::string>>> init;
  ref::F goal;
};

// Compares the text a builder produced with what it was told.
void Compare(const ref::Dom& base, const std::string& text, const Told& told, const std::string& script,
             const std::string& name) {
  ref::Dom d = base;
  d.objs = told.objs;
  d.init = told.init;
  d.goal = told.goal;
  const ref::World w(d);
  Mask init = 0;
  for (const auto& p : told.init) {
    auto it = w.bit_of.find(ref::ground_name(p.first, p.second));
    if (it == w.bit_of.end()) return;  // mentions objects that are not there (yet)
    init |= Mask(1) << it->second;
  }
  std::unique_ptr<Pddl> pddl;
  try {
    pddl = std::make_unique<Pddl>(DomainFile(ref::domain_text(d)), text);
  } catch (const std::exception& e) {
    FAIL(script << "\nproduces text that cannot be read: " << e.what() << "\n" << text);
  }
  CHECK(pddl->symbol()->the_problem->name == name && pddl->symbol()->the_problem->domain_name == d.name,
        "problem " << pddl->symbol()->the_problem->name << " of domain "
                   << pddl->symbol()->the_problem->domain_name << " from\n" << script);
  std::map<std::string, std::string> got, want;
  for (const Object& o : pddl->objects()) {
    CHECK(got.emplace(o.name(), o.type().name()).second, "object twice: " << o.name());
  }
  for (size_t i = 0; i < w.obj.size(); i++) want[w.obj[i]] = w.obj_type[i];
  if (got != want) {
    std::ostringstream o;
    for (const auto& x : got) o << " " << x.first << " - " << x.second;
    FAIL(script << "\ndeclares" << o.str() << "\n" << text);
  }
  const Bridge br(w, *pddl);
  CHECK(br.mask(pddl->initial_state()) == init,
        script << "\nhas the initial state " << Bridge::Show(pddl->initial_state()) << "\n" << text);
  const ref::CF c = w.compile(d.goal, {});
  ref::World::Env env;
  std::set<Mask> masks = {0, w.full(), init};
  if (w.bits() <= 7) {
    for (Mask m = 0; m < w.full(); m++) masks.insert(m);
  } else {
    for (size_t i = 0; i < w.bits(); i++) {
      for (size_t j = 0; j <= i; j++) {
        masks.insert(Mask(1) << i | Mask(1) << j);
        masks.insert(w.full() & ~(Mask(1) << i | Mask(1) << j));
      }
    }
  }
  for (Mask m : masks) {
    CHECK(pddl->IsGoalSatisfied(br.state(m)) == w.eval(c, env, m),
          script << "\nshould have the goal " << ref::text(d.goal) << ", differs in " << w.show(m) << "\n" << text);
    R.transitions++;
  }
  R.states++;
}

// A call of the builder's interface and its effect on what it was told.
struct Call {
  std::string py;  // "%" stands for the builder
  std::function<bool(Told*)> apply;  // false: not allowed here
};
Call AddObject(const std::string& n, const std::string& t, bool keyword = false) {
  return {"%.add_object(" + Quote(n) + (t.empty() && !keyword ? "" : (keyword ? ", object_type=" : ", ") + Quote(t)) + ")",
          [=](Told* b) {
            for (const auto& o : b->objs) {
              if (o.first == n) return false;
            }
            b->objs.emplace_back(n, t);
            return true;
          }};
}
Call AddInit(const std::string& p, const std::vector<std::string>& a, int notation) {
  std::string s;
  if (notation == 0) {
    s = ref::ground_name(p, a);
  } else if (notation == 1) {
    std::ostringstream o;
    ref::put_atom(o, p, a);
    s = o.str();
  } else {
    s = p + "( ";
    for (size_t i = 0; i < a.size(); i++) s += (i ? " ,  " : "") + a[i];
    s += " )";
  }
  return {"%.add_initial_prop(" + Quote(s) + ")", [=](Told* b) {
            b->init.emplace_back(p, a);
            return true;
          }};
}
Call SetInit(const std::vector<std::pair<std::string, std::vector<std::string>>>& ps) {
  std::string s = "%.set_initial_state({";
  for (size_t i = 0; i < ps.size(); i++) {
    std::ostringstream o;
    if (i % 2) {
      ref::put_atom(o, ps[i].first, ps[i].second);
    } else {
      o << ref::ground_name(ps[i].first, ps[i].second);
    }
    s += (i ? ", " : "") + Quote(o.str());
  }
  s = ps.empty() ? "%.set_initial_state(set()" : s + "}";
  return {s + ")", [=](Told* b) {
            if (!b->init.empty()) return false;
            b->init = ps;
            return true;
          }};
}
Call SetGoal(const ref::F& f, int style) {
  return {"%.set_goal(" + Term(f, style) + ")", [=](Told* b) {
            b->goal = f;
            return true;
          }};
}

struct Kit {
  std::string name;
  ref::Dom d;
  std::vector<Call> calls;
};
std::vector<Kit> Kits() {
  using ref::A;
  using ref::All;
  using ref::And;
  using ref::Ex;
  using ref::Not;
  using ref::Or;
  std::vector<Kit> v;
  {
    Kit k;
    k.name = "typed";
    k.d.name = "dom";
    k.d.types = {{"t", ""}, {"u", "t"}};
    k.d.preds = {{"p0", {}}, {"p", {{"x", ""}}}, {"r", {{"x", ""}, {"y", ""}}}};
    k.calls = {AddObject("a", "t"), AddObject("b", ""), AddObject("c", "u", true),
               AddInit("p", {"a"}, 0), AddInit("r", {"a", "b"}, 1), AddInit("p0", {}, 0),
               SetInit({{"p", {"b"}}, {"r", {"b", "b"}}}),
               SetGoal(All({{"x", "t"}}, Or({A("p", {"?x"}), A("p0")})), 0),
               SetGoal(Not(A("p0")), 1)};
    v.push_back(k);
  }
  {
    Kit k;
    k.name = "untyped";
    k.d.name = "flat-dom";
    k.d.types_section = false;
    k.d.preds = {{"p0", {}}, {"p", {{"x", ""}}}, {"r", {{"x", ""}, {"y", ""}}}};
    k.calls = {AddObject("a", ""), AddObject("b", ""), AddObject("a-b", "", true),
               AddInit("p", {"b"}, 2), AddInit("r", {"b", "a"}, 0), AddInit("p0", {}, 1), AddInit("p0", {}, 2),
               SetInit({}), SetInit({{"p0", {}}, {"p", {"a"}}, {"r", {"a", "a-b"}}}),
               SetGoal(Ex({{"x", ""}}, Not(And({A("p", {"?x"}), A("p0")}))), 2)};
    v.push_back(k);
  }
  {
    Kit k;
    k.name = "constants";
    k.d.name = "d3";
    k.d.types = {{"t", "object"}, {"u", "object"}};
    k.d.consts = {{"k", "t"}};
    k.d.preds = {{"p", {{"x", "t"}}}, {"r", {{"x", "t"}, {"y", "u"}}}};
    k.calls = {AddObject("m", "u"), AddObject("n", "t"), AddObject("o", "object"), AddObject("o2", ""),
               AddInit("p", {"k"}, 0), AddInit("r", {"k", "m"}, 0), AddInit("r", {"n", "m"}, 1),
               SetGoal(And({A("p", {"k"}), Ex({{"y", "u"}}, A("r", {"k", "?y"}))}), 1), SetGoal(And(), 0)};
    v.push_back(k);
  }
  return v;
}

// All sequences of calls, each prefix being read as well.
void Sequences(const Kit& k, size_t depth) {
  std::vector<size_t> seq;
  const size_t n = k.calls.size();
  std::function<void()> rec = [&] {
    if (!seq.empty()) {
      const std::vector<size_t> s = seq;
      R.kase(
          [&] {
            std::string t = "kit " + k.name + ":";
            for (size_t i : s) t += " " + k.calls[i].py;
            return t;
          },
          [&] {
            Told told;
            std::string code = "b = Problem('prob', " + Quote(k.d.name) + ")\nout = ''\n";
            for (size_t i = 0; i < s.size(); i++) {
              std::string c = k.calls[s[i]].py;
              c.replace(0, 1, "b");
              code += c + "\n";
              if (!k.calls[s[i]].apply(&told)) return;
              // reading the text in between must not matter
              if ((s[0] + i) % 2) code += "str(b)\n";
            }
            code += "out = str(b)\n";
            const std::string text = g_python.Run(code);
            Compare(k.d, text, told, code, "prob");
            R.traces++;
          });
    }
    if (seq.size() == depth) return;
    for (size_t i = 0; i < n; i++) {
      // skip sequences that add an object twice
      Told t;
      bool ok = true;
      for (size_t j : seq) ok &= k.calls[j].apply(&t);
      if (!ok || !k.calls[i].apply(&t)) continue;
      seq.push_back(i);
      rec();
      seq.pop_back();
    }
  };
  rec();
}

// Two builders used in turn: all interleavings of two call lists.
void TwoBuilders(const Kit& k, size_t len, size_t stride) {
  const size_t n = k.calls.size();
  size_t count = 0, total = 1;
  for (size_t i = 0; i < len; i++) total *= 2 * n;
  for (size_t code0 = 0; code0 < total; code0++) {
    size_t c = code0;
    std::vector<std::pair<int, size_t>> s;
    bool first = true, ok = true, both = false;
    Told t[2];
    for (size_t i = 0; i < len; i++, c /= 2 * n) {
      const int who = static_cast<int>(c % (2 * n) / n);
      if (first && who == 1) ok = false;  // symmetric
      first = false;
      both |= who == 1;
      s.emplace_back(who, c % n);
      ok = ok && k.calls[c % n].apply(&t[who]);
    }
    if (!ok || !both || count++ % stride != 0) continue;
    R.kase(
        [&] {
          std::string x = "kit " + k.name + ", two builders:";
          for (const auto& p : s) x += " " + std::to_string(p.first) + k.calls[p.second].py;
          return x;
        },
        [&] {
          std::string code = "b0 = Problem('first', " + Quote(k.d.name) + ")\nb1 = Problem(domain=" +
                             Quote(k.d.name) + ", name='second')\n";
          Told told[2];
          for (const auto& p : s) {
            std::string x = k.calls[p.second].py;
            x.replace(0, 1, p.first ? "b1" : "b0");
            code += x + "\n";
            k.calls[p.second].apply(&told[p.first]);
          }
          const std::string text = g_python.Run(code + "out = str(b0) + chr(0) + repr(b1)\n");
          const size_t cut = text.find('\0');
          CHECK(cut != std::string::npos, "separator");
          Compare(k.d, text.substr(0, cut), told[0], code, "first");
          Compare(k.d, text.substr(cut + 1), told[1], code, "second");
          R.traces++;
        });
  }
}

// Problems of growing size: n objects, n facts, a goal with n members or n
// levels, predicates of five arguments.
void Sizes() {
  ref::Dom d;
  d.name = "sizes";
  d.types = {{"t", ""}, {"u", "t"}, {"v", ""}};
  d.preds = {{"p", {{"x", ""}}}, {"five", {{"a", "v"}, {"b", "v"}, {"c", "v"}, {"d", "v"}, {"e", "v"}}},
             {"four", {{"a", "u"}, {"b", "v"}, {"c", "u"}, {"d", "v"}}}};
  for (size_t n = 1; n <= 12; n++) {
    for (int form = 0; form < 6; form++) {
      R.kase([&] { return "a problem of size " + std::to_string(n) + ", form " + std::to_string(form); }, [&] {
        Told told;
        std::string code = "b = Problem('prob', 'sizes')\n";
        auto call = [&](const Call& c) {
          std::string x = c.py;
          x.replace(0, 1, "b");
          code += x + "\n";
          CHECK(c.apply(&told), "own call");
        };
        const std::vector<std::string> vs = {"v-1", "v-12"};
        std::vector<std::string> all;
        for (const auto& x : vs) {
          call(AddObject(x, "v"));
          all.push_back(x);
        }
        call(AddObject("u1", "u"));
        all.push_back("u1");
        for (size_t i = 0; i < n; i++) {
          all.push_back("o" + std::to_string(i));
          call(AddObject(all.back(), i % 3 == 0 ? "t" : i % 3 == 1 ? "" : "t", i % 2));
        }
        std::vector<std::pair<std::string, std::vector<std::string>>> facts;
        for (size_t i = 0; i < n; i++) {
          if (i % 3 == 0) facts.push_back({"p", {all[(i * 5 + n) % all.size()]}});
          if (i % 3 == 1) facts.push_back({"five", {vs[0], vs[i % 2], vs[n % 2], vs[i / 2 % 2], vs[1]}});
          if (i % 3 == 2) facts.push_back({"four", {"u1", vs[i % 2], "u1", vs[n % 2]}});
        }
        if (form % 2) {
          call(SetInit(facts));
        } else {
          for (size_t i = 0; i < n; i++) call(AddInit(facts[i].first, facts[i].second, static_cast<int>(i + n) % 3));
        }
        std::vector<ref::F> members;
        for (size_t i = 0; i < n; i++) {
          ref::F f = i % 4 == 1 ? ref::A("five", {vs[i % 2], vs[1], vs[0], vs[n % 2], vs[0]})
                     : i % 4 == 3 ? ref::A("four", {"u1", vs[0], "u1", vs[i / 4 % 2]})
                                  : ref::A("p", {all[(i * 3) % all.size()]});
          members.push_back(i % 2 == static_cast<size_t>(form == 2) ? ref::Not(f) : f);
        }
        ref::F goal = members.back();
        if (form == 0 || form == 5) {
          goal = ref::And(members);
        } else if (form < 3) {
          goal = ref::Or(members);
        } else if (form == 3) {
          for (size_t i = 0; i + 1 < n; i++) {
            goal = i % 3 == 0 ? ref::Not(goal) : i % 3 == 1 ? ref::Or({members[i], goal}) : ref::And({goal, members[i]});
          }
        } else {
          std::vector<ref::F> inner = {ref::A("p", {"?x0"})};
          for (size_t i = 1; i < std::min<size_t>(n, 4); i++) inner.push_back(ref::Not(ref::A("p", {"?x" + std::to_string(i)})));
          goal = ref::Or(inner);
          for (size_t i = std::min<size_t>(n, 4); i-- > 0;) {
            const ref::Vars v = {{"x" + std::to_string(i), i == 2 ? "" : "v"}};
            goal = i % 2 ? ref::Ex(v, goal) : ref::All(v, goal);
          }
        }
        call(SetGoal(goal, form % 3));
        const std::string text = g_python.Run(code + "out = str(b)\n");
        Compare(d, text, told, code, "prob");
        R.traces++;
      });
    }
  }
}

// Goals built from every formula of the grammar.
void Goals(const Setting& s, const std::vector<ref::F>& fs, size_t stride, const char* tag) {
  const size_t chunk = 20;
  std::vector<ref::F> sub;
  for (size_t i = 0; i < fs.size(); i += stride) sub.push_back(fs[i]);
  for (size_t b = 0; b < sub.size(); b += chunk) {
    const size_t e = std::min(sub.size(), b + chunk);
    R.kase(
        [&] {
          return "setting " + s.name + ": " + tag + " " + std::to_string(b) + " (first: " + ref::text(sub[b]) + ")";
        },
        [&] {
          for (size_t i = b; i < e; i++) {
            Told told;
            told.objs = s.d.objs;
            told.goal = sub[i];
            std::string code = "b = Problem('prob', " + Quote(s.d.name) + ")\n";
            for (const auto& o : s.d.objs) code += "b.add_object(" + Quote(o.first) + ", " + Quote(o.second) + ")\n";
            code += "b.set_goal(" + Term(sub[i], static_cast<int>(i % 3)) + ")\nout = str(b)\n";
            ref::Dom d = s.d;
            Compare(d, g_python.Run(code), told, code, "prob");
            R.traces++;
          }
        });
  }
}

// Conditional effects written with the helper, used in an action.
void Whens(const Setting& s, size_t stride) {
  forms::Gen g(s);
  const auto fs = g.UpTo(2, s.params);
  for (size_t i = 0; i < fs.size(); i += stride) {
    R.kase([&] { return "setting " + s.name + ": when " + ref::text(fs[i]); }, [&] {
      ref::Dom d = s.d;
      const auto atoms = forms::Atoms(s, s.params);
      ref::F lit = atoms[i % atoms.size()];
      for (size_t k = 0;; k++) {
        if (k > atoms.size()) return;
        lit = atoms[(i + k) % atoms.size()];
        bool pred = false;
        for (const auto& p : d.preds) pred |= p.name == lit.pred;
        if (pred) break;
      }
      const bool neg = i % 2;
      const std::string effect = neg ? "_not(" + Term(lit, 0) + ")" : Term(lit, static_cast<int>(i / 2 % 2));
      const std::string text = g_python.Run("out = pprint_formula(_when(" + Term(fs[i], static_cast<int>(i % 3)) +
                                            ", " + effect + "))\n");
      ref::Op op;
      op.name = "act";
      op.params = s.params;
      op.eff = ref::When(fs[i], neg ? ref::Del(lit.pred, lit.args) : ref::Add(lit.pred, lit.args));
      d.actions.push_back(op);
      std::string dom = ref::domain_text(d);
      const std::string want = ref::text(op.eff);
      const size_t at = dom.find(want);
      CHECK(at != std::string::npos, "own text");
      dom.replace(at, want.size(), text);
      std::unique_ptr<Pddl> pddl;
      try {
        pddl = std::make_unique<Pddl>(DomainFile(dom), ref::problem_text(d));
      } catch (const std::exception& e) {
        FAIL(want << " is written as " << text << ", which cannot be read: " << e.what());
      }
      const ref::World w(d);
      const Bridge br(w, *pddl);
      const ref::COp c = w.compile(op);
      for (const auto& t : w.tuples(c.ranges)) {
        for (Mask m = 0; m <= w.full(); m += 1 + w.full() / 130) {
          const auto ch = w.change(c, t, m);
          if (ch.ill_typed) continue;
          const Mask next = (m & ~ch.del) | ch.add;
          CHECK(br.mask(pddl->actions()[0].Apply(br.state(m), br.args(t))) == next,
                want << " is written as " << text << ", which differs in " << w.show(m));
          R.transitions++;
        }
      }
      R.states++;
      R.traces++;
    });
  }
}

// The proposition parsing helpers.
void Parsing() {
  static const char* const kHeads[] = {"p", "on", "in-hand", "a_b", "x1"};
  static const char* const kArgs[] = {"a", "box-1", "b_2", "hook", "?x"};
  static const char* const kForms[][3] = {{"(", ", ", ")"}, {"(", ",", ")"}, {"( ", " , ", " )"},
                                          {"(", ",  ", "  )"}, {"(   ", ",", ")"}};
  for (const char* h : kHeads) {
    R.kase([&] { return std::string("parsing ") + h; }, [&] {
      for (size_t n = 0; n <= 9; n++) {
        size_t total = 1;
        for (size_t i = 0; i < std::min<size_t>(n, 8); i++) total *= 5;
        // All argument lists up to four; a few of the longer ones.
        for (size_t c0 = 0; c0 < total; c0 += n <= 4 ? 1 : 1 + total / 23) {
          std::vector<std::string> a;
          for (size_t i = 0, c = c0; i < n; i++, c /= 5) a.push_back(kArgs[c % 5]);
          for (size_t f = 0; f < 5; f++) {
            if (n == 4 && (c0 + f) % 5 != 0) continue;
            std::string s = std::string(h) + kForms[f][0];
            for (size_t i = 0; i < n; i++) s += (i ? kForms[f][1] : "") + a[i];
            s += kForms[f][2];
            std::string list = "[";
            for (size_t i = 0; i < n; i++) list += (i ? ", " : "") + Quote(a[i]);
            list += "]";
            const std::string out =
                g_python.Run("s = " + Quote(s) + "\nout = repr((parse_proposition(s), parse_head(s), parse_args(s)))\n");
            const std::string want = "((" + Quote(h) + ", " + list + "), " + Quote(h) + ", " + list + ")";
            CHECK(out == want, Quote(s) << " is parsed as " << out);
            R.transitions++;
          }
        }
        R.states++;
      }
      R.traces++;
    });
  }
  R.kase([&] { return std::string("unparsable propositions"); }, [&] {
    for (const char* bad : {"", "p", "a, b", "p a b", "p)"}) {
      for (const char* fn : {"parse_proposition", "parse_head", "parse_args"}) {
        bool err = false;
        const std::string out = g_python.Run(std::string("out = repr(") + fn + "(" + Quote(bad) + "))\n", &err);
        CHECK(err && out.compare(0, 10, "ValueError") == 0, fn << "('" << bad << "') gives " << out);
        R.transitions++;
      }
    }
    R.states++;
    R.traces++;
  });
}

}  // namespace

void H::Main() {
  const bool t = R.thorough;
  R.case_cpu_s = 100;
  static std::vector<Setting> settings = forms::Settings();
  Parsing();
  Sizes();
  for (const Kit& k : Kits()) Sequences(k, t ? 5 : 4);
  for (const Kit& k : Kits()) TwoBuilders(k, 3, t ? 1 : 3);
  if (t) {
    for (const Kit& k : Kits()) TwoBuilders(k, 4, 13);
  }
  for (const Setting& s : settings) {
    forms::Gen g(s);
    Goals(s, g.UpTo(2, {}), 1, "formulas up to 2 nodes");
    Goals(s, g.Exactly(3, {}), t ? 1 : 5, "formulas of 3 nodes");
    Goals(s, g.Prefixes(2, {}, t ? 53 : 701), 1, "prefix length 2");
    Whens(s, t ? 1 : 5);
  }
}
