// C29: the command-line planner prints the plans of the problem it is given.
//
// The real program (apps/pddl.cc) is compiled with its main() renamed and run
// in this process with its output captured.
#include <regex>

#include "search.h"

extern "C" int pddl_app_main(int argc, char* argv[]);

namespace {
using namespace H;
using ref::Mask;
using ref::Menu;
using ref::Model;
using Names = std::vector<std::string>;

struct Output {
  bool threw = false;
  int rc = 0;
  std::string text;
};

Output Program(const Names& args) {
  std::vector<std::string> a = {"pddl"};
  a.insert(a.end(), args.begin(), args.end());
  std::vector<char*> argv;
  for (auto& s : a) argv.push_back(&s[0]);
  argv.push_back(nullptr);
  Output o;
  std::ostringstream out;
  auto* old = std::cout.rdbuf(out.rdbuf());
  try {
    o.rc = pddl_app_main(static_cast<int>(a.size()), argv.data());
  } catch (const std::exception&) {
    o.threw = true;
  } catch (...) {
    std::cout.rdbuf(old);
    throw;
  }
  std::cout.rdbuf(old);
  o.text = out.str();
  return o;
}

// Text without terminal codes.
std::string Plain(const std::string& s) {
  static const std::regex code("\x1b\\[[0-9;]*m");
  return std::regex_replace(s, code, "");
}

struct Step {
  size_t depth;
  std::string call;
  std::set<std::string> state;
  bool operator<(const Step& o) const { return std::tie(depth, call, state) < std::tie(o.depth, o.call, o.state); }
  bool operator==(const Step& o) const { return depth == o.depth && call == o.call && state == o.state; }
};
using Printed = std::vector<Step>;

// "--- call(a, b) -> {p(a), q()}"
bool ReadStep(const std::string& line, Step* s) {
  static const std::regex form("^(-*)( ?)(.*) -> \\{(.*)\\}\\s*$");
  std::smatch m;
  if (!std::regex_match(line, m, form)) return false;
  s->depth = static_cast<size_t>(m[1].length());
  if ((s->depth > 0) != (m[2].length() > 0)) return false;
  s->call = m[3];
  s->state.clear();
  const std::string props = m[4];
  std::string cur;
  for (size_t i = 0; i < props.size(); i++) {
    if (cur.empty() && (props[i] == ' ' || props[i] == ',')) continue;
    cur += props[i];
    if (props[i] == ')') {
      s->state.insert(cur);
      cur.clear();
    }
  }
  return cur.empty();
}

// The blocks of steps between blank lines that follow a line with a time.
std::vector<Printed> ReadPlans(const std::string& text, const std::string& what) {
  static const std::regex time("^[0-9.e+-]+s$");
  std::vector<Printed> plans;
  bool in = false;
  std::istringstream is(Plain(text));
  std::string line;
  while (std::getline(is, line)) {
    if (std::regex_match(line, time)) {
      CHECK(!in, "two times in a row: " << what);
      in = true;
      plans.emplace_back();
    } else if (line.empty()) {
      in = false;
    } else if (in) {
      Step s;
      CHECK(ReadStep(line, &s), "unreadable line \"" << line << "\": " << what);
      plans.back().push_back(s);
    }
  }
  return plans;
}

long Announced(const std::string& text) {
  static const std::regex found("Found ([0-9]+) plans in [0-9.e+-]+s");
  std::smatch m;
  const std::string plain = Plain(text);
  if (!std::regex_search(plain, m, found)) return -1;
  return std::stol(m[1]);
}

void One(const Menu& menu, const std::vector<size_t>& which, size_t init, size_t goal) {
  const ref::Dom d = menu.with(which, init, goal);
  const Model m(d);
  const auto root = m.settle(m.init);
  if (!m.usable || !root || !m.reachable(*root)) {
    R.extra["excluded"]++;
    return;
  }
  const std::string domain = DomainFile(ref::domain_text(d), "app_domain.pddl");
  const std::string problem = DomainFile(ref::problem_text(d), "app_problem.pddl");
  auto names = [&](Mask s) {
    std::set<std::string> x;
    for (size_t i = 0; i < m.w.bits(); i++) {
      if (s >> i & 1) x.insert(m.w.names[i]);
    }
    return x;
  };
  auto run = [&](const Names& options, size_t depth, bool verbose) {
    std::vector<Mask> path = {*root};
    H::Plan plan;
    std::vector<H::Plan> all;
    H::Plans(m, depth, &path, &plan, &all);
    if (all.size() > 300) return;
    std::multiset<Printed> want;
    for (const auto& p : all) {
      Printed steps = {{0, "", names(*root)}};
      Mask s = *root;
      for (const auto& call : p.calls) {
        for (size_t c = 0; c < m.calls.size(); c++) {
          if (m.calls[c].text == call) {
            s = *m.next(s, c);
            break;
          }
        }
        steps.push_back({steps.size(), call, names(s)});
      }
      want.insert(steps);
    }
    Names args = {domain, problem};
    args.insert(args.end(), options.begin(), options.end());
    std::string what = "pddl DOMAIN PROBLEM";
    for (const auto& o : options) what += " " + o;
    const Output o = Program(args);
    what += "\n" + ref::domain_text(d) + ref::problem_text(d);
    CHECK(!o.threw && o.rc == 0, "the program fails: " << what);
    what += "\nprinted:\n" + o.text.substr(0, 3000);
    CHECK(o.text.find("Domain: " + domain) != std::string::npos &&
              o.text.find("Problem: " + problem) != std::string::npos &&
              o.text.find("Depth: " + std::to_string(depth) + "\n") != std::string::npos,
          "the arguments are not repeated: " << what);
    const auto plans = ReadPlans(o.text, what);
    CHECK(Announced(o.text) == static_cast<long>(all.size()), "number of plans (there are " << all.size() << "): " << what);
    CHECK(plans.size() == all.size(), plans.size() << " plans printed: " << what);
    for (size_t i = 0; i + 1 < plans.size(); i++) {
      CHECK(plans[i].size() <= plans[i + 1].size(), "a shorter plan after a longer one: " << what);
    }
    CHECK(std::multiset<Printed>(plans.begin(), plans.end()) == want, "other plans than those that exist: " << what);
    const bool chatty = o.text.find("BFS depth:") != std::string::npos;
    CHECK(chatty == verbose, (verbose ? "nothing" : "the search") << " is reported: " << what);
    R.states++;
    R.transitions += want.size() + 1;
  };
  for (size_t depth = 0; depth <= 3; depth++) run({"--depth", std::to_string(depth)}, depth, false);
  run({}, 5, false);
  run({"--verbose"}, 5, true);
  run({"--verbose", "--depth", "2"}, 2, true);
  run({"--depth", "1", "--verbose"}, 1, true);
  run({"--depth", "1", "--depth", "3"}, 3, false);
  R.traces++;
}

// Arguments that are not understood are refused, and the usage is shown.
void Usage(const Menu& menu) {
  const ref::Dom d = menu.with({}, 0, 0);
  const std::string domain = DomainFile(ref::domain_text(d), "app_domain.pddl");
  const std::string problem = DomainFile(ref::problem_text(d), "app_problem.pddl");
  const Names words = {"--depth", "--verbose", "2", "-h", "--depth=2"};
  const size_t n = words.size();
  auto legal = [](const Names& o) {
    for (size_t i = 0; i < o.size(); i++) {
      if (o[i] == "--verbose") continue;
      if (o[i] != "--depth" || i + 1 >= o.size()) return false;
      if (o[i + 1] != "2") return true;  // not a number: not judged
      i++;
    }
    return true;
  };
  for (size_t k = 0; k < 1 + n + n * n + n * n * n; k++) {
    Names o;
    if (k > 0 && k <= n) o = {words[k - 1]};
    if (k > n && k <= n + n * n) o = {words[(k - n - 1) / n], words[(k - n - 1) % n]};
    if (k > n + n * n) {
      const size_t j = k - n - n * n - 1;
      o = {words[j / n / n], words[j / n % n], words[j % n]};
    }
    if (legal(o)) continue;
    Names args = {domain, problem};
    args.insert(args.end(), o.begin(), o.end());
    const Output out = Program(args);
    std::string what;
    for (const auto& x : o) what += " " + x;
    CHECK(out.threw, "accepted:" << what);
    CHECK(out.text.find("Usage:") != std::string::npos && out.text.find("Found") == std::string::npos,
          "no usage for" << what);
    R.transitions++;
  }
  for (const Names& few : {Names(), Names{domain}}) {
    const Output out = Program(few);
    CHECK(out.threw && out.text.find("Usage:") != std::string::npos, "accepted " << few.size() << " arguments");
  }
  CHECK(Program({domain + ".missing", problem}).threw, "a missing domain");
  CHECK(Program({domain, problem + ".missing"}).threw, "a missing problem");
}

// A corridor of n rooms in which the robot may only go forward, each room
// through one of the doors of `doors`: doors^n plans of n steps.
void Corridor(size_t n, size_t doors) {
  std::string objects, next, door;
  for (size_t i = 0; i <= n; i++) objects += " r" + std::to_string(i);
  for (size_t i = 0; i < n; i++) next += " (next r" + std::to_string(i) + " r" + std::to_string(i + 1) + ")";
  for (size_t i = 0; i < doors; i++) door += " d" + std::to_string(i);
  const std::string domain = DomainFile(
      "(define (domain d) (:requirements :strips :typing) (:types room door - object)\n"
      "(:predicates (at ?r - room) (next ?a - room ?b - room))\n"
      "(:action go :parameters (?a - room ?b - room ?d - door)\n"
      " :precondition (and (at ?a) (next ?a ?b)) :effect (and (not (at ?a)) (at ?b))))\n",
      "app_domain.pddl");
  const std::string problem = DomainFile("(define (problem p) (:domain d) (:objects" + objects + " - room" + door +
                                             " - door)\n(:init (at r0)" + next + ")\n(:goal (at r" +
                                             std::to_string(n) + ")))\n",
                                         "app_problem.pddl");
  size_t total = 1;
  for (size_t i = 0; i < n; i++) total *= doors;
  for (size_t depth : {size_t{0}, size_t{1}, n - 1, n, n + 1, size_t{10}, 2 * n, size_t{100}, size_t{123},
                       size_t{255}, size_t{256}, size_t{1000}, size_t{32768}, size_t{65536}, size_t{100000},
                       size_t{1} << 24, size_t{2147483647}}) {
    for (const Names& options : {Names{"--depth", std::to_string(depth)},
                                 Names{"--verbose", "--depth", std::to_string(depth)}}) {
      Names args = {domain, problem};
      args.insert(args.end(), options.begin(), options.end());
      const Output o = Program(args);
      const size_t want = depth >= n ? total : 0;
      const std::string what = "a corridor of " + std::to_string(n) + " rooms, " + std::to_string(doors) +
                               " doors, depth " + std::to_string(depth) + ", printed:\n" + o.text.substr(0, 3000);
      CHECK(!o.threw && o.rc == 0, "the program fails: " << what);
      CHECK(o.text.find("Depth: " + std::to_string(depth) + "\n") != std::string::npos, "the depth: " << what);
      CHECK(Announced(o.text) == static_cast<long>(want), want << " plans exist: " << what);
      if (options.size() == 3) continue;
      const auto plans = ReadPlans(o.text, what);
      CHECK(plans.size() == want, plans.size() << " of " << want << " plans printed: " << what);
      std::set<Printed> seen;
      for (const Printed& plan : plans) {
        CHECK(plan.size() == n + 1, "a plan of " << plan.size() << " lines: " << what);
        for (size_t i = 0; i <= n; i++) {
          const Step& s = plan[i];
          CHECK(s.depth == i && s.state.count("at(r" + std::to_string(i) + ")") && s.state.size() == n + 1,
                "step " << i << ": " << what);
          const std::string call = "go(r" + std::to_string(i ? i - 1 : 0) + ", r" + std::to_string(i) + ", d";
          CHECK(i ? s.call.rfind(call, 0) == 0 : s.call.empty(), "call " << i << " is " << s.call << ": " << what);
        }
        CHECK(seen.insert(plan).second, "a plan twice: " << what);
      }
      R.states++;
      R.transitions += want + 1;
    }
  }
}

}  // namespace

void H::Main() {
  R.case_cpu_s = 300;
  const bool t = R.thorough;
  static const std::vector<Menu> menus = ref::Menus();
  for (size_t n = 1; n <= (t ? 25 : 13); n++) {
    for (size_t doors = 1; doors <= 2; doors++) {
      if (doors > 1 && n > (t ? 10 : 6)) continue;
      R.kase([&] { return "corridor " + std::to_string(n) + " " + std::to_string(doors); }, [&] { Corridor(n, doors); });
    }
  }
  for (const Menu& m : menus) {
    R.kase([&] { return m.name + ": usage"; }, [&] { Usage(m); });
    const size_t n = m.actions.size();
    for (size_t init = 0; init < m.inits.size(); init++) {
      for (size_t i = 0; i < n; i++) {
        R.kase([&] { return m.name + ": action " + std::to_string(i) + " init " + std::to_string(init); },
               [&] {
                 for (size_t goal = 0; goal < m.goals.size(); goal++) {
                   if (i == 0) One(m, {}, init, goal);
                   One(m, {i}, init, goal);
                   for (size_t j = 0; j < n; j++) {
                     if (t || (i + j + goal) % 2 == 0) One(m, {i, j}, init, goal);
                     if ((i + 5 * j + goal) % (t ? 2 : 7) == 0) One(m, {i, j, (i + 2 * j + 1) % n}, init, goal);
                   }
                 }
               });
      }
    }
  }
}
