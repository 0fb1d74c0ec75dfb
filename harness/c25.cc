// C25: a search time limit only cuts the search short.  The clock is replaced:
// every reading returns a scripted time.
#include <chrono>

#include "search.h"
#include "symbolic/planning/breadth_first_search.h"

namespace {
// Time is a count of microseconds that jumps at chosen readings.
long long g_now = 0;
uint64_t g_readings = 0;
uint64_t g_jump_at = ~0ull;     // the reading (counted from 0) that sees the jump
long long g_jump = 0;
long long g_tick = 0;           // added at every reading
bool g_scripted = false;

long long Read() {
  if (g_readings == g_jump_at) g_now += g_jump;
  g_readings++;
  g_now += g_tick;
  return g_now;
}
}  // namespace

// Stand-ins for the C++ library's clocks.
namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept {
  if (!g_scripted) {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    return time_point(duration_cast<duration>(seconds(ts.tv_sec) + nanoseconds(ts.tv_nsec)));
  }
  return time_point(duration_cast<duration>(microseconds(1600000000000000ll + Read())));
}
steady_clock::time_point steady_clock::now() noexcept {
  if (!g_scripted) {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return time_point(duration_cast<duration>(seconds(ts.tv_sec) + nanoseconds(ts.tv_nsec)));
  }
  return time_point(duration_cast<duration>(microseconds(1000000ll + Read())));
}
}  // namespace _V2
}  // namespace chrono
}  // namespace std

namespace {
using namespace H;
using symbolic::BreadthFirstSearch;
using symbolic::Planner;
using std::chrono::microseconds;

struct Script {
  Script(uint64_t jump_at, long long jump, long long tick) {
    g_now = 0;
    g_readings = 0;
    g_jump_at = jump_at;
    g_jump = jump;
    g_tick = tick;
    g_scripted = true;
  }
  ~Script() { g_scripted = false; }
};

struct Outcome {
  Paths paths;
  std::vector<uint64_t> readings;  // at the end of each request
  std::vector<long long> begun;    // clock when each request began
  bool timed_out = false;
};

// Node ids of a path, for either kind of node.
Ids PathOf(const Graph& g, const std::vector<GNode>& p) { return Legal(g, p, g.show()); }

template <typename Node, typename Read>
std::vector<std::invoke_result_t<Read, const std::vector<Node>&>> RunSearch(BreadthFirstSearch<Node>& bfs, size_t limit, Read read,
                                                            std::vector<uint64_t>* readings = nullptr) {
  std::vector<std::invoke_result_t<Read, const std::vector<Node>&>> out;
  auto it = bfs.begin();
  if (readings != nullptr) readings->push_back(g_readings);
  while (it != bfs.end()) {
    CHECK(out.size() < limit, "too many paths");
    out.push_back(read(*it));
    ++it;
    if (readings != nullptr) readings->push_back(g_readings);
  }
  // Once ended, it stays ended, also if it is asked again.
  for (int i = 0; i < 2; i++) {
    ++it;
    CHECK(it == bfs.end() && !(it != bfs.end()), "the iteration resumes after its end");
  }
  return out;
}

constexpr long long kLimit = 1000;

template <typename Node, typename Read, typename Show>
void Check(const Node& root, size_t depth, Read read, Show show) {
  using Path = std::invoke_result_t<Read, const std::vector<Node>&>;
  std::vector<Path> all;
  std::vector<uint64_t> ends;  // clock readings made when each request ended
  {
    BreadthFirstSearch<Node> bfs(root, depth);
    all = RunSearch(bfs, 100000, read);
  }
  auto prefix = [&](const std::vector<Path>& got, const std::string& how) {
    CHECK(got.size() <= all.size() && std::equal(got.begin(), got.end(), all.begin()),
          show() << ": not a prefix of the unlimited search (" << got.size() << " of " << all.size() << ") " << how);
  };
  auto complete = [&](const std::vector<Path>& got, const std::string& how) {
    prefix(got, how);
    CHECK(got.size() == all.size(), show() << ": ended early after " << got.size() << " of " << all.size() << " " << how);
  };
  uint64_t total = 0;
  {
    // No time passes, or never more than the limit during one request.
    Script s(~0ull, 0, 0);
    BreadthFirstSearch<Node> bfs(root, depth, false, microseconds(kLimit));
    const auto got = RunSearch(bfs, all.size(), read, &ends);
    total = g_readings;
    complete(got, "although no time passes");
  }
  {
    // No limit: any amount of time may pass.
    Script s(0, 1000000000, kLimit * 1000);
    BreadthFirstSearch<Node> bfs(root, depth, false, microseconds(0));
    complete(RunSearch(bfs, all.size(), read), "although the limit is zero");
    BreadthFirstSearch<Node> standard(root, depth);
    complete(RunSearch(standard, all.size(), read), "although there is no limit");
  }
  R.extra["max_readings"] = std::max<uint64_t>(R.extra["max_readings"], total);
  R.extra["clock_readings"] += total;
  // Time jumps at one reading.  A request that reads the clock r times sees
  // more than the limit passed if the jump falls on any but its first reading.
  for (uint64_t at = 0; at < total; at++) {
    size_t request = 0;
    while (request < ends.size() && ends[request] <= at) request++;
    const uint64_t first = request == 0 ? 0 : ends[request - 1];
    for (long long jump : {kLimit + 1, kLimit, 5 * kLimit}) {
      Script s(at, jump, 0);
      BreadthFirstSearch<Node> bfs(root, depth, false, microseconds(kLimit));
      const auto got = RunSearch(bfs, all.size(), read);
      R.transitions++;
      const std::string how = "with a jump of " + std::to_string(jump) + " at reading " + std::to_string(at) +
                              " of " + std::to_string(total);
      prefix(got, how);
      if (at == first || jump <= kLimit) {
        // Between two requests, or not more than the limit.
        complete(got, how);
        R.extra["harmless"]++;
      } else {
        // Noticed: nothing more is returned after the current request, except
        // a plan that was already being looked at.
        CHECK(got.size() <= request + 1, show() << ": goes on after the time is up, " << how);
        if (got.size() < all.size()) R.extra["cut_short"]++;
        R.extra["expired"]++;
        // The search gives up at the reading that notices it.
        CHECK(g_readings <= at + 1 + 2 * 3, show() << ": " << g_readings << " clock readings " << how);
      }
    }
  }
  // A steady clock: each request may take only so many readings.
  for (long long tick : {kLimit / 2, kLimit / 3, kLimit + 1}) {
    Script s(~0ull, 0, tick);
    BreadthFirstSearch<Node> bfs(root, depth, false, microseconds(kLimit));
    std::vector<uint64_t> r;
    const auto got = RunSearch(bfs, all.size(), read, &r);
    R.transitions++;
    prefix(got, "with a steady clock");
    for (size_t k = 0; k < r.size(); k++) {
      const uint64_t n = r[k] - (k == 0 ? 0 : r[k - 1]);
      const uint64_t most = static_cast<uint64_t>(kLimit / tick) + 2;
      CHECK(n <= most, show() << ": a request reads the clock " << n << " times, " << most << " are enough");
    }
  }
  R.states++;
}

}  // namespace

void H::Main() {
  R.case_cpu_s = 250;
  ForGraphs([](const Graph& g, size_t depth) {
    // Larger graphs: a share of the goal sets in the quick tier.
    if (g.succ.size() >= 4 && !R.thorough && (g.goals * 7 + depth + std::hash<std::string>{}(g.show())) % 11 != 0) return;
    if (g.succ.size() >= 4 && R.thorough && (g.goals + depth) % 3 != 0) return;
    const GNode root(&g, nullptr);
    Check(root, depth, [&](const std::vector<GNode>& p) { return PathOf(g, p); },
          [&] { return g.show() + " depth " + std::to_string(depth); });
    R.traces++;
  }, false);
  ForLargeGraphs([](const Graph& g, size_t depth) {
    // A share of the longer ones.
    if (g.succ.size() > 12 || (!R.thorough && (depth + g.succ.size()) % 2 != 0)) return;
    const GNode root(&g, nullptr);
    if (Solutions(g, depth).size() > 40) return;
    Check(root, depth, [&](const std::vector<GNode>& p) { return PathOf(g, p); },
          [&] { return g.show() + " depth " + std::to_string(depth); });
    R.traces++;
  });
  ForProblems([](const ref::Model& model, const Pddl& pddl, const Bridge& br, Mask root, size_t depth,
                 const std::vector<Plan>& want) {
    if (want.size() > 40 || (depth + want.size()) % 3 != 0) return;
    const Planner planner(pddl);
    Check(planner.root(), depth,
          [&](const std::vector<Planner::Node>& p) { return LegalPlan(model, br, root, p).calls; },
          [&] { return std::string("a planning problem"); });
  });
}
