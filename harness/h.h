// Case runner shared by all harnesses: deterministic numbering of cases,
// sharding over processes, crash/hang attribution, counters and results.
#ifndef VERIF_H_H_
#define VERIF_H_H_

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace H {

struct Failure : std::runtime_error {
  Failure(std::string k, const std::string& m)
      : std::runtime_error(m), key(std::move(k)) {}
  std::string key;
};
// Thrown to abandon a whole run (fail limit, time cap).
struct Stop {};

struct Shared {  // lives in a file mapping so that the driver can read it
  volatile int64_t id;
  volatile int64_t hang;
  char desc[8000];
};

struct Run {
  int shard = 0, nshards = 1;
  bool thorough = false;
  int64_t only = -1;
  double cap_s = 1e9;      // wall-clock cap for this shard
  int case_cpu_s = 20;     // CPU limit of one case
  std::string out, cur, scratch = "/tmp";

  // Measured counters.
  uint64_t states = 0, transitions = 0, traces = 0, cases = 0;
  std::map<std::string, uint64_t> extra;
  std::vector<std::string> samples;
  struct F {
    int64_t id;
    std::string key, desc, detail;
  };
  std::vector<F> fails;
  bool capped = false;
  int64_t next_id = 0;
  Shared* sh = nullptr;
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();

  double elapsed() const {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0)
        .count();
  }

  bool mine(int64_t id) const {
    if (only >= 0) return id == only;
    const uint64_t x = (static_cast<uint64_t>(id) + 1) * 0x9E3779B97F4A7C15ull;
    return static_cast<int>((x >> 40) % static_cast<uint64_t>(nshards)) == shard;
  }

  // Runs one case.  `desc` is evaluated only when the case is executed.
  template <typename Desc, typename Body>
  void kase(Desc&& desc, Body&& body) {
    const int64_t id = next_id++;
    if (!mine(id)) return;
    if (elapsed() > cap_s) {
      capped = true;
      throw Stop();
    }
    const std::string d = desc();
    strncpy(sh->desc, d.c_str(), sizeof(sh->desc) - 1);
    sh->id = id;
    arm(case_cpu_s);
    std::string key, detail;
    bool failed = false;
    try {
      body();
    } catch (const Failure& f) {
      failed = true;
      key = f.key;
      detail = f.what();
    } catch (const Stop&) {
      throw;
    } catch (const std::exception& e) {
      failed = true;
      key = "exception";
      detail = std::string("unexpected exception: ") + e.what();
    } catch (...) {
      failed = true;
      key = "exception";
      detail = "unexpected exception of unknown type";
    }
    arm(0);
    cases++;
    if (cases <= 2 || (cases & (cases - 1)) == 0) {
      if (samples.size() < 12) samples.push_back(d.substr(0, 1500));
    }
    if (failed) {
      fails.push_back({id, key, d, detail});
      fprintf(stderr, "FAIL case=%lld key=%s\n%s\n%s\n",
              static_cast<long long>(id), key.c_str(), d.c_str(),
              detail.c_str());
      if (fails.size() >= 25) throw Stop();
    }
    sh->id = -1;
    if (only >= 0) throw Stop();
  }

  void arm(int cpu_s) {
    itimerval tv{};
    tv.it_value.tv_sec = cpu_s;
    setitimer(ITIMER_PROF, &tv, nullptr);
  }
};

inline Run R;

inline void OnProf(int) {
  if (R.sh != nullptr) R.sh->hang = 1;
  _exit(42);
}

inline std::string Esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c >= 127) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o;
}

inline void WriteResult() {
  rusage ru{};
  getrusage(RUSAGE_SELF, &ru);
  R.extra["max_memory_mb"] = static_cast<uint64_t>(ru.ru_maxrss) / 1024;
  std::ostringstream o;
  o << "{\"states\":" << R.states << ",\"transitions\":" << R.transitions
    << ",\"traces\":" << R.traces << ",\"cases\":" << R.cases
    << ",\"all_cases\":" << R.next_id
    << ",\"capped\":" << (R.capped ? "true" : "false") << ",\"extra\":{";
  bool first = true;
  for (const auto& kv : R.extra) {
    o << (first ? "" : ",") << '"' << Esc(kv.first) << "\":" << kv.second;
    first = false;
  }
  o << "},\"samples\":[";
  first = true;
  for (const auto& s : R.samples) {
    o << (first ? "" : ",") << '"' << Esc(s) << '"';
    first = false;
  }
  o << "],\"fails\":[";
  first = true;
  for (const auto& f : R.fails) {
    o << (first ? "" : ",") << "{\"id\":" << f.id << ",\"key\":\"" << Esc(f.key)
      << "\",\"desc\":\"" << Esc(f.desc) << "\",\"detail\":\"" << Esc(f.detail)
      << "\"}";
    first = false;
  }
  o << "]}\n";
  FILE* fp = fopen(R.out.c_str(), "w");
  if (fp == nullptr) {
    perror("result file");
    _exit(3);
  }
  fputs(o.str().c_str(), fp);
  fclose(fp);
}

// The harness provides this.
void Main();

}  // namespace H

#define FAILK(key, expr)                 \
  do {                                   \
    std::ostringstream os_;              \
    os_ << expr;                         \
    throw ::H::Failure(key, os_.str());  \
  } while (0)
#define FAIL(expr) FAILK("mismatch", expr)
#define CHECK(cond, expr)                         \
  do {                                            \
    if (!(cond)) FAIL("[" #cond "] " << expr);    \
  } while (0)
#define CHECKK(key, cond, expr)                         \
  do {                                                  \
    if (!(cond)) FAILK(key, "[" #cond "] " << expr);    \
  } while (0)

int main(int argc, char** argv) {
  using H::R;
  for (int i = 1; i + 1 < argc; i += 2) {
    const std::string k = argv[i], v = argv[i + 1];
    if (k == "--shard") {
      sscanf(v.c_str(), "%d/%d", &R.shard, &R.nshards);
    } else if (k == "--tier") {
      R.thorough = v == "thorough";
    } else if (k == "--only") {
      R.only = atoll(v.c_str());
    } else if (k == "--cap") {
      R.cap_s = atof(v.c_str());
    } else if (k == "--case-cpu") {
      R.case_cpu_s = atoi(v.c_str());
    } else if (k == "--out") {
      R.out = v;
    } else if (k == "--cur") {
      R.cur = v;
    } else if (k == "--scratch") {
      R.scratch = v;
    }
  }
  if (R.out.empty()) R.out = "/dev/stdout";
  static H::Shared local;
  R.sh = &local;
  if (!R.cur.empty()) {
    const int fd = open(R.cur.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(H::Shared)) != 0) return 3;
    R.sh = static_cast<H::Shared*>(mmap(nullptr, sizeof(H::Shared),
                                        PROT_READ | PROT_WRITE, MAP_SHARED, fd,
                                        0));
  }
  R.sh->id = -1;
  R.sh->hang = 0;
  signal(SIGPROF, H::OnProf);
  try {
    H::Main();
  } catch (const H::Stop&) {
  }
  R.arm(0);
  H::WriteResult();
  fflush(nullptr);
  _exit(R.fails.empty() ? 0 : 1);  // skip leak checks and static destructors
}

#endif  // VERIF_H_H_
