// Deterministic simulation core: PRNG, plans, reporting, seams.
// One plan (a list of text lines) fully determines one simulated run.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <functional>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix(seed ^ 0x5bd1e995cafef00dULL)) {}
  uint64_t u64() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
  uint64_t n(uint64_t k) { return k ? u64() % k : 0; }
  int range(int lo, int hi) { return lo + (int)n((uint64_t)(hi - lo + 1)); }
  double unit() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
  double gauss();
  template <class T> const T &pick(const std::vector<T> &v) { return v[n(v.size())]; }
};

// ---------------------------------------------------------------- plans
struct Line {
  std::string op;
  std::vector<std::pair<std::string, std::string>> kv;
  Line() {}
  explicit Line(const std::string &o) : op(o) {}
  bool has(const std::string &k) const;
  std::string s(const std::string &k, const std::string &def = "") const;
  int64_t i(const std::string &k, int64_t def = 0) const;
  double f(const std::string &k, double def = 0) const;
  Line &set(const std::string &k, const std::string &v);
  Line &set(const std::string &k, const char *v) { return set(k, std::string(v)); }
  Line &set(const std::string &k, int64_t v);
  Line &set(const std::string &k, int v) { return set(k, (int64_t)v); }
  Line &set(const std::string &k, uint64_t v) { return set(k, (int64_t)v); }
  Line &set(const std::string &k, double v);
  std::string str() const;
  static Line parse(const std::string &text);
};
typedef std::vector<Line> Plan;
const Line *find(const Plan &p, const std::string &op);

struct Tier { bool thorough; };

struct Property {
  const char *id;
  void (*gen)(Rng &r, Plan &p, const Tier &t);
  void (*run)(const Plan &p);
  const char *rule;
};
void add_property(const Property &p);
struct Reg { Reg(const Property &p) { add_property(p); } };

// ---------------------------------------------------------------- reporting
// Records the violation and ends the simulated run (the process).
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
// The harness itself is at fault (never a violation).
[[noreturn]] void broken(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Event log: hashed; the hash of two executions of one plan must agree.
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void count(const char *key, int64_t n = 1);
void count_max(const char *key, int64_t n);
void state(uint64_t h);          // distinct state / interleaving reached
void nontrivial();               // this run met the property's non-trivial rule
uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ULL);
inline uint64_t fnv(const std::string &s) { return fnv(s.data(), s.size()); }
extern bool g_verbose;

// ---------------------------------------------------------------- allocator seam
namespace mem {
// Marks code under test: injected failures and accounting apply only inside.
struct Sut { Sut(); ~Sut(); };
void fill(int mode, uint64_t seed);  // contents of fresh memory: 0 zero, 1 0xff, 2 random, 3 small ints, 4 floats/NaN
void fail_at(int64_t nth, int64_t times);  // the nth next SUT allocation (1..) fails, `times` in a row (<=0: never)
int64_t sut_allocs();                // allocations made inside SUT so far
int64_t fails_fired();
void track(bool on);
int64_t live_blocks();
int64_t live_bytes();
int64_t peak_bytes();
void reset_peak();
std::string live_summary();
uint64_t moved();                    // bytes copied, moved or set so far (includes the harness's own)
}

// ---------------------------------------------------------------- I/O seam
namespace io {
void reset();
void put(const std::string &path, const std::string &bytes);
bool exists(const std::string &path);
const std::string &get(const std::string &path);
// Faults. `kind`: eio, eintr, eof (stream ends early), open (open fails with err)
struct Fault { std::string path, kind; int64_t at; int64_t times; int err; bool armed; int64_t fired; };
int add_fault(const std::string &path, const std::string &kind, int64_t at, int64_t times, int err);
void clear_faults();
int64_t fired(const char *kind = nullptr);
void short_reads(int maxlen, uint64_t seed);  // 0: off
int open_handles();
void limit_handles(int n);   // a process may have this many files open at a time (0: any number)
int64_t bytes_read();
int64_t reads();
std::vector<std::string> paths();
FILE *open_file(const std::string &path);      // harness-side open through the seam
}

// ---------------------------------------------------------------- clock & randomness seams
namespace env {
void reseed(uint64_t seed);   // what time(), clock(), rand() ... will answer
}

// ---------------------------------------------------------------- scheduler seam
namespace sched {
struct Trig { uint32_t guard; uint64_t hit; int to; };   // pre-empt at the hit-th visit of guard
struct Profile { uint64_t edges; std::vector<std::pair<uint32_t, uint32_t>> guards; };
// Solo profiling of one operation on the calling thread (no scheduler active)
void profile_begin();
Profile profile_end();
// Tasks. Only one runs at a time; the simulator decides which.
int spawn(std::function<void()> fn, const char *name);
// mode: gap>0 random pre-emption with mean gap edges (seeded); 0: only explicit triggers
struct Config { uint64_t seed; double gap; double conf, sync, hold; bool spurious; int start_delay; std::vector<std::pair<uint64_t, int>> explicit_at; bool use_explicit; };
void run(const Config &c);
Config config(const Plan &p);   // from `sched` and `switch` lines
void op_begin(const std::vector<std::pair<uint64_t, int>> &at_edges, const std::vector<Trig> &trigs);  // in a task
void op_end();
bool touching();              // the code under test runs in a scheduled thread
void touch(const void *p, bool store);   // a scheduling point before an access
void yield();                 // voluntary, harness level
int self();
uint64_t switches();
uint64_t trace_hash();
std::vector<std::pair<uint64_t, int>> recorded();
uint32_t num_guards();
void set_budget(uint64_t edges);   // abort the run as "no-progress" beyond this many edges
uint64_t edges();
void fail_threads(int64_t nth, int64_t times);   // the nth creation of a thread by the code under test, and the following ones, fail
}

// Runs fn in a forked, otherwise pristine copy of this process and returns what it answers.
std::string pristine(std::function<std::string()> fn);

}  // namespace sim
