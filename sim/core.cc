// Core of the simulator: plans, reporting, the per-run process and the batch driver.
#include "sim.h"
#include "internal.h"
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <math.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <set>
#include <typeinfo>
#include <exception>

extern "C" __attribute__((weak)) const char *__asan_default_options() {  // a driver may define its own
  return "detect_leaks=0:symbolize=0:exitcode=99:abort_on_error=0:handle_abort=0:"
         "allocator_may_return_null=1:max_malloc_fill_size=0:quarantine_size_mb=16:"
         "detect_stack_use_after_return=0:malloc_context_size=2:print_legend=0:"
         "detect_container_overflow=1:allow_user_segv_handler=0";
}

namespace sim {

bool g_verbose = false;

double Rng::gauss() {
  double u = unit(), v = unit();
  if (u < 1e-12) u = 1e-12;
  return sqrt(-2 * log(u)) * cos(6.283185307179586 * v);
}

// ------------------------------------------------------------------ plans
bool Line::has(const std::string &k) const {
  for (auto &p : kv) if (p.first == k) return true;
  return false;
}
std::string Line::s(const std::string &k, const std::string &def) const {
  for (auto &p : kv) if (p.first == k) return p.second;
  return def;
}
int64_t Line::i(const std::string &k, int64_t def) const {
  for (auto &p : kv) if (p.first == k) return strtoll(p.second.c_str(), nullptr, 0);
  return def;
}
double Line::f(const std::string &k, double def) const {
  for (auto &p : kv) if (p.first == k) return strtod(p.second.c_str(), nullptr);
  return def;
}
Line &Line::set(const std::string &k, const std::string &v) {
  for (auto &p : kv) if (p.first == k) { p.second = v; return *this; }
  kv.push_back({k, v});
  return *this;
}
Line &Line::set(const std::string &k, int64_t v) { return set(k, std::to_string(v)); }
Line &Line::set(const std::string &k, double v) {
  char b[64];
  snprintf(b, sizeof b, "%.6g", v);
  return set(k, std::string(b));
}
std::string Line::str() const {
  std::string r = op;
  for (auto &p : kv) r += " " + p.first + "=" + p.second;
  return r;
}
Line Line::parse(const std::string &t) {
  Line l;
  size_t i = 0;
  bool first = true;
  while (i < t.size()) {
    size_t j = t.find(' ', i);
    if (j == std::string::npos) j = t.size();
    std::string w = t.substr(i, j - i);
    i = j + 1;
    if (w.empty()) continue;
    if (first) { l.op = w; first = false; continue; }
    size_t e = w.find('=');
    if (e == std::string::npos) l.kv.push_back({w, ""});
    else l.kv.push_back({w.substr(0, e), w.substr(e + 1)});
  }
  return l;
}
const Line *find(const Plan &p, const std::string &op) {
  for (auto &l : p) if (l.op == op) return &l;
  return nullptr;
}

static std::vector<Property> &props() { static std::vector<Property> v; return v; }
void add_property(const Property &p) { props().push_back(p); }

// ------------------------------------------------------------------ reporting
Shm *g_shm = nullptr;

uint64_t fnv(const void *p, size_t n, uint64_t h) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
  return h;
}

static void finish_stats() {
  io_publish();
  mem_publish();
  sched_publish();
}

void fail(const char *cls, const char *fmt, ...) {
  if (g_shm->status == 0) {
    va_list ap;
    va_start(ap, fmt);
    char tmp[sizeof g_shm->msg];
    vsnprintf(tmp, sizeof tmp, fmt, ap);
    va_end(ap);
    snprintf(g_shm->cls, sizeof g_shm->cls, "%s", cls);
    memcpy(g_shm->msg, tmp, sizeof tmp);
    g_shm->status = 2;
    finish_stats();
  }
  if (g_verbose) fprintf(stderr, "FAIL %s: %s\n", g_shm->cls, g_shm->msg);
  _exit(3);
}

void broken(const char *fmt, ...) {
  if (g_shm->status == 0) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(g_shm->msg, sizeof g_shm->msg, fmt, ap);
    va_end(ap);
    g_shm->status = 3;
  }
  if (g_verbose) fprintf(stderr, "BROKEN: %s\n", g_shm->msg);
  _exit(4);
}

void ev(const char *fmt, ...) {
  char tmp[4096];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(tmp, sizeof tmp, fmt, ap);
  va_end(ap);
  if (n < 0) n = 0;
  size_t len = strlen(tmp);
  g_shm->hash = fnv(tmp, len, g_shm->hash ^ 0x9e37);
  g_shm->events++;
  if (g_verbose) fprintf(stderr, "EV %s\n", tmp);
}

static void count_impl(const char *key, int64_t n, bool mx) {
  for (int i = 0; i < g_shm->ncounters; ++i) {
    if (!strcmp(g_shm->c[i].key, key)) {
      if (mx) { if (n > g_shm->c[i].v) g_shm->c[i].v = n; }
      else g_shm->c[i].v += n;
      return;
    }
  }
  if (g_shm->ncounters >= kMaxCounters) return;
  Shm::Counter &c = g_shm->c[g_shm->ncounters];
  snprintf(c.key, sizeof c.key, "%s", key);
  c.v = n;
  c.mx = mx;
  g_shm->ncounters++;
}
void count(const char *key, int64_t n) { count_impl(key, n, false); }
void count_max(const char *key, int64_t n) { count_impl(key, n, true); }
void state(uint64_t h) {
  if (g_shm->nstates < kMaxStates) g_shm->states[g_shm->nstates++] = h;
}
void nontrivial() { g_shm->nontrivial = 1; }

// ------------------------------------------------------------------ one run
struct Outcome {
  std::string status;  // ok, violation, broken
  std::string cls, msg;
  uint64_t hash;
  std::string err;
};

static std::string grab(int fd) {
  std::string r;
  off_t n = lseek(fd, 0, SEEK_END);
  if (n <= 0) return r;
  off_t from = 0;
  if (n > 60000) n = 60000;
  r.resize(n);
  ssize_t k = pread(fd, &r[0], n, from);
  r.resize(k < 0 ? 0 : k);
  return r;
}

static std::string first_line_with(const std::string &t, const std::string &pat) {
  size_t p = t.find(pat);
  if (p == std::string::npos) return "";
  size_t b = t.rfind('\n', p);
  b = b == std::string::npos ? 0 : b + 1;
  size_t e = t.find('\n', p);
  return t.substr(b, e == std::string::npos ? e : e - b);
}

static const Property *lookup(const std::string &id) {
  for (auto &p : props()) if (id == p.id) return &p;
  return nullptr;
}

static Outcome exec_plan(const Property &pr, const Plan &plan, bool verbose, int wall_s) {
  Outcome o;
  memset((void *)g_shm, 0, sizeof(Shm));
  g_shm->hash = 1469598103934665603ULL;
  int efd = verbose ? -1 : memfd_create("stderr", 0);
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) { o.status = "broken"; o.msg = "fork"; return o; }
  if (pid == 0) {
    if (!verbose) {
      int nul = open("/dev/null", O_RDWR);
      dup2(nul, 0);
      dup2(nul, 1);
      dup2(efd, 2);
    }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    g_verbose = verbose;
    run_begin();
    try {
      pr.run(plan);
    } catch (std::exception &e) {
      fail("uncaught-exception", "exception escaped: %s (%s)", typeid(e).name(), e.what());
    } catch (...) {
      fail("uncaught-exception", "exception escaped");
    }
    if (g_shm->status == 0) {
      finish_stats();
      g_shm->status = 1;
    }
    _exit(0);
  }
  // wait with a wall-clock limit (only for code that stops making simulated progress)
  int st = 0;
  bool timed_out = false;
  {
    sigset_t ss;
    sigemptyset(&ss);
    sigaddset(&ss, SIGCHLD);
    struct timespec t0, now;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    for (;;) {
      pid_t w = waitpid(pid, &st, WNOHANG);
      if (w == pid) break;
      clock_gettime(CLOCK_MONOTONIC, &now);
      double el = (now.tv_sec - t0.tv_sec) + (now.tv_nsec - t0.tv_nsec) * 1e-9;
      if (el > wall_s) {
        kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        timed_out = true;
        break;
      }
      struct timespec lim = {el > 0.5 ? 0 : 0, el < 0.02 ? 200000 : 5000000};
      sigtimedwait(&ss, nullptr, &lim);
    }
  }
  if (efd >= 0) { o.err = grab(efd); close(efd); }
  o.hash = g_shm->hash;
  if (g_shm->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    o.status = "ok";
    return o;
  }
  if (g_shm->status == 2) {
    o.status = "violation";
    o.cls = g_shm->cls;
    o.msg = g_shm->msg;
    return o;
  }
  if (g_shm->status == 3) {
    o.status = "broken";
    o.msg = g_shm->msg;
    return o;
  }
  o.status = "violation";
  std::string l;
  if (timed_out) {
    o.cls = "hang";
    o.msg = "no result within the wall-clock limit";
  } else if (!(l = first_line_with(o.err, "ERROR: AddressSanitizer:")).empty()) {
    size_t p = l.find("AddressSanitizer: ") + 18;
    std::string k = l.substr(p);
    k = k.substr(0, k.find(' '));
    o.cls = "crash:asan-" + k;
    o.msg = "memory error: " + k;
  } else if (!(l = first_line_with(o.err, "Assertion ")).empty()) {
    o.cls = "crash:assert";
    o.msg = l;
  } else if (!(l = first_line_with(o.err, "terminate called")).empty()) {
    o.cls = "crash:terminate";
    o.msg = l;
  } else if (WIFSIGNALED(st)) {
    o.cls = "crash:signal-" + std::to_string(WTERMSIG(st));
    o.msg = "killed by signal " + std::to_string(WTERMSIG(st));
  } else {
    o.cls = "crash:exit-" + std::to_string(WEXITSTATUS(st));
    o.msg = "process exited unexpectedly with status " + std::to_string(WEXITSTATUS(st));
  }
  return o;
}

static std::string esc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}

static Plan gen_plan(const Property &pr, uint64_t seed, uint64_t idx, bool thorough) {
  Rng r(mix(seed) ^ mix(fnv(pr.id, strlen(pr.id)) + idx));
  Plan p;
  Tier t = {thorough};
  pr.gen(r, p, t);
  return p;
}

static std::string plan_text(const Property &pr, const Plan &p) {
  std::string s = std::string("property ") + pr.id + "\n";
  for (auto &l : p) s += l.str() + "\n";
  return s;
}

static Plan with_trace(const Plan &p) {
  // Replaces the random pre-emption of `sched` lines by the recorded decisions
  if (g_shm->nrec == 0) return p;
  Plan q;
  for (auto &l : p) {
    if (l.op == "sched" && l.f("gap") > 0) {
      Line m = l;
      m.set("gap", 0.0);
      m.set("explicit", 1);
      q.push_back(m);
      for (int i = 0; i < g_shm->nrec; ++i) {
        Line s("switch");
        s.set("at", (int64_t)g_shm->rec[i].at).set("to", g_shm->rec[i].to);
        q.push_back(s);
      }
    } else {
      q.push_back(l);
    }
  }
  return q;
}

static bool read_plan(const char *file, std::string *prop, Plan *plan) {
  FILE *f = fopen(file, "r");
  if (!f) return false;
  char *line = nullptr;
  size_t cap = 0;
  ssize_t n;
  while ((n = getline(&line, &cap, f)) > 0) {
    std::string t(line, n);
    while (!t.empty() && (t.back() == '\n' || t.back() == '\r')) t.pop_back();
    if (t.empty() || t[0] == '#') continue;
    Line l = Line::parse(t);
    if (l.op == "property") { if (!l.kv.empty()) *prop = l.kv[0].first; continue; }
    plan->push_back(l);
  }
  free(line);
  fclose(f);
  return true;
}

}  // namespace sim

using namespace sim;

__attribute__((weak)) void sim_warmup() {}

int main(int argc, char **argv) {
  // one address-space layout for every execution of a plan (no effect where not permitted)
  if (!getenv("CESIM_NOASLR")) {
    setenv("CESIM_NOASLR", "1", 1);
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  std::map<std::string, std::string> a;
  for (int i = 1; i < argc; ++i) {
    std::string k = argv[i];
    if (k.substr(0, 2) != "--") continue;
    k = k.substr(2);
    if (i + 1 < argc && strncmp(argv[i + 1], "--", 2)) a[k] = argv[++i];
    else a[k] = "1";
  }
  signal(SIGPIPE, SIG_IGN);
  // SIGCHLD must be blockable for sigtimedwait
  sigset_t ss;
  sigemptyset(&ss);
  sigaddset(&ss, SIGCHLD);
  sigprocmask(SIG_BLOCK, &ss, nullptr);
  g_shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  cov_init();
  sim_warmup();
  bool thorough = a["tier"] == "thorough";
  int wall = a.count("wall") ? atoi(a["wall"].c_str()) : 100;

  if (a.count("list")) {
    for (auto &p : props()) printf("%s\t%s\n", p.id, p.rule);
    return 0;
  }
  if (a.count("replay")) {
    std::string prop;
    Plan plan;
    if (!read_plan(a["replay"].c_str(), &prop, &plan)) { fprintf(stderr, "cannot read plan\n"); return 2; }
    const Property *pr = lookup(prop);
    if (!pr) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
    Outcome o = exec_plan(*pr, plan, a.count("verbose") > 0, wall);
    if (a.count("record")) {
      FILE *f = fopen(a["record"].c_str(), "w");
      std::string t = plan_text(*pr, with_trace(plan));
      fwrite(t.data(), 1, t.size(), f);
      fclose(f);
    }
    printf("{\"status\":\"%s\",\"cls\":\"%s\",\"msg\":\"%s\",\"hash\":\"%016" PRIx64 "\",\"err\":\"%s\"}\n",
           o.status.c_str(), esc(o.cls).c_str(), esc(o.msg).c_str(), o.hash,
           a.count("stderr") ? esc(o.err).c_str() : "");
    return o.status == "ok" ? 0 : o.status == "violation" ? 1 : 2;
  }
  const Property *pr = lookup(a["prop"]);
  if (!pr) { fprintf(stderr, "unknown property '%s'\n", a["prop"].c_str()); return 2; }
  uint64_t seed = strtoull(a["seed"].c_str(), nullptr, 0);
  uint64_t from = strtoull(a["from"].c_str(), nullptr, 0);
  uint64_t cnt = a.count("count") ? strtoull(a["count"].c_str(), nullptr, 0) : 1;
  uint64_t step = a.count("step") ? strtoull(a["step"].c_str(), nullptr, 0) : 1;
  double tlimit = a.count("time") ? atof(a["time"].c_str()) : 1e18;
  int twice = a.count("twice") ? atoi(a["twice"].c_str()) : 16;
  int maxviol = a.count("maxviol") ? atoi(a["maxviol"].c_str()) : 1;
  if (a.count("gen")) {
    Plan p = gen_plan(*pr, seed, from, thorough);
    std::string t = plan_text(*pr, p);
    fwrite(t.data(), 1, t.size(), stdout);
    return 0;
  }
  // batch
  std::map<std::string, std::pair<int64_t, bool>> ctr;
  std::set<uint64_t> hashes, states;
  uint64_t runs = 0, nontriv = 0, checked_twice = 0, events = 0;
  std::vector<std::string> sample;
  struct timespec t0, now;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  int viol = 0;
  for (uint64_t i = 0; i < cnt; ++i) {
    clock_gettime(CLOCK_MONOTONIC, &now);
    double el = (now.tv_sec - t0.tv_sec) + (now.tv_nsec - t0.tv_nsec) * 1e-9;
    if (el > tlimit) break;
    uint64_t idx = from + i * step;
    Plan p = gen_plan(*pr, seed, idx, thorough);
    Outcome o = exec_plan(*pr, p, false, wall);
    ++runs;
    if (o.status == "broken") {
      printf("BROKEN %" PRIu64 " %s\n", idx, esc(o.msg).c_str());
      return 2;
    }
    if (o.status == "violation") {
      std::string f = a["outdir"] + "/viol-" + pr->id + "-" + std::to_string(idx) + ".plan";
      FILE *fp = fopen(f.c_str(), "w");
      std::string t = plan_text(*pr, p);
      fwrite(t.data(), 1, t.size(), fp);
      fclose(fp);
      printf("VIOL %" PRIu64 "\t%s\t%s\t%s\t%016" PRIx64 "\n", idx, f.c_str(), esc(o.cls).c_str(), esc(o.msg).c_str(), o.hash);
      fflush(stdout);
      if (++viol >= maxviol) break;
      continue;
    }
    if (g_shm->nontrivial) { ++nontriv; hashes.insert(o.hash); }
    events += g_shm->events;
    for (int s = 0; s < g_shm->nstates; ++s) states.insert(g_shm->states[s]);
    for (int c = 0; c < g_shm->ncounters; ++c) {
      auto &e = ctr[g_shm->c[c].key];
      e.second = g_shm->c[c].mx;
      if (e.second) e.first = std::max(e.first, g_shm->c[c].v);
      else e.first += g_shm->c[c].v;
    }
    if (sample.size() < 2 && g_shm->nontrivial) {
      std::string t = plan_text(*pr, p);
      if (t.size() > 1500) t = t.substr(0, 1500) + "...";
      sample.push_back(t);
    }
    if (twice > 0 && idx % twice == 0) {
      static int nondet = 0;
      uint64_t h = o.hash;
      Outcome o2 = exec_plan(*pr, p, false, wall);
      ++checked_twice;
      if (o2.status != "ok" || o2.hash != h) {
        printf("NONDET %" PRIu64 " %016" PRIx64 " %016" PRIx64 " %s %s\n", idx, h, o2.hash, o2.cls.c_str(), esc(o2.msg).c_str());
        std::string f = a["outdir"] + "/nondet-" + pr->id + "-" + std::to_string(idx) + ".plan";
        FILE *fp = fopen(f.c_str(), "w");
        std::string t = plan_text(*pr, p);
        fwrite(t.data(), 1, t.size(), fp);
        fclose(fp);
        fflush(stdout);
        if (++nondet >= 3) break;
      }
    }
  }
  std::string bin = a["outdir"] + "/states-" + std::to_string(from) + ".bin";
  FILE *f = fopen(bin.c_str(), "wb");
  if (f) {
    for (uint64_t s : states) fwrite(&s, 8, 1, f);
    fclose(f);
  }
  bin = a["outdir"] + "/hashes-" + std::to_string(from) + ".bin";
  f = fopen(bin.c_str(), "wb");
  if (f) {
    for (uint64_t s : hashes) fwrite(&s, 8, 1, f);
    fclose(f);
  }
  printf("STATS {\"runs\":%" PRIu64 ",\"nontrivial\":%" PRIu64 ",\"events\":%" PRIu64 ",\"twice\":%" PRIu64 ",\"edges_reached\":%u,\"edges_total\":%u,\"counters\":{",
         runs, nontriv, events, checked_twice, cov_reached(), cov_total());
  bool firstc = true;
  for (auto &c : ctr) {
    printf("%s\"%s\":[%" PRId64 ",%d]", firstc ? "" : ",", esc(c.first).c_str(), c.second.first, (int)c.second.second);
    firstc = false;
  }
  printf("},\"samples\":[");
  for (size_t i = 0; i < sample.size(); ++i) printf("%s\"%s\"", i ? "," : "", esc(sample[i]).c_str());
  printf("]}\n");
  return viol ? 1 : 0;
}
