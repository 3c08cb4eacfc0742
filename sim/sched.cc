// Scheduler seam: real threads, one running at a time; every switch is the simulator's decision.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include "internal.h"
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <math.h>

extern "C" {
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_detach(pthread_t);
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
int __real_pthread_mutex_destroy(pthread_mutex_t *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *);
int __real_pthread_cond_destroy(pthread_cond_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_cond_broadcast(pthread_cond_t *);
int __real_pthread_once(pthread_once_t *, void (*)());
int __real_nanosleep(const struct timespec *, struct timespec *);
int __real_clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *);
int __real_usleep(useconds_t);
int __real_sched_yield();
int __real___cxa_guard_acquire(void *);
void __real___cxa_guard_release(void *);
void __real___cxa_guard_abort(void *);
}

namespace sim {
namespace sched {

enum St { Ready, Running, BlkMutex, BlkCond, BlkJoin, BlkGuard, Sleeping, Done };
static const char *kStName[] = {"ready", "running", "blocked-on-mutex", "waiting-on-condition", "joining", "blocked-on-init", "sleeping", "done"};
struct Task {
  int id = 0;
  std::string name;
  St st = Ready;
  const void *obj = nullptr;
  const void *mtx = nullptr;
  sem_t sem, ack;          // ack: the new thread is parked; posted to `sem` after Done: it may exit
  pthread_t real;
  bool has_real = false, sut_thread = false, detached = false, timed = false, timed_out = false;
  std::function<void()> fn;
  void *(*cfn)(void *) = nullptr;
  void *carg = nullptr;
  uint64_t wake = 0;
  uint64_t edges = 0, run_edges = 0;
  // profiling / explicit triggers inside one operation
  bool prof = false, op = false;
  uint64_t op_edges = 0;
  uint32_t *cnt = nullptr;
  std::vector<uint32_t> touched;
  std::vector<std::pair<uint64_t, int>> at;
  std::vector<Trig> trig;
  size_t at_i = 0;
};

static __thread Task *t_cur __attribute__((tls_model("initial-exec"))) = nullptr;
static __thread int t_in __attribute__((tls_model("initial-exec"))) = 0;
static Task g_main;
static std::vector<Task *> &tasks() { static std::vector<Task *> *v = new std::vector<Task *>; return *v; }
static bool g_active = false;
static bool g_slow = false;   // a schedule or a profile is being made: every scheduling point counts
static sem_t g_ctl;
static Config g_cfg;
static Rng g_rng(1);
static uint64_t g_steps = 0, g_switches = 0, g_forced = 0, g_picks = 0, g_spur = 0, g_now = 0, g_sigs = 0;
static uint64_t g_next_preempt = 0, g_hash = 0;
static size_t g_exp_i = 0;
static std::map<uint64_t, int> *g_exp_pick = nullptr;
static uint64_t g_budget = 2500000000ull;
static uint64_t g_fair = 3000000;
static uint32_t g_nguards = 0;
static unsigned char *g_cov = nullptr;
static const uint32_t kCov = 1 << 20;
// Which threads read and wrote which memory while threads run: the scheduler likes to switch where they meet
struct Cell { uint64_t g; uint16_t rd, wr; uint32_t n; };
static Cell *g_cells = nullptr;
static const uint32_t kCells = 1 << 17;
// A thread held where it is about to touch shared memory, until another one has written there
static Task *g_held = nullptr, *g_to_hold = nullptr;   // (g_to_hold: at one of its next scheduling points)
static int g_to_hold_in = 0;
static uint64_t g_held_cell = 0, g_held_until = ~0ull;
static int64_t g_holds = 0, g_hold_hits = 0;
static int64_t g_meets = 0, g_conf_switches = 0, g_sync_switches = 0;
static bool g_real_threads = false;   // threads were started outside a scheduled section
static int64_t g_locks = 0, g_waits = 0, g_sleeps = 0, g_contended = 0, g_preempts = 0;

struct In {
  int s;
  In() : s(t_sut) { ++t_in; t_sut = 0; }
  ~In() { t_sut = s; --t_in; }
};

static uint64_t next_gap() {
  if (g_cfg.gap <= 0) return ~0ull;
  // geometric-like, with some very short gaps: bursts of switches happen
  double u = g_rng.unit();
  if (g_rng.chance(0.15)) return 1 + (uint64_t)(u * 6);
  // short gaps: after the first switches in bursts, so that long runs stay affordable
  static int burst = 0;
  if (g_cfg.gap < 15000 && g_preempts > 4000 && --burst < 0) {
    burst = (int)g_rng.n(400);
    return 1 + (uint64_t)(-log(1 - u * 0.999999) * 200000);
  }
  double g = -log(1 - u * 0.999999) * g_cfg.gap;
  return 1 + (uint64_t)g;
}

static void record(uint64_t at, int to) {
  if (g_shm->nrec < kMaxRec) {
    g_shm->rec[g_shm->nrec].at = at;
    g_shm->rec[g_shm->nrec].to = to;
    g_shm->nrec++;
  }
}
static const uint64_t kPick = 1ull << 62, kSpur = 1ull << 61, kSig = 1ull << 60;

static Task *next_of(const std::vector<Task *> &r, int after) {
  for (Task *t : r) if (t->id > after) return t;
  return r.empty() ? nullptr : r[0];
}

static void wake_sleepers(bool jump) {
  if (jump) {
    uint64_t m = ~0ull;
    for (Task *t : tasks()) if (t->st == Sleeping || (t->st == BlkCond && t->timed)) m = std::min(m, t->wake);
    if (m != ~0ull && m > g_now) g_now = m;
  }
  for (Task *t : tasks()) {
    if (t->st == Sleeping && t->wake <= g_now) t->st = Ready;
    if (t->st == BlkCond && t->timed && t->wake <= g_now) { t->st = Ready; t->timed_out = true; t->obj = nullptr; }
  }
}

static std::string describe() {
  std::string s;
  for (Task *t : tasks()) { if (t->st == Done) continue; s += " [" + t->name + ": " + kStName[t->st] + "]"; }
  return s;
}

static void release_held() { g_held = g_to_hold = nullptr; g_held_until = ~0ull; }
// Chooses who runs next when the current task cannot (or offers to stop).
static Task *pick(int cur_id) {
  g_now += 1000;
  wake_sleepers(false);
  for (int round = 0; round < 2; ++round) {
    std::vector<Task *> r, w;
    for (Task *t : tasks()) {
      if (t->st == Ready) r.push_back(t);
      if (t->st == BlkCond) w.push_back(t);
    }
    uint64_t k = g_picks;
    if (g_cfg.use_explicit) {
      auto it = g_exp_pick->find(k | kSpur);
      if (it != g_exp_pick->end()) {
        for (Task *t : w) if (t->id == it->second) { t->st = Ready; t->obj = nullptr; r.push_back(t); ++g_spur; }
      }
    } else if (g_cfg.spurious && !w.empty() && !r.empty() && g_rng.chance(0.05)) {
      Task *t = w[g_rng.n(w.size())];
      t->st = Ready;
      t->obj = nullptr;
      r.push_back(t);
      record(k | kSpur, t->id);
      ++g_spur;
    }
    if (!r.empty()) {
      ++g_picks;
      Task *def = next_of(r, cur_id);
      if (g_cfg.use_explicit) {
        auto it = g_exp_pick->find(k | kPick);
        if (it != g_exp_pick->end()) for (Task *t : r) if (t->id == it->second) return t;
        return def;
      }
      if (g_held && r.size() > 1) r.erase(std::remove(r.begin(), r.end(), g_held), r.end());
      Task *c = r[g_rng.n(r.size())];
      if (c == g_held) release_held();
      if (c != def) record(k | kPick, c->id);
      return c;
    }
    wake_sleepers(true);
  }
  return nullptr;
}

static void post(Task *t) {
  t->st = Running;
  t->run_edges = 0;
  ++g_switches;
  g_hash = mix(g_hash ^ ((uint64_t)t->id << 40) ^ t->edges);
  sem_post(&t->sem);
}
static void park(Task *me) {
  while (sem_wait(&me->sem) != 0) {}
}

static bool harness_done() {
  for (Task *t : tasks()) if (!t->sut_thread && t->st != Done) return false;
  return true;
}

// Current task gives up the token; state of `me` is already set.
static void relinquish(Task *me) {
  if (harness_done()) {
    sem_post(&g_ctl);
    if (me->st == Done) return;
    park(me);
    return;
  }
  Task *n = pick(me->id);
  if (!n) fail("deadlock", "no thread can make progress:%s", describe().c_str());
  if (n == me) { me->st = Running; return; }
  post(n);
  if (me->st == Done) return;
  park(me);
}

static void preempt_to(Task *me, int to) {
  In in;
  Task *target = nullptr;
  std::vector<Task *> r;
  g_now += 1000;
  wake_sleepers(false);
  for (Task *t : tasks()) if (t->st == Ready && t != me) { r.push_back(t); if (t->id == to) target = t; }
  if (r.empty() || to == me->id) return;
  if (!target) target = next_of(r, me->id);
  ++g_preempts;
  me->st = Ready;
  post(target);
  park(me);
}

static void budget_out() {
  In in;
  fail("no-progress", "the run executed more than %llu basic blocks without finishing:%s", (unsigned long long)g_budget, describe().c_str());
}

static void directed(Task *t, uint32_t mask) {
  int to = -1;
  {
    In in;
    std::vector<Task *> r, w;
    for (Task *x : tasks())
      if (x->st == Ready && x != t && x != g_held) { r.push_back(x); if (x->id < 16 && (mask >> x->id & 1)) w.push_back(x); }
    if (!w.empty() && g_rng.chance(0.7)) r = w;
    if (r.empty()) return;
    to = r[g_rng.n(r.size())]->id;
    record(g_steps, to);
  }
  preempt_to(t, to);
}
static inline void on_edge(uint32_t g, uint32_t mask = 0) {
  Task *t = t_cur;
  if (!t || t_in) return;
  if (!t_sut) return;
  ++t->edges;
  if (++g_steps > g_budget) budget_out();
  if (t->op || t->prof) {
    ++t->op_edges;
    uint32_t c = ++t->cnt[g];
    if (t->prof && c == 1) { In in; t->touched.push_back(g); }
    if (t->op && g_active) {
      if (t->at_i < t->at.size() && t->op_edges >= t->at[t->at_i].first) {
        int to = t->at[t->at_i].second;
        ++t->at_i;
        preempt_to(t, to);
        return;
      }
      for (const Trig &tr : t->trig)
        if (tr.guard == g && tr.hit == c) { preempt_to(t, tr.to); return; }
    }
  }
  if (g_active) {
    if (g_steps >= g_next_preempt) {
      if (g_cfg.use_explicit) {
        int to = g_cfg.explicit_at[g_exp_i].second;
        ++g_exp_i;
        g_next_preempt = g_exp_i < g_cfg.explicit_at.size() ? g_cfg.explicit_at[g_exp_i].first : ~0ull;
        if (to == t->id) t->run_edges = 0;
        preempt_to(t, to);
        return;
      }
      In in;
      g_next_preempt = g_steps + next_gap();
      std::vector<Task *> r;
      for (Task *x : tasks()) if (x->st == Ready && x != t && x != g_held) r.push_back(x);
      if (!r.empty()) {
        int to = r[g_rng.n(r.size())]->id;
        record(g_steps, to);
        preempt_to(t, to);
      }
      return;
    }
    if (t == g_to_hold && --g_to_hold_in < 0) {
      g_held = t;
      g_to_hold = nullptr;
      g_held_until = g_steps + 1 + (uint64_t)(1000 * exp(g_rng.unit() * log(10000.)));
      directed(t, mask);
      if (g_held == t) release_held();   // it runs again
      return;
    }
    if (mask) {
      ++g_conf_switches;
      directed(t, mask);
      return;
    }
    if (g_steps >= g_held_until) {
      // the other thread has written, or it takes too long
      int to;
      { In in; to = g_held->id; release_held(); record(g_steps, to); }
      preempt_to(t, to);
      return;
    }
    if (++t->run_edges > g_fair) {
      t->run_edges = 0;
      ++g_forced;
      if (g_held) {
        int to = t->id;
        {
          In in;
          std::vector<Task *> r;
          for (Task *x : tasks()) if (x->st == Ready && x != t && x != g_held) r.push_back(x);
          if (!r.empty()) to = next_of(r, t->id)->id;
          record(g_steps, to);
        }
        preempt_to(t, to);
        return;
      }
      preempt_to(t, -1);
    }
  }
}

static inline void on_access(void *p, bool store) {
  if (!g_active) return;
  uint32_t mask = 0;
  Task *t = t_cur;
  if (g_cells && t && !t_in && t_sut && (unsigned)t->id < 16) {
    uint64_t g = (uint64_t)p >> 3;
    Cell &c = g_cells[(g * 0x9e3779b97f4a7c15ull) >> 47];
    if (c.g != g) { c.g = g; c.rd = c.wr = 0; c.n = 0; }
    uint16_t me = (uint16_t)(1u << t->id), others = (uint16_t)((store ? c.rd | c.wr : c.wr) & ~me);
    if (store) c.wr |= me; else c.rd |= me;
    if (g_held && store && g == g_held_cell && t != g_held && g_held_until > g_steps + 16) {
      ++g_hold_hits;
      g_held_until = g_steps + 1 + g_rng.n(14);
    }
    if (others && !g_held && !g_to_hold && g_cfg.hold > 0 && g_holds < 300 && g_rng.chance(g_cfg.hold / (1 + c.n * 0.05))) {
      ++g_holds;
      ++c.n;
      g_to_hold = t;
      g_to_hold_in = g_rng.chance(0.4) ? 0 : (int)g_rng.n(5);
      g_held_cell = g;
    }
    if (others) {
      ++g_meets;
      ++c.n;
      if (g_conf_switches < 3000 && g_rng.chance(g_cfg.conf / (1 + c.n * 0.02))) mask = others;
    }
  }
  on_edge(0, mask);
}
// A block that is copied or set: no scheduling point before each of its bytes, but one before each of its first granules
bool touching() { return g_active && t_cur && !t_in && t_sut; }
void touch(const void *p, bool store) { on_access((void *)p, store); }
// Before an operation on a mutex or condition
static void sync_point() {
  Task *t = t_cur;
  if (!g_active || !t || t_in || !t_sut) return;
  ++g_steps;
  if (g_cfg.use_explicit) {
    if (g_steps >= g_next_preempt) {
      int to = g_cfg.explicit_at[g_exp_i].second;
      ++g_exp_i;
      g_next_preempt = g_exp_i < g_cfg.explicit_at.size() ? g_cfg.explicit_at[g_exp_i].first : ~0ull;
      preempt_to(t, to);
    }
  } else if (g_cfg.sync > 0 && g_rng.chance(g_cfg.sync)) {
    ++g_sync_switches;
    directed(t, 0);
  }
}

static void *trampoline(void *arg) {
  Task *t = (Task *)arg;
  // Thread start-up and exit change the allocator's and the address space's state: nothing else runs meanwhile
  sem_post(&t->ack);
  park(t);
  t_cur = t;
  if (t->sut_thread) {
    t_sut = 1;
    t->cfn(t->carg);
    t_sut = 0;
  } else {
    try {
      t->fn();
    } catch (std::exception &e) {
      fail("uncaught-exception", "exception escaped in thread %s: %s", t->name.c_str(), e.what());
    }
  }
  In in;
  t->st = Done;
  for (Task *x : tasks()) if (x->st == BlkJoin && x->obj == t) { x->st = Ready; x->obj = nullptr; }
  relinquish(t);
  t_cur = nullptr;
  park(t);
  return nullptr;
}

static Task *make_task(const char *name) {
  Task *t = new Task;
  t->id = (int)tasks().size();
  t->name = name + std::string("#") + std::to_string(t->id);
  sem_init(&t->sem, 0, 0);
  sem_init(&t->ack, 0, 0);
  tasks().push_back(t);
  return t;
}

static void start_thread(Task *t) {
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 4 << 20);
  int r = __real_pthread_create(&t->real, &at, trampoline, t);
  if (r) broken("pthread_create: %d", r);
  t->has_real = true;
  while (sem_wait(&t->ack) != 0) {}
  pthread_attr_destroy(&at);
}

int spawn(std::function<void()> fn, const char *name) {
  In in;
  Task *t = make_task(name);
  t->fn = fn;
  start_thread(t);
  return t->id;
}

void run(const Config &c) {
  In in;
  g_cfg = c;
  g_rng = Rng(c.seed);
  g_exp_i = 0;
  if (!g_exp_pick) g_exp_pick = new std::map<uint64_t, int>;
  g_exp_pick->clear();
  std::vector<std::pair<uint64_t, int>> at;
  for (auto &e : c.explicit_at) {
    if (e.first & (kPick | kSpur | kSig)) (*g_exp_pick)[e.first] = e.second;
    else at.push_back(e);
  }
  g_cfg.explicit_at = at;
  uint64_t base = g_steps;
  g_steps = 0;
  if (g_cfg.use_explicit) g_next_preempt = at.empty() ? ~0ull : at[0].first;
  else g_next_preempt = next_gap();
  if (c.gap > 0 || c.use_explicit) g_fair = c.gap > 0 || c.use_explicit ? 200000 : 3000000;
  static bool once = false;
  if (!once) { sem_init(&g_ctl, 0, 0); once = true; }
  g_cells = nullptr;
  release_held();
  if ((c.conf > 0 || c.hold > 0) && !c.use_explicit) {
    static Cell *cells = nullptr;
    if (!cells) cells = (Cell *)mmap(nullptr, sizeof(Cell) * kCells, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    memset((void *)cells, 0, sizeof(Cell) * kCells);
    g_cells = cells;
  }
  g_active = true;
  g_slow = true;
  Task *saved = t_cur;
  t_cur = nullptr;
  if (!harness_done()) {
    Task *f = pick(-1);
    if (!f) fail("deadlock", "nothing runnable");
    post(f);
    while (sem_wait(&g_ctl) != 0) {}
  }
  for (Task *t : tasks())
    if (!t->sut_thread && t->has_real) {
      t->has_real = false;
      sem_post(&t->sem);
      __real_pthread_join(t->real, nullptr);
    }
  g_active = false;
  g_slow = false;
  t_cur = saved;
  g_steps += base;
}

void op_begin(const std::vector<std::pair<uint64_t, int>> &at, const std::vector<Trig> &trigs) {
  In in;
  Task *t = t_cur;
  if (!t) return;
  if (!t->cnt) t->cnt = (uint32_t *)mmap(nullptr, sizeof(uint32_t) * (g_nguards + 2), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  memset(t->cnt, 0, sizeof(uint32_t) * (g_nguards + 2));
  t->op_edges = 0;
  t->at = at;
  std::sort(t->at.begin(), t->at.end());
  t->at_i = 0;
  t->trig = trigs;
  t->op = true;
}
void op_end() { if (t_cur) t_cur->op = false; }

void profile_begin() {
  In in;
  Task *t = t_cur;
  if (!t->cnt) t->cnt = (uint32_t *)mmap(nullptr, sizeof(uint32_t) * (g_nguards + 2), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  memset(t->cnt, 0, sizeof(uint32_t) * (g_nguards + 2));
  t->touched.clear();
  t->op_edges = 0;
  t->prof = true;
  g_slow = true;
}
Profile profile_end() {
  In in;
  Task *t = t_cur;
  t->prof = false;
  g_slow = g_active;
  Profile p;
  p.edges = t->op_edges;
  std::sort(t->touched.begin(), t->touched.end());
  for (uint32_t g : t->touched) p.guards.push_back({g, t->cnt[g]});
  return p;
}

void yield() {
  Task *me = t_cur;
  if (!g_active || !me || me == &g_main) return;
  In in;
  me->st = Ready;
  relinquish(me);
}
int self() { return t_cur ? t_cur->id : -1; }
uint64_t switches() { return g_switches; }
uint64_t trace_hash() { return g_hash; }
uint32_t num_guards() { return g_nguards; }
static int64_t g_thread_fail_in = 0, g_thread_fail_times = 0;
void fail_threads(int64_t nth, int64_t times) { g_thread_fail_in = nth; g_thread_fail_times = times; }
void set_budget(uint64_t e) { g_budget = e; }
uint64_t edges() { return g_steps; }

// ---- synchronisation objects ------------------------------------------------
struct Mx { int owner = -1; int depth = 0; bool recursive = false; };
static std::map<const void *, Mx> &mxs() { static std::map<const void *, Mx> *m = new std::map<const void *, Mx>; return *m; }
struct Gd { int state = 0; };
static std::map<const void *, Gd> &gds() { static std::map<const void *, Gd> *m = new std::map<const void *, Gd>; return *m; }

static bool on() { return g_active && t_cur && t_cur != &g_main && !t_in; }

static void mx_lock(const void *m) {
  Task *me = t_cur;
  ++g_locks;
  for (;;) {
    Mx &x = mxs()[m];
    if (x.owner < 0) { x.owner = me->id; x.depth = 1; return; }
    if (x.owner == me->id && x.recursive) { ++x.depth; return; }
    ++g_contended;
    me->st = BlkMutex;
    me->obj = m;
    relinquish(me);
  }
}
static void mx_unlock(const void *m) {
  Mx &x = mxs()[m];
  if (x.owner != t_cur->id) fail("bad-unlock", "a mutex is unlocked by a thread that does not hold it");
  if (--x.depth > 0) return;
  x.owner = -1;
  for (Task *t : tasks()) if (t->st == BlkMutex && t->obj == m) { t->st = Ready; t->obj = nullptr; }
}

}  // namespace sched

void sched_publish() {
  using namespace sched;
  if (g_switches) count("sched.switches", g_switches);
  if (g_preempts) count("fault.preemption", g_preempts);
  if (g_spur) count("fault.spurious_wakeup", g_spur);
  if (g_meets) count("sched.accesses_to_shared_written_memory", g_meets);
  if (g_conf_switches) count("sched.switches_at_shared_memory", g_conf_switches);
  if (g_holds) count("sched.threads_held_at_shared_memory", g_holds);
  if (g_hold_hits) count("sched.writes_under_a_held_thread", g_hold_hits);
  if (g_sync_switches) count("sched.switches_at_synchronisation", g_sync_switches);
  if (g_forced) count("sched.forced_fair_switches", g_forced);
  if (g_locks) count("sched.mutex_locks", g_locks);
  if (g_contended) count("sched.mutex_contended", g_contended);
  if (g_waits) count("sched.cond_waits", g_waits);
  if (g_sleeps) count("sched.sleeps", g_sleeps);
  count("sim.scheduling_points", g_steps);
  count_max("sim.most_scheduling_points_in_a_run", g_steps);
  if (g_verbose) fprintf(stderr, "POINTS %llu meets %lld holds %lld hits %lld\n", (unsigned long long)g_steps, (long long)g_meets, (long long)g_holds, (long long)g_hold_hits);
}
void run_begin() {
  sched::g_main.id = -1;
  sched::t_cur = &sched::g_main;
}
void cov_init() {
  sched::g_cov = (unsigned char *)mmap(nullptr, sched::kCov, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
uint32_t cov_reached() {
  uint32_t n = 0;
  for (uint32_t i = 0; i <= sched::g_nguards && i < sched::kCov; ++i) n += sched::g_cov[i] != 0;
  return n;
}
uint32_t cov_total() { return sched::g_nguards; }
}  // namespace sim

using namespace sim;
using namespace sim::sched;

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
  if (start == stop || *start) return;
  for (uint32_t *p = start; p < stop; ++p) *p = ++g_nguards;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *guard) {
  uint32_t g = *guard;
  if (g_cov && g < kCov) g_cov[g] = 1;
  if (!g_slow) {
    if (++g_steps > g_budget) budget_out();
    return;
  }
  on_edge(g);
}

// Memory accesses are scheduling points too in binaries built with trace-loads/trace-stores.
#define CESIM_ACCESS(n) \
  void __sanitizer_cov_load##n(void *p) { on_access(p, false); } \
  void __sanitizer_cov_store##n(void *p) { on_access(p, true); }
CESIM_ACCESS(1)
CESIM_ACCESS(2)
CESIM_ACCESS(4)
CESIM_ACCESS(8)
CESIM_ACCESS(16)

int __wrap_pthread_create(pthread_t *th, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  if (!on()) { g_real_threads = true; return __real_pthread_create(th, a, fn, arg); }
  In in;
  if (g_thread_fail_in > 0 && --g_thread_fail_in == 0) {
    if (--g_thread_fail_times > 0) g_thread_fail_in = 1;
    count("fault.thread_not_created");
    return EAGAIN;
  }
  Task *t = make_task("worker");
  t->sut_thread = true;
  t->cfn = fn;
  t->carg = arg;
  start_thread(t);
  *th = t->real;
  count("sched.sut_threads");
  return 0;
}
static Task *by_real(pthread_t th) {
  for (Task *t : tasks()) if (t->has_real && !t->detached && pthread_equal(t->real, th)) return t;
  return nullptr;
}
int __wrap_pthread_join(pthread_t th, void **ret) {
  if (!on()) {
    Task *t = by_real(th);
    if (t && t->st == Done) { t->has_real = false; sem_post(&t->sem); }
    return __real_pthread_join(th, ret);
  }
  In in;
  Task *t = by_real(th);
  if (!t) return __real_pthread_join(th, ret);
  while (t->st != Done) {
    t_cur->st = BlkJoin;
    t_cur->obj = t;
    relinquish(t_cur);
  }
  t->has_real = false;
  sem_post(&t->sem);
  return __real_pthread_join(th, ret);
}
int __wrap_pthread_detach(pthread_t th) {
  if (on()) { In in; if (Task *t = by_real(th)) t->detached = true; }
  return __real_pthread_detach(th);
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  if (on()) {
    In in;
    Mx x;
    int ty = 0;
    if (a && pthread_mutexattr_gettype(a, &ty) == 0 && ty == PTHREAD_MUTEX_RECURSIVE) x.recursive = true;
    mxs()[m] = x;
  }
  return __real_pthread_mutex_init(m, a);
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) {
  if (on()) {
    In in;
    auto it = mxs().find(m);
    if (it != mxs().end()) {
      if (it->second.owner >= 0) fail("destroy-locked-mutex", "a mutex is destroyed while held by thread %d", it->second.owner);
      mxs().erase(it);
    }
  }
  return __real_pthread_mutex_destroy(m);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!on()) {
    if (!t_sut || t_in || g_real_threads) return __real_pthread_mutex_lock(m);
    int r = __real_pthread_mutex_trylock(m);   // there is only this thread
    if (r == EBUSY) { In in; fail("deadlock", "the only thread locks a mutex that was never released"); }
    return r;
  }
  sync_point();
  In in;
  mx_lock(m);
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!on()) return __real_pthread_mutex_trylock(m);
  In in;
  Mx &x = mxs()[m];
  if (x.owner >= 0) return EBUSY;
  x.owner = t_cur->id;
  x.depth = 1;
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!on()) return __real_pthread_mutex_unlock(m);
  In in;
  mx_unlock(m);
  --t_in;
  t_sut = in.s;
  sync_point();
  t_sut = 0;
  ++t_in;
  return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { return __real_pthread_cond_init(c, a); }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) {
  if (on()) { In in; for (Task *t : tasks()) if (t->st == BlkCond && t->obj == c) fail("destroy-waited-cond", "a condition variable is destroyed while thread %d waits on it", t->id); return 0; }
  return __real_pthread_cond_destroy(c);
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, uint64_t wake) {
  In in;
  Task *me = t_cur;
  ++g_waits;
  mx_unlock(m);
  me->st = BlkCond;
  me->obj = c;
  me->timed = timed;
  me->timed_out = false;
  me->wake = wake;
  relinquish(me);
  me->timed = false;
  bool to = me->timed_out;
  mx_lock(m);
  return to ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!on()) return __real_pthread_cond_wait(c, m);
  sync_point();
  return cond_wait(c, m, false, 0);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  if (!on()) return __real_pthread_cond_timedwait(c, m, ts);
  return cond_wait(c, m, true, g_now + 10000000);
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) {
  if (!on()) return __real_pthread_cond_signal(c);
  sync_point();
  In in;
  std::vector<Task *> w;
  for (Task *t : tasks()) if (t->st == BlkCond && t->obj == c) w.push_back(t);
  if (!w.empty()) {
    uint64_t k = g_sigs++ | kSig;
    Task *t = w[0];
    if (g_cfg.use_explicit) {
      auto it = g_exp_pick->find(k);
      if (it != g_exp_pick->end()) for (Task *x : w) if (x->id == it->second) t = x;
    } else if (w.size() > 1) {
      t = w[g_rng.n(w.size())];
      if (t != w[0]) record(k, t->id);
    }
    t->st = Ready;
    t->obj = nullptr;
  }
  return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) {
  if (!on()) return __real_pthread_cond_broadcast(c);
  sync_point();
  In in;
  for (Task *t : tasks()) if (t->st == BlkCond && t->obj == c) { t->st = Ready; t->obj = nullptr; }
  return 0;
}
static void sim_sleep(uint64_t ns) {
  In in;
  ++g_sleeps;
  t_cur->st = Sleeping;
  t_cur->wake = g_now + ns;
  relinquish(t_cur);
}
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) {
  if (!on()) return t_sut ? 0 : __real_nanosleep(a, b);
  sim_sleep((uint64_t)a->tv_sec * 1000000000ull + a->tv_nsec);
  return 0;
}
int __wrap_clock_nanosleep(clockid_t id, int fl, const struct timespec *a, struct timespec *b) {
  if (!on()) return t_sut ? 0 : __real_clock_nanosleep(id, fl, a, b);
  sim_sleep((uint64_t)a->tv_sec * 1000000000ull + a->tv_nsec);
  return 0;
}
int __wrap_usleep(useconds_t u) {
  if (!on()) return t_sut ? 0 : __real_usleep(u);
  sim_sleep((uint64_t)u * 1000);
  return 0;
}
int __wrap_sched_yield() {
  if (!on()) return __real_sched_yield();
  In in;
  t_cur->st = Ready;
  relinquish(t_cur);
  return 0;
}
// Initialisation guards (function-local statics, call_once): a task may be pre-empted inside one.
static int guard_acquire(void *g) {
  In in;
  for (;;) {
    Gd &x = gds()[g];
    if (x.state == 2) return 0;
    if (x.state == 0) { x.state = 1; return 1; }
    t_cur->st = BlkGuard;
    t_cur->obj = g;
    relinquish(t_cur);
  }
}
static void guard_done(void *g, int st) {
  In in;
  gds()[g].state = st;
  for (Task *t : tasks()) if (t->st == BlkGuard && t->obj == g) { t->st = Ready; t->obj = nullptr; }
}
int __wrap___cxa_guard_acquire(void *g) {
  if (*(volatile char *)g) return 0;
  if (!on()) return __real___cxa_guard_acquire(g);
  return guard_acquire(g);
}
void __wrap___cxa_guard_release(void *g) {
  if (on() && gds().count(g)) {
    guard_done(g, 2);
    *(volatile char *)g = 1;
    return;
  }
  __real___cxa_guard_release(g);
}
void __wrap___cxa_guard_abort(void *g) {
  if (on() && gds().count(g)) { guard_done(g, 0); return; }
  __real___cxa_guard_abort(g);
}
int __wrap_pthread_once(pthread_once_t *o, void (*fn)()) {
  if (!on()) return __real_pthread_once(o, fn);
  if (guard_acquire(o)) { fn(); guard_done(o, 2); }
  return 0;
}
}
