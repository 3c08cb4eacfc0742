// Allocator, I/O, clock and randomness seams (link-time wrapping; no change in /repo).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include "internal.h"
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <new>

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
int __real_posix_memalign(void **, size_t, size_t);
void *__real_aligned_alloc(size_t, size_t);
FILE *__real_fopen(const char *, const char *);
FILE *__real_fopen64(const char *, const char *);
int __real_fileno(FILE *);
int __real_open(const char *, int, ...);
int __real_open64(const char *, int, ...);
int __real_close(int);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_pread(int, void *, size_t, off_t);
int __real_access(const char *, int);
int __real_stat(const char *, struct stat *);
}

static uint64_t g_moved = 0;   // bytes copied, moved or set by the code under test
extern "C" {
void *__real___asan_memcpy(void *, const void *, size_t);
void *__real___asan_memmove(void *, const void *, size_t);
void *__real___asan_memset(void *, int, size_t);
__attribute__((no_sanitize("address"))) void *__wrap___asan_memcpy(void *d, const void *s, size_t n) {
  g_moved += n;
  if (sim::sched::touching() && n) {
    char *to = (char *)d;
    const char *from = (const char *)s;
    if (n <= 64 && (to + n <= from || from + n <= to)) {   // small structures are copied word by word
      for (size_t i = 0; i < n; i += 8) {
        size_t k = n - i < 8 ? n - i : 8;
        sim::sched::touch(from + i, false);
        char w[8];
        __real___asan_memcpy(w, from + i, k);
        sim::sched::touch(to + i, true);
        __real___asan_memcpy(to + i, w, k);
      }
      return d;
    }
    sim::sched::touch(s, false);
    sim::sched::touch(d, true);
  }
  return __real___asan_memcpy(d, s, n);
}
__attribute__((no_sanitize("address"))) void *__wrap___asan_memmove(void *d, const void *s, size_t n) {
  g_moved += n;
  if (sim::sched::touching() && n) { sim::sched::touch(s, false); sim::sched::touch(d, true); }
  return __real___asan_memmove(d, s, n);
}
__attribute__((no_sanitize("address"))) void *__wrap___asan_memset(void *d, int c, size_t n) {
  g_moved += n;
  if (sim::sched::touching() && n) sim::sched::touch(d, true);
  return __real___asan_memset(d, c, n);
}
}
namespace sim {

__thread int t_sut = 0;

// ------------------------------------------------------------------ allocator
namespace mem {
static int g_fill_mode = 0;
static uint64_t g_fill_seed = 0;
static int64_t g_allocs = 0, g_fail_in = 0, g_fail_times = 0, g_fired = 0, g_oversize = 0;
static bool g_track = false;
static int64_t g_live = 0, g_bytes = 0, g_peak = 0;
static const size_t kLimit = 1ull << 28;  // one allocation larger than this does not fit the simulated device

struct Ent { void *p; size_t n; };
static Ent *tab = nullptr;
static size_t tab_cap = 0;
static size_t slot(void *p) { return (size_t)(mix((uint64_t)p)) & (tab_cap - 1); }
static void tab_put(void *p, size_t n) {
  size_t i = slot(p);
  while (tab[i].p) { if (tab[i].p == p) { break; } i = (i + 1) & (tab_cap - 1); }
  tab[i].p = p;
  tab[i].n = n;
  g_live++;
  g_bytes += n;
  if (g_bytes > g_peak) g_peak = g_bytes;
}
static void tab_del(void *p) {
  size_t i = slot(p);
  while (tab[i].p && tab[i].p != p) i = (i + 1) & (tab_cap - 1);
  if (!tab[i].p) return;
  g_live--;
  g_bytes -= tab[i].n;
  size_t j = i;
  for (;;) {
    j = (j + 1) & (tab_cap - 1);
    if (!tab[j].p) break;
    size_t k = slot(tab[j].p);
    if ((i <= j) ? (i < k && k <= j) : (i < k || k <= j)) continue;
    tab[i] = tab[j];
    i = j;
  }
  tab[i].p = nullptr;
}

static void do_fill(void *p, size_t n, uint64_t salt) {
  if (n > 65536 && g_fill_mode > 1) {  // the pattern of the first block over and over
    do_fill(p, 65536, salt);
    for (size_t o = 65536; o < n; o += 65536) memcpy((char *)p + o, p, std::min<size_t>(65536, n - o));
    return;
  }
  unsigned char *c = (unsigned char *)p;
  switch (g_fill_mode) {
    case 0: memset(c, 0, n); return;
    case 1: memset(c, 0xff, n); return;
    case 3: {
      uint32_t *w = (uint32_t *)p;
      uint64_t x = mix(g_fill_seed ^ salt);
      for (size_t i = 0; i < n / 4; ++i) { w[i] = (uint32_t)((x >> (i & 31)) & 7); if ((i & 31) == 31) x = mix(x); }
      for (size_t i = n & ~(size_t)3; i < n; ++i) c[i] = 1;
      return;
    }
    case 4: {
      float vals[4] = {1e30f, -3.5f, 0.0f / 1.0f, __builtin_nanf("")};
      float *w = (float *)p;
      uint64_t x = mix(g_fill_seed ^ salt);
      for (size_t i = 0; i < n / 4; ++i) w[i] = vals[(x >> ((2 * i) & 62)) & 3];
      for (size_t i = n & ~(size_t)3; i < n; ++i) c[i] = 0x7f;
      return;
    }
    default: {
      uint64_t x = mix(g_fill_seed ^ salt);
      uint64_t *w = (uint64_t *)p;
      for (size_t i = 0; i < n / 8; ++i) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; w[i] = x ^ (x >> 31); }
      for (size_t i = n & ~(size_t)7; i < n; ++i) c[i] = (unsigned char)(x >> (8 * (i & 7)));
    }
  }
}

// true: this allocation must fail
static bool inject(size_t n) {
  if (!t_sut) return false;
  ++g_allocs;
  if (g_fail_in > 0) {
    if (--g_fail_in == 0) {
      ++g_fired;
      if (--g_fail_times > 0) g_fail_in = 1;
      return true;
    }
  }
  if (n > kLimit) { ++g_oversize; return true; }
  return false;
}
static void born(void *p, size_t n) {
  if (!p || !t_sut) return;
  if (n >= 4u << 20) madvise((void *)(((uintptr_t)p + 0x1fffff) & ~(uintptr_t)0x1fffff), (n - 0x200000) & ~(size_t)0x1fffff, MADV_HUGEPAGE);  // only speed
  do_fill(p, n, (uint64_t)g_allocs * 0x9e3779b1u);
  if (g_track) tab_put(p, n);
}
static void died(void *p) {
  if (p && tab) tab_del(p);
}

uint64_t moved() { return g_moved; }
Sut::Sut() { ++t_sut; }
Sut::~Sut() { --t_sut; }
void fill(int mode, uint64_t seed) { g_fill_mode = mode; g_fill_seed = seed; }
void fail_at(int64_t nth, int64_t times) { g_fail_in = nth > 0 ? nth : 0; g_fail_times = times; }
int64_t sut_allocs() { return g_allocs; }
int64_t fails_fired() { return g_fired; }
void track(bool on) {
  if (on && !tab) {
    tab_cap = 1 << 21;
    tab = (Ent *)mmap(nullptr, tab_cap * sizeof(Ent), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  g_track = on;
}
int64_t live_blocks() { return g_live; }
int64_t live_bytes() { return g_bytes; }
int64_t peak_bytes() { return g_peak; }
void reset_peak() { g_peak = g_bytes; }
std::string live_summary() {
  std::map<size_t, int> h;
  for (size_t i = 0; i < tab_cap; ++i) if (tab[i].p) h[tab[i].n]++;
  std::string s;
  int k = 0;
  for (auto &e : h) { if (++k > 12) { s += " ..."; break; } s += " " + std::to_string(e.first) + "Bx" + std::to_string(e.second); }
  return s;
}
}  // namespace mem

void mem_publish() {
  if (mem::g_fired) count("fault.alloc_failure", mem::g_fired);
  if (mem::g_oversize) count("fault.alloc_too_big", mem::g_oversize);
}

// ------------------------------------------------------------------ I/O
namespace io {
struct Handle { int fd; FILE *f; std::string path; int64_t pos; bool open; };
static std::map<std::string, std::string> &files() { static std::map<std::string, std::string> *m = new std::map<std::string, std::string>; return *m; }
static std::vector<Handle *> &handles() { static std::vector<Handle *> *v = new std::vector<Handle *>; return *v; }
static std::vector<Fault> &faults() { static std::vector<Fault> *v = new std::vector<Fault>; return *v; }
static int g_short = 0, g_limit = 0;
static uint64_t g_short_state = 0;
static int64_t g_shorts_fired = 0, g_reads = 0, g_bytes = 0, g_opens = 0;
static std::map<std::string, int64_t> &fired_map() { static std::map<std::string, int64_t> *m = new std::map<std::string, int64_t>; return *m; }

struct NoSut { int s; NoSut() : s(t_sut) { t_sut = 0; } ~NoSut() { t_sut = s; } };

void reset() {
  files().clear();
  faults().clear();
  g_short = 0;
  g_limit = 0;
}
void put(const std::string &p, const std::string &b) { files()[p] = b; }
bool exists(const std::string &p) { return files().count(p) > 0; }
const std::string &get(const std::string &p) { return files()[p]; }
std::vector<std::string> paths() {
  std::vector<std::string> r;
  for (auto &f : files()) r.push_back(f.first);
  return r;
}
int add_fault(const std::string &path, const std::string &kind, int64_t at, int64_t times, int err) {
  Fault f = {path, kind, at, times, err, true, 0};
  faults().push_back(f);
  return (int)faults().size() - 1;
}
void clear_faults() { faults().clear(); }
int64_t fired(const char *kind) {
  int64_t n = 0;
  for (auto &f : fired_map()) if (!kind || f.first == kind) n += f.second;
  return n;
}
void short_reads(int maxlen, uint64_t seed) { g_short = maxlen; g_short_state = mix(seed); }
int open_handles() {
  int n = 0;
  for (auto h : handles()) if (h->open) ++n;
  return n;
}
void limit_handles(int n) { g_limit = n; }
int64_t bytes_read() { return g_bytes; }
int64_t reads() { return g_reads; }

static bool is_sim(const char *p) { return p && !strncmp(p, "/cesim/", 7); }

static int open_fault(const std::string &path) {
  for (auto &f : faults())
    if (f.armed && f.kind == "open" && f.path == path) {
      if (f.at > 0) { --f.at; continue; }
      ++f.fired;
      fired_map()["open"]++;
      if (f.times > 0 && --f.times == 0) f.armed = false;
      return f.err ? f.err : EACCES;
    }
  return 0;
}

static Handle *do_open(const char *path) {
  std::string p(path);
  ++g_opens;
  int e = open_fault(p);
  if (e) { errno = e; return nullptr; }
  if (g_limit > 0 && open_handles() >= g_limit) { fired_map()["handle_limit"]++; errno = EMFILE; return nullptr; }
  auto it = files().find(p);
  if (it == files().end()) { errno = ENOENT; return nullptr; }
  int fd = memfd_create("simfile", 0);
  if (fd < 0) broken("memfd_create: %d", errno);
  const std::string &b = it->second;
  size_t off = 0;
  while (off < b.size()) {
    ssize_t k = ::write(fd, b.data() + off, b.size() - off);
    if (k <= 0) broken("memfd write");
    off += k;
  }
  lseek(fd, 0, SEEK_SET);
  Handle *h = new Handle{fd, nullptr, p, 0, true};
  handles().push_back(h);
  return h;
}

static ssize_t sim_read(Handle *h, char *buf, size_t n) {
  NoSut ns;
  int64_t off = lseek(h->fd, 0, SEEK_CUR);
  ++g_reads;
  size_t lim = n;
  for (auto &f : faults()) {
    if (!f.armed || f.path != h->path || f.kind == "open") continue;
    if (off >= f.at) {
      ++f.fired;
      fired_map()[f.kind]++;
      if (f.times > 0 && --f.times == 0) f.armed = false;
      if (f.kind == "eio") { errno = EIO; return -1; }
      if (f.kind == "eintr") { errno = EINTR; return -1; }
      if (f.kind == "eof") return 0;
    } else if ((int64_t)lim > f.at - off) {
      lim = (size_t)(f.at - off);
    }
  }
  if (g_short > 0 && lim > 0) {
    g_short_state = mix(g_short_state);
    size_t m = 1 + g_short_state % (uint64_t)g_short;
    if (m < lim) { lim = m; ++g_shorts_fired; }
  }
  ssize_t k = __real_read(h->fd, buf, lim);
  if (k > 0) g_bytes += k;
  return k;
}

static ssize_t c_read(void *c, char *buf, size_t n) { return sim_read((Handle *)c, buf, n); }
static int c_seek(void *c, off64_t *pos, int whence) {
  off64_t r = lseek64(((Handle *)c)->fd, *pos, whence);
  if (r < 0) return -1;
  *pos = r;
  return 0;
}
static int c_close(void *c) {
  Handle *h = (Handle *)c;
  h->open = false;
  h->f = nullptr;
  __real_close(h->fd);
  h->fd = -1;
  return 0;
}
static Handle *by_fd(int fd) {
  for (auto h : handles()) if (h->open && h->fd == fd) return h;
  return nullptr;
}
static FILE *fopen_impl(const char *path, const char *mode) {
  NoSut ns;
  if (mode && (strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+'))) { errno = EROFS; return nullptr; }
  Handle *h = do_open(path);
  if (!h) return nullptr;
  cookie_io_functions_t f = {c_read, nullptr, c_seek, c_close};
  h->f = fopencookie(h, "r", f);
  return h->f;
}
FILE *open_file(const std::string &p) { return fopen_impl(p.c_str(), "rb"); }
}  // namespace io

void io_publish() {
  if (io::g_reads) count("io.reads", io::g_reads);
  if (io::g_bytes) count("io.bytes", io::g_bytes);
  if (io::g_opens) count("io.opens", io::g_opens);
  if (io::g_shorts_fired) count("fault.short_read", io::g_shorts_fired);
  for (auto &f : io::fired_map()) count(("fault.read_" + f.first).c_str(), f.second);
}

// ------------------------------------------------------------------ clock, randomness
namespace env {
static uint64_t g_clk = 1, g_rnd = 1, g_calls = 0;
void reseed(uint64_t s) { g_clk = mix(s) % 2000000000ull * 1000000000ull; g_rnd = mix(s ^ 77); }
static uint64_t tick() {
  g_rnd = mix(g_rnd);
  g_clk += 1 + g_rnd % 5000000000ull;  // jumps: the code must not depend on the clock
  ++g_calls;
  return g_clk;
}
static uint64_t rnd() { g_rnd = mix(g_rnd); ++g_calls; return g_rnd; }
uint64_t calls() { return g_calls; }
}  // namespace env
}  // namespace sim

using namespace sim;

extern "C" {
void *__wrap_malloc(size_t n) {
  if (mem::inject(n)) { errno = ENOMEM; return nullptr; }
  void *p = __real_malloc(n);
  mem::born(p, n);
  return p;
}
void *__wrap_calloc(size_t a, size_t b) {
  void *p = __real_calloc(a, b);
  if (p && t_sut && mem::g_track) mem::tab_put(p, a * b);
  return p;
}
void *__wrap_realloc(void *o, size_t n) {
  mem::died(o);
  void *p = __real_realloc(o, n);
  if (p && t_sut && mem::g_track) mem::tab_put(p, n);
  return p;
}
void __wrap_free(void *p) {
  mem::died(p);
  __real_free(p);
}
int __wrap_posix_memalign(void **out, size_t al, size_t n) {
  if (mem::inject(n)) return ENOMEM;
  int r = __real_posix_memalign(out, al, n);
  if (r == 0) mem::born(*out, n);
  return r;
}
void *__wrap_aligned_alloc(size_t al, size_t n) {
  if (mem::inject(n)) { errno = ENOMEM; return nullptr; }
  void *p = __real_aligned_alloc(al, n);
  mem::born(p, n);
  return p;
}
FILE *__wrap_fopen(const char *p, const char *m) {
  if (io::is_sim(p)) return io::fopen_impl(p, m);
  return __real_fopen(p, m);
}
FILE *__wrap_fopen64(const char *p, const char *m) {
  if (io::is_sim(p)) return io::fopen_impl(p, m);
  return __real_fopen64(p, m);
}
int __wrap_fileno(FILE *f) {
  for (auto h : io::handles()) if (h->open && h->f == f) return h->fd;
  return __real_fileno(f);
}
static int open_impl(const char *p, int fl) {
  io::NoSut ns;
  if ((fl & O_ACCMODE) != O_RDONLY) { errno = EROFS; return -1; }
  io::Handle *h = io::do_open(p);
  return h ? h->fd : -1;
}
int __wrap_open(const char *p, int fl, int mode) {
  if (io::is_sim(p)) return open_impl(p, fl);
  return __real_open(p, fl, mode);
}
int __wrap_open64(const char *p, int fl, int mode) {
  if (io::is_sim(p)) return open_impl(p, fl);
  return __real_open64(p, fl, mode);
}
int __wrap_close(int fd) {
  io::Handle *h = io::by_fd(fd);
  if (h) h->open = false;
  return __real_close(fd);
}
ssize_t __wrap_read(int fd, void *b, size_t n) {
  io::Handle *h = io::by_fd(fd);
  if (h) return io::sim_read(h, (char *)b, n);
  return __real_read(fd, b, n);
}
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o) {
  io::Handle *h = io::by_fd(fd);
  if (!h) return __real_pread(fd, b, n, o);
  off_t c = lseek(fd, 0, SEEK_CUR);
  lseek(fd, o, SEEK_SET);
  ssize_t r = io::sim_read(h, (char *)b, n);
  lseek(fd, c, SEEK_SET);
  return r;
}
int __wrap_access(const char *p, int m) {
  if (io::is_sim(p)) { if (io::exists(p) && !(m & W_OK)) return 0; errno = ENOENT; return -1; }
  return __real_access(p, m);
}
int __wrap_stat(const char *p, struct stat *st) {
  if (io::is_sim(p)) {
    if (!io::exists(p)) { errno = ENOENT; return -1; }
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | 0444;
    st->st_size = io::get(p).size();
    return 0;
  }
  return __real_stat(p, st);
}
time_t __wrap_time(time_t *t) {
  time_t v = (time_t)(env::tick() / 1000000000ull);
  if (t) *t = v;
  return v;
}
clock_t __wrap_clock() { return (clock_t)(env::tick() / 1000); }
int __wrap_gettimeofday(struct timeval *tv, void *) {
  uint64_t v = env::tick();
  tv->tv_sec = v / 1000000000ull;
  tv->tv_usec = v % 1000000000ull / 1000;
  return 0;
}
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t id, struct timespec *ts) {
  if (!t_sut) return __real_clock_gettime(id, ts);
  uint64_t v = env::tick();
  ts->tv_sec = v / 1000000000ull;
  ts->tv_nsec = v % 1000000000ull;
  return 0;
}
int __wrap_rand() { return (int)(env::rnd() & 0x7fffffff); }
long __wrap_random() { return (long)(env::rnd() & 0x7fffffff); }
void __wrap_srand(unsigned) {}
}

void *operator new(size_t n) {
  if (mem::inject(n)) throw std::bad_alloc();
  void *p = __real_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  mem::born(p, n);
  return p;
}
void *operator new[](size_t n) {
  if (mem::inject(n)) throw std::bad_alloc();
  void *p = __real_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  mem::born(p, n);
  return p;
}
void *operator new(size_t n, const std::nothrow_t &) noexcept {
  if (mem::inject(n)) return nullptr;
  void *p = __real_malloc(n ? n : 1);
  mem::born(p, n);
  return p;
}
void *operator new[](size_t n, const std::nothrow_t &) noexcept {
  if (mem::inject(n)) return nullptr;
  void *p = __real_malloc(n ? n : 1);
  mem::born(p, n);
  return p;
}
void operator delete(void *p) noexcept { mem::died(p); __real_free(p); }
void operator delete[](void *p) noexcept { mem::died(p); __real_free(p); }
void operator delete(void *p, size_t) noexcept { mem::died(p); __real_free(p); }
void operator delete[](void *p, size_t) noexcept { mem::died(p); __real_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { mem::died(p); __real_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { mem::died(p); __real_free(p); }
