// C12: the 8-bit product under every thread count and schedule, several callers at once.
#include "../sim.h"
#include "eight_bit_int_gemm/eight_bit_int_gemm.h"
#include <stdlib.h>
#include <algorithm>
using namespace sim;
namespace g8 = gemmlowp::eight_bit_int_gemm;

namespace {
int clampi(int64_t v, int lo, int hi) { return (int)std::max<int64_t>(lo, std::min<int64_t>(hi, v)); }

// One product, operands from the line; the answer is the bytes of C (with the padding of its stride)
std::string product(const Line &l) {
  int m = clampi(l.i("m", 8), 1, 400), n = clampi(l.i("n", 8), 1, 400), k = clampi(l.i("k", 8), 1, 2048);
  bool ta = l.i("ta") & 1, tb = l.i("tb") & 1, tc = l.i("tc") & 1, f32 = l.i("f32") & 1;
  int pad = clampi(l.i("pad"), 0, 3);
  int lda = (ta ? k : m) + pad, ldb = (tb ? n : k) + pad, ldc = (tc ? n : m) + pad;
  size_t na = (size_t)lda * (ta ? m : k), nb = (size_t)ldb * (tb ? k : n), nc = (size_t)ldc * (tc ? m : n);
  Rng r((uint64_t)l.i("seed", 1));
  uint8_t *a = (uint8_t *)malloc(na), *b = (uint8_t *)malloc(nb);
  for (size_t i = 0; i < na; i += 8) { uint64_t x = r.u64(); memcpy(a + i, &x, std::min<size_t>(8, na - i)); }
  for (size_t i = 0; i < nb; i += 8) { uint64_t x = r.u64(); memcpy(b + i, &x, std::min<size_t>(8, nb - i)); }
  int ao = -(int)(l.i("ao", 128) & 255), bo = -(int)(l.i("bo", 128) & 255);
  g8::BitDepthSetting bd = l.i("a5b7") & 1 ? g8::BitDepthSetting::A5B7 : g8::BitDepthSetting::A8B8;
  std::string out;
  if (f32) {
    float *c = (float *)malloc(nc * 4);
    memset(c, 0x11, nc * 4);
    { mem::Sut s; g8::EightBitIntGemm(ta, tb, tc, m, n, k, a, ao, lda, b, bo, ldb, c, 0.0123f, ldc, bd); }
    for (int j = 0; j < (tc ? m : n); ++j) out.append((char *)(c + (size_t)j * ldc), (tc ? n : m) * 4);
    free(c);
  } else {
    uint8_t *c = (uint8_t *)malloc(nc);
    memset(c, 0x11, nc);
    int shift = 8;
    while (shift < 20 && (1 << (shift - 7)) < k * 16) ++shift;
    { mem::Sut s; g8::EightBitIntGemm(ta, tb, tc, m, n, k, a, ao, lda, b, bo, ldb, c, (int)l.i("co", 1000), 1 + (int)(l.i("cm", 1) & 7), shift, ldc, bd); }
    out.assign((char *)c, nc);
    free(c);
  }
  free(a);
  free(b);
  return out;
}

void c12_gen(Rng &r, Plan &p, const Tier &t) {
  int callers = r.range(1, 3);
  double gaps[] = {150, 1000, 8000, 60000, 400000};
  p.push_back(Line("sched").set("seed", (int64_t)r.n(1000000000)).set("gap", gaps[r.n(5)]).set("spurious", (int)r.n(2)));
  if (r.chance(0.6)) { p.back().set("conf", r.chance(0.5) ? 0.3 : 0.03); if (r.chance(0.4)) p.back().set("gap", 30000000.0); }
  if (r.chance(0.6)) p.back().set("sync", r.chance(0.5) ? 0.3 : 0.05);
  if (r.chance(0.4)) { p.back().set("hold", r.chance(0.5) ? 0.3 : 0.03); if (r.chance(0.5)) p.back().set("gap", 30000000.0).set("conf", 0.0); }
  p.push_back(Line("fill").set("mode", (int)r.n(5)).set("seed", (int64_t)r.n(1000000)));
  int ops = r.range(2, t.thorough ? 10 : 6);
  p.push_back(Line("threads").set("c", 0).set("n", r.range(1, 6)));
  for (int i = 0; i < ops; ++i) {
    int c = (int)r.n(callers);
    double u = r.unit();
    if (u < 0.2) { p.push_back(Line("threads").set("c", c).set("n", r.range(1, 8))); continue; }
    if (u < 0.32) { p.push_back(Line("free").set("c", c)); continue; }
    Line l("gemm");
    int m, n, k;
    if (r.chance(0.7)) {  // large enough for several workers
      m = r.range(17, 130); n = r.range(17, 130);
      k = r.range(1, 4) * 65536 / (m * n) + r.range(1, 40);
      if (k > 900) k = 900;
    } else { m = r.range(1, 40); n = r.range(1, 40); k = r.range(1, 60); }
    l.set("c", c).set("m", m).set("n", n).set("k", k).set("ta", (int)r.n(2)).set("tb", (int)r.n(2)).set("tc", (int)r.n(2));
    l.set("f32", (int)(r.n(3) > 0)).set("a5b7", (int)(r.n(5) == 0)).set("pad", r.chance(0.3) ? r.range(1, 3) : 0);
    l.set("seed", (int64_t)r.n(1000000000)).set("ao", (int)r.n(256)).set("bo", (int)r.n(256)).set("co", (int)r.n(5000)).set("cm", (int)r.n(8));
    p.push_back(l);
  }
  if (r.chance(0.3)) p.push_back(Line("nothread").set("at", r.range(1, 6)).set("times", r.chance(0.5) ? 1 : r.range(2, 20)));
}
void c12_run(const Plan &p) {
  std::vector<const Line *> ops;
  int callers = 0, products = 0, maxthreads = 1;
  for (auto &l : p)
    if (l.op == "gemm" || l.op == "threads" || l.op == "free") {
      ops.push_back(&l);
      callers = std::max(callers, clampi(l.i("c"), 0, 7) + 1);
      products += l.op == "gemm";
      if (l.op == "threads") maxthreads = std::max(maxthreads, clampi(l.i("n", 1), 1, 16));
    }
  if (ops.empty()) return;
  const Line *fl = find(p, "fill");
  mem::fill(fl ? (int)fl->i("mode", 2) : 2, fl ? fl->i("seed", 1) : 1);
  // single-threaded answers, each from a pristine process
  std::vector<std::string> want(ops.size());
  std::string all = pristine([&]() {
    std::string s;
    { mem::Sut g; g8::SetMaxNumThreads(1); }
    for (size_t i = 0; i < ops.size(); ++i)
      if (ops[i]->op == "gemm") s += product(*ops[i]);
    return s;
  });
  if (const Line *nt = find(p, "nothread")) sched::fail_threads(std::max<int64_t>(0, nt->i("at", 1)), std::max<int64_t>(1, nt->i("times", 1)));
  std::vector<std::string> got(ops.size());
  for (int c = 0; c < callers; ++c)
    sched::spawn([&, c]() {
      for (size_t i = 0; i < ops.size(); ++i) {
        const Line &l = *ops[i];
        if (clampi(l.i("c"), 0, 7) != c) continue;
        if (l.op == "gemm") got[i] = product(l);
        else if (l.op == "threads") { mem::Sut g; g8::SetMaxNumThreads(clampi(l.i("n", 1), 1, 16)); }
        else { mem::Sut g; g8::FreePersistentResources(); }
        sched::yield();
      }
    }, "caller");
  sched::run(sched::config(p));
  size_t off = 0;
  for (size_t i = 0; i < ops.size(); ++i) {
    if (ops[i]->op != "gemm") { count(("fault.between_calls_" + ops[i]->op).c_str()); continue; }
    size_t n = got[i].size();
    if (off + n > all.size()) broken("baseline size");
    if (memcmp(all.data() + off, got[i].data(), n)) {
      size_t j = 0;
      while (all[off + j] == got[i][j]) ++j;
      fail("product-differs", "operation %zu (%s): byte %zu of the result differs from the single-threaded product", i, ops[i]->str().c_str(), j);
    }
    off += n;
    ev("g %zu %llx", i, (unsigned long long)fnv(got[i]));
  }
  ev("trace %llx", (unsigned long long)sched::trace_hash());
  count("products", products);
  count_max("max_threads_configured", maxthreads);
  if (products > 0 && maxthreads > 1 && sched::switches() > 3) nontrivial();
  state(sched::trace_hash());
}
static Reg c12({"C12", c12_gen, c12_run,
  "1 to 3 callers with random products (shapes, layouts, bit depths), changes of the thread count and releases of the resources in between, random pre-emption and spurious wake-ups of "
  "callers and workers; every product against the same product in a pristine single-threaded process; non-trivial: more than one thread configured and at least 4 context switches"});
}  // namespace
