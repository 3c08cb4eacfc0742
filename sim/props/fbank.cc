// C03: streaming feature extraction over arbitrary pushes.
#include "../sim.h"
#include "../model.h"
#include "fbank.h"
#include <algorithm>
#include <memory>
using namespace sim;
using pocketkaldi::Fbank;
using pocketkaldi::Matrix;
using pocketkaldi::SubVector;

namespace {
std::string rows_of(Matrix<float> &m, int *n) {
  std::string s;
  *n = m.NumRows();
  for (int i = 0; i < m.NumRows(); ++i) s.append((char *)m.Row(i).Data(), m.NumCols() * sizeof(float));
  return s;
}
const size_t ROW = 40 * sizeof(float);

struct S {
  model::Audio a;
  std::unique_ptr<Fbank::Instance> inst;
  std::vector<float> fed;
  std::string rows;
  int64_t pushes = 0, empties = 0;
};
std::string push(const Fbank &fb, Fbank::Instance *inst, const float *x, int64_t n, int *k, Matrix<float> *out) {
  // an exactly sized buffer that is gone after the call
  float *b = n ? (float *)malloc(n * sizeof(float)) : nullptr;
  if (n) memcpy(b, x, n * sizeof(float));
  { mem::Sut s; SubVector<float> w(b, (int)n); fb.Process(inst, w, out); }
  if (n) memset(b, 0x7f, n * sizeof(float));
  free(b);
  return rows_of(*out, k);
}
void check_stream(const Fbank &fb, S &s, int id) {
  // the whole stream at once, and every window on its own
  int k;
  Matrix<float> out;
  Fbank::Instance one;
  std::string whole = push(fb, &one, s.fed.data(), (int64_t)s.fed.size(), &k, &out);
  if (k != model::frames_of((int64_t)s.fed.size())) fail("one-shot-count", "%zu samples at once give %d frames", s.fed.size(), k);
  if (s.rows != whole) {
    size_t f = 0;
    while (f < s.rows.size() && f < whole.size() && s.rows[f] == whole[f]) ++f;
    fail("rows", "stream %d after %lld pushes (%zu samples): frame %zu differs from one-shot extraction", id, (long long)s.pushes, s.fed.size(), f / ROW);
  }
  for (int t = 0; t < k; ++t) {
    Fbank::Instance w;
    int n1;
    Matrix<float> o;
    std::string r = push(fb, &w, s.fed.data() + 160 * t, 400, &n1, &o);
    if (n1 != 1 || r != whole.substr(t * ROW, ROW)) fail("window", "frame %d is not the frame of samples %d to %d alone", t, 160 * t, 160 * t + 400);
  }
  ev("s %d %zu %llx", id, s.fed.size(), (unsigned long long)fnv(whole));
  state(mix(s.fed.size()) ^ mix((uint64_t)s.pushes * 31));
}
void c03_gen(Rng &r, Plan &p, const Tier &t) {
  p.push_back(Line("fill").set("mode", (int)r.n(5)).set("seed", (int64_t)r.n(1000000)));
  int streams = r.chance(0.5) ? 1 : r.range(2, 4);
  for (int i = 0; i < streams; ++i)
    p.push_back(Line("stream").set("seed", (int64_t)r.n(1000000000)).set("bits", r.chance(0.5) ? 16 : r.chance(0.5) ? 8 : 32).set("kind", (int)r.n(2)));
  int n = r.range(1, t.thorough ? 200 : 60);
  int style = (int)r.n(5);
  int fixed = r.range(1, 900);
  for (int i = 0; i < n; ++i) {
    int64_t k;
    switch (style) {
      case 0: k = 1 + r.n(1000); break;
      case 1: k = fixed; break;
      case 2: k = 1 + r.n(5); break;
      case 3: { static const int e[] = {0, 1, 80, 159, 160, 161, 239, 240, 241, 319, 320, 399, 400, 401, 559, 560, 561, 4000}; k = e[r.n(18)]; break; }
      default: k = r.chance(0.15) ? 0 : r.chance(0.2) ? 1 + r.n(6000) : 1 + r.n(400);
    }
    Line l("push");
    l.set("s", (int)r.n(streams)).set("n", k);
    if (k <= 6) l.set("rep", r.range(1, 200));
    else if (r.chance(0.1)) l.set("rep", r.range(2, 8));
    p.push_back(l);
    if (r.chance(0.03)) p.push_back(Line("restart").set("s", (int)r.n(streams)));
  }
}
void c03_run(const Plan &p) {
  const Line *fl = find(p, "fill");
  mem::fill(fl ? (int)fl->i("mode", 2) : 2, fl ? fl->i("seed", 1) : 1);
  std::vector<S> st;
  std::unique_ptr<Fbank> fb;
  { mem::Sut s; fb.reset(new Fbank()); }
  for (auto &l : p)
    if (l.op == "stream" && st.size() < 8) { st.emplace_back(); st.back().a = model::Audio(l); st.back().inst.reset(new Fbank::Instance()); }
  if (st.empty()) return;
  Matrix<float> shared;   // one output matrix for all streams, as a caller may have
  bool interesting = false;
  int64_t pushes = 0, frames = 0;
  for (auto &l : p) {
    S &s = st[(size_t)std::max<int64_t>(0, l.i("s")) % st.size()];
    if (l.op == "restart") {
      check_stream(*fb, s, (int)(&s - &st[0]));
      model::Audio a = s.a;
      a.seed += 1;
      s = S();
      s.a = a;
      s.inst.reset(new Fbank::Instance());
      count("fault.stream_replaced");
    }
    if (l.op != "push") continue;
    int64_t n = std::max<int64_t>(0, std::min<int64_t>(20000, l.i("n", 1))), rep = std::max<int64_t>(1, std::min<int64_t>(300, l.i("rep", 1)));
    for (int64_t j = 0; j < rep; ++j) {
      if (s.fed.size() + n > 120000) break;
      std::vector<float> x(n);
      for (int64_t i = 0; i < n; ++i) x[i] = (float)(int32_t)s.a.sample((int64_t)s.fed.size() + i);
      int k;
      int64_t before = model::frames_of((int64_t)s.fed.size());
      s.fed.insert(s.fed.end(), x.begin(), x.end());
      std::string r = push(*fb, s.inst.get(), x.data(), n, &k, &shared);
      ++s.pushes;
      ++pushes;
      s.empties += n == 0;
      int64_t want = model::frames_of((int64_t)s.fed.size()) - before;
      frames += k;
      if (k != want)
        fail("prompt", "stream %d, push %lld of %lld samples (total %zu): %d frames emitted, %lld became covered", (int)(&s - &st[0]), (long long)s.pushes, (long long)n, s.fed.size(), k, (long long)want);
      if (k > 0 && r.size() != (size_t)k * ROW) fail("columns", "%d frames take %zu bytes", k, r.size());
      s.rows += r;
      if (s.pushes > 1 && k > 0) interesting = true;
    }
  }
  int64_t samples = 0;
  for (size_t i = 0; i < st.size(); ++i) {
    samples += (int64_t)st[i].fed.size();
    count("fault.empty_push", st[i].empties);
    check_stream(*fb, st[i], (int)i);
  }
  count("pushes", pushes);
  count("frames", frames);
  count("audio_samples_simulated", samples);
  if (interesting) nontrivial();
}
static Reg c03({"C03", c03_gen, c03_run,
  "one to four streams on one extractor, random pushes (empty, single samples, sizes around window and step, large) interleaved, streams replaced in mid-history; "
  "non-trivial: a stream with several pushes that emits frames"});
}  // namespace
