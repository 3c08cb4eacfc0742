// C04: streaming acoustic scores: one row per frame, prompt, independent of the batch.
#include "../sim.h"
#include "../model.h"
#include "am.h"
#include "configuration.h"
#include <algorithm>
#include <memory>
using namespace sim;
using namespace pocketkaldi;

namespace {
struct S {
  int m = 0;
  std::unique_ptr<AcousticModel::Instance> inst;
  model::Mat feats;
  model::Mat rows;
  uint64_t seed = 1;
  int kind = 0;
  bool ended = false;
};
std::vector<double> frame_of(const S &s, int64_t t) {
  std::vector<double> v(40);
  Rng r(s.seed * 1000003 + (s.kind == 1 ? t / 7 : t));
  double base = 4 + 3 * sin((double)t / 9);
  for (int i = 0; i < 40; ++i) v[i] = (float)(s.kind == 2 ? (r.chance(0.5) ? -15.9 : 18) : base + 3 * r.gauss());
  return v;
}
struct Am { model::Model m; std::unique_ptr<AcousticModel> am; };

void take(S &s, Matrix<float> &out) {
  for (int i = 0; i < out.NumRows(); ++i) {
    std::vector<double> v(out.NumCols());
    for (int c = 0; c < out.NumCols(); ++c) v[c] = out.Row(i)(c);
    s.rows.push_back(v);
  }
}
void check(const Am &a, const S &s, int id) {
  int64_t n = (int64_t)s.feats.size(), k = (int64_t)s.rows.size();
  model::Mat want = model::scores(a.m, s.feats);
  double worst = 0;
  for (int64_t t = 0; t < k && t < n; ++t) {
    if ((int)s.rows[t].size() != a.m.P) fail("columns", "row %lld has %zu columns, the model has %d outputs", (long long)t, s.rows[t].size(), a.m.P);
    // before the end of the stream, the last right-context rows are not known yet
    if (!s.ended && t + a.m.R >= n) fail("early", "stream %d: row %lld of %lld frames was emitted without its right context", id, (long long)t, (long long)n);
    double big = 1;
    for (double v : want[t]) big = std::max(big, fabs(v));
    for (int c = 0; c < a.m.P; ++c) {
      double d = fabs(want[t][c] - s.rows[t][c]);
      if (!std::isfinite(want[t][c])) continue;
      if (!(d <= 2e-4 * big)) fail("score", "stream %d (%lld frames, L %d, R %d, batch %d): row %lld, output %d is %.6f, the definition gives %.6f", id, (long long)n, a.m.L, a.m.R, a.m.chunk, (long long)t, c, s.rows[t][c], want[t][c]);
      worst = std::max(worst, d / big);
    }
  }
  count_max("worst_relative_difference_e9", (int64_t)(worst * 1e9));
  ev("s %d %lld %lld", id, (long long)n, (long long)k);
  state(mix(n) ^ mix(k * 31) ^ mix(a.m.L * 7 + a.m.R * 100 + a.m.chunk * 1000));
}
void c04_gen(Rng &r, Plan &p, const Tier &t) {
  int nm = r.chance(0.6) ? 1 : 2;
  Line first;
  for (int i = 0; i < nm; ++i) {
    Line m = model::draw(r);
    if (i == 1 && r.chance(0.6)) { static const int cs[] = {1, 2, 3, 7, 20, 50, 130}; m = first; m.set("chunk", cs[r.n(7)]); }  // same network, other batch
    m.set("words", 2).set("lm", 0).set("topo", 0);
    if (i == 0) first = m;
    p.push_back(m);
  }
  p.push_back(Line("fill").set("mode", (int)r.n(5)).set("seed", (int64_t)r.n(1000000)));
  int ns = r.range(1, 4);
  for (int i = 0; i < ns; ++i) p.push_back(Line("stream").set("m", (int)r.n(nm)).set("seed", (int64_t)r.n(100000000)).set("kind", (int)r.n(3)));
  int n = r.range(1, t.thorough ? 80 : 30);
  for (int i = 0; i < n; ++i) {
    p.push_back(Line("frames").set("s", (int)r.n(ns)).set("n", r.chance(0.5) ? r.range(1, 4) : r.range(1, 30)));
    if (r.chance(0.12)) p.push_back(Line("end").set("s", (int)r.n(ns)));
    if (r.chance(0.04)) p.push_back(Line("drop").set("s", (int)r.n(ns)));
  }
}
void c04_run(const Plan &p) {
  const Line *fl = find(p, "fill");
  mem::fill(fl ? (int)fl->i("mode", 2) : 2, fl ? fl->i("seed", 1) : 1);
  std::vector<Am> ams;
  std::vector<S> st;
  for (auto &l : p) {
    if (l.op == "model" && ams.size() < 4) {
      ams.emplace_back();
      Am &a = ams.back();
      a.m = model::make(l);
      a.m.install("/cesim/m" + std::to_string(ams.size()) + "/");
      a.am.reset(new AcousticModel());
      mem::Sut s;
      Configuration conf;
      Status x = conf.Read(a.m.conf());
      if (x.ok()) x = a.am->Read(conf);
      if (!x.ok()) fail("load-failed", "an intact model does not load: %s", x.what().c_str());
    }
  }
  if (ams.empty()) return;
  for (auto &l : p)
    if (l.op == "stream" && st.size() < 8) {
      st.emplace_back();
      S &s = st.back();
      s.m = (int)((uint64_t)l.i("m") % ams.size());
      s.seed = (uint64_t)l.i("seed", 1);
      s.kind = (int)l.i("kind");
      s.inst.reset(new AcousticModel::Instance());
    }
  if (st.empty()) return;
  Matrix<float> out;
  int64_t frames = 0, ends = 0, batches = 0;
  auto finish = [&](S &s) {
    const Am &a = ams[s.m];
    if (!s.ended) {
      { mem::Sut g; a.am->EndOfStream(s.inst.get(), &out); }
      s.ended = true;
      ++ends;
      take(s, out);
      if (s.rows.size() != s.feats.size())
        fail("row-count", "stream %d (L %d, R %d, batch %d): %zu frames gave %zu rows", (int)(&s - &st[0]), a.m.L, a.m.R, a.m.chunk, s.feats.size(), s.rows.size());
    }
    check(a, s, (int)(&s - &st[0]));
  };
  auto fresh = [&](S &s) {
    S n;
    n.m = s.m; n.seed = s.seed + 1; n.kind = s.kind;
    n.inst.reset(new AcousticModel::Instance());
    s = std::move(n);
  };
  for (auto &l : p) {
    S &s = st[(uint64_t)std::max<int64_t>(0, l.i("s")) % st.size()];
    const Am &a = ams[s.m];
    if (l.op == "frames") {
      if (s.ended) fresh(s);
      int64_t n = std::max<int64_t>(1, std::min<int64_t>(500, l.i("n", 1)));
      for (int64_t j = 0; j < n && s.feats.size() < 800; ++j) {
        std::vector<double> f = frame_of(s, (int64_t)s.feats.size());
        Vector<float> v(40);
        for (int i = 0; i < 40; ++i) v(i) = (float)f[i];
        s.feats.push_back(f);
        { mem::Sut g; a.am->Process(s.inst.get(), v, &out); }
        v.Set(-1e9f);   // the caller reuses its vector
        ++frames;
        batches += out.NumRows() > 0;
        take(s, out);
        int64_t want = model::decoded(a.m, (int64_t)s.feats.size());
        if ((int64_t)s.rows.size() != want)
          fail("prompt", "stream %d (L %d, R %d, batch %d): %zu rows after %zu frames, a whole batch with its right context is available for %lld", (int)(&s - &st[0]), a.m.L, a.m.R, a.m.chunk, s.rows.size(), s.feats.size(), (long long)want);
      }
    } else if (l.op == "end") {
      finish(s);
      fresh(s);
    } else if (l.op == "drop") {
      check(a, s, (int)(&s - &st[0]));
      fresh(s);
      count("fault.stream_abandoned");
    }
  }
  for (auto &s : st) finish(s);
  count("frames", frames);
  count("streams_ended", ends);
  count("batches", batches);
  if (frames > 2) nontrivial();
}
static Reg c04({"C04", c04_gen, c04_run,
  "one or two models (contexts, batch sizes, depths; often the same network with two batch sizes), several streams interleaved, ended, abandoned and restarted; every row count and every score "
  "against a double-precision reference; non-trivial: more than two frames"});
}  // namespace
