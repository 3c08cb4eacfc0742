// Properties of one utterance driven over arbitrary slicings (C01 C02 C05 C06 C07 C17).
#include "../api.h"
#include <math.h>
#include <algorithm>
using namespace sim;
using namespace api;
using model::Audio;
using model::Model;

namespace {

struct Setup { Model m; ce_stt_t *r; Audio a; };
Setup setup(const Plan &p) {
  Setup s;
  const Line *l = find(p, "model");
  s.m = model::make(l ? *l : Line("model"));
  s.m.install("/cesim/m/");
  const Line *au = find(p, "audio");
  s.a = Audio(au ? *au : Line("audio"));
  const Line *fl = find(p, "fill");
  mem::fill(fl ? (int)fl->i("mode", 2) : 2, fl ? fl->i("seed", 1) : 1);
  s.r = must_load(s.m.conf());
  return s;
}
// fan: up to how many words side by side in a few of the runs
void draw_common(Rng &r, Plan &p, bool small = false, int fan = 0, bool contexts = false) {
  Line m = model::draw(r, small);
  if (fan > 0 && r.chance(fan > 20000 ? 0.007 : 0.015)) {
    m.set("fan", r.chance(0.3) ? (int)r.n(fan) : r.range(fan / 4, fan));
    if (r.chance(0.7) || fan <= 20000) m.set("lm", 0);
  }
  else if (contexts && r.chance(0.04)) m.set("lm", 1).set("words", r.range(66, 110)).set("ctx", r.range(66, 110)).set("topo", (int)r.n(2)).set("gw", 0.2).set("amp", r.chance(0.5) ? 0.2 : 1);   // more language-model states than fit a small table
  if (!m.has("fan") && r.chance(0.03)) m.set("spread", r.chance(0.4) ? r.range(1, 5000) : r.range(5000, 140000));   // state numbers beyond 16 bits
  else if (!m.has("fan") && r.chance(0.02)) {  // or multiples of a power of two: pairs of numbers that pack alike
    static const int bits[] = {8, 10, 12, 15, 16, 16, 16, 20};
    int b = bits[r.n(8)];
    m.set("align", r.chance(0.6) ? b : -b).set("lm", 1);
  }
  if (!m.has("fan") && r.chance(0.015)) m.set("wbase", r.chance(0.5) ? r.range(100, 40000) : r.range(65000, 70000));  // word numbers as well
  else if (r.chance(0.02)) m.set("lm", 1).set("ctx", r.range(4, 40)).set("wstep", r.chance(0.7) ? 31 : r.range(2, 130));   // word numbers that meet in a cache
  p.push_back(m);
  p.push_back(draw_audio(r));
  p.push_back(Line("fill").set("mode", (int)r.n(5)).set("seed", (int64_t)r.n(1000000)));
}
// Some runs last far longer than the others; with few states, so that the reference stays fast
bool long_run(Rng &r, Plan &p) {
  if (!r.chance(0.02) || p[0].has("fan") || p[0].i("ctx") > 60) return false;
  p[0].set("words", r.range(2, 6)).set("topo", (int)r.n(2));
  return true;
}
int bits_of(const Plan &p) { return Audio(*find(p, "audio")).bits; }
// Expands `feed n= rep=` into byte counts
std::vector<int64_t> slices_of(const Plan &p) {
  std::vector<int64_t> v;
  for (auto &l : p)
    if (l.op == "feed") {
      int64_t n = std::max<int64_t>(1, l.i("n", 1)), rep = std::max<int64_t>(1, l.i("rep", 1));
      for (int64_t k = 0; k < rep && v.size() < 20000; ++k) v.push_back(n);
    }
  return v;
}
// The search keeps each partial cost in single precision: besides a fixed share per frame, every frame may round a cost
// of this size by half a unit in its last place, always in the same direction when the steps are alike.
double tol(int64_t frames, double cost) { return 0.02 + 2e-4 * (double)frames + (double)frames * fabs(cost) * 1.2e-7; }
bool safe(const model::Best &b, int64_t frames) { return b.beam_safe && b.min_margin > tol(frames, b.cost); }

// ---------------------------------------------------------------- C01
void c01_gen(Rng &r, Plan &p, const Tier &t) {
  draw_common(r, p, false, 80000);
  int b = bits_of(p);
  int maxf = t.thorough ? 260 : 120;
  if (p[0].has("fan")) maxf = p[0].i("fan") > 20000 ? 22 : 45;
  else if (r.chance(0.04)) maxf = t.thorough ? 4000 : 1200;  // long audio
  draw_slices(r, p, draw_total(r, b, maxf), b, 60);
}
void c01_run(const Plan &p) {
  Setup s = setup(p);
  std::vector<int64_t> sl = slices_of(p);
  int64_t total = 0;
  bool inside_sample = false, inside_frame = false;
  for (size_t i = 0; i < sl.size(); ++i) {
    total += sl[i];
    if (i + 1 < sl.size()) { inside_sample |= total % s.a.bps() != 0; inside_frame |= true; }
  }
  if (total == 0) return;
  Result sliced = decode(s.r, s.a, sl);
  Result whole = decode1(s.r, s.a, total);
  ev("c01 %zu %lld %s %s", sl.size(), (long long)total, sliced.str().c_str(), whole.str().c_str());
  count("feed_calls", (int64_t)sl.size());
  count("fault.cut_inside_sample", inside_sample);
  count_max("max_frames", model::frames_of(total / s.a.bps()));
  count("audio_samples_simulated", 2 * total / s.a.bps());
  count("nonempty_transcripts", !whole.hyp.empty());
  if (sliced != whole) fail("slicing", "%zu calls give %s, one call gives %s (%lld bytes)", sl.size(), sliced.str().c_str(), whole.str().c_str(), (long long)total);
  if (sl.size() > 1 && !whole.hyp.empty()) nontrivial();
  state(fnv(whole.hyp) ^ mix(total));
  unload(s.r);
}
static Reg c01({"C01", c01_gen, c01_run,
  "random model (contexts, batch size, network depth, graph shape, large LM or none), random audio (8/16/32 bit) and a random slicing of its bytes; "
  "non-trivial: at least two calls and a non-empty final transcript"});

// ---------------------------------------------------------------- C02
void c02_gen(Rng &r, Plan &p, const Tier &t) {
  draw_common(r, p, true);
  int b = bits_of(p);
  Plan q;
  if (r.chance(0.06)) {  // few, very large calls
    int64_t total = draw_total(r, b, t.thorough ? 2500 : 1000);
    while (total > 0) { int64_t n = r.chance(0.5) ? total : 1 + (int64_t)r.n(total); q.push_back(Line("feed").set("n", n)); total -= n; }
  } else
    draw_slices(r, q, draw_total(r, b, t.thorough ? 120 : 50), b, 120);
  double rej = r.chance(0.5) ? 0.25 : 0.0;
  for (auto &l : q) {
    while (r.chance(rej)) p.push_back(Line("bad").set("kind", (int)r.n(4)));
    p.push_back(l);
  }
}
int bad_call(ce_utt_t *u, int kind, const std::string &some) {
  switch (kind & 3) {
    case 0: return feed_raw(u, nullptr, 100);
    case 1: return feed_raw(u, some.data(), 0);
    case 2: return feed_raw(u, some.data(), -(int32_t)some.size());
    default: return feed_raw(nullptr, some.data(), (int32_t)some.size());
  }
}
void c02_run(const Plan &p) {
  Setup s = setup(p);
  Stream st;
  st.start(s.r, s.a);
  int b = s.a.bps();
  int64_t calls = 0, odd = 0;
  for (auto &l : p) {
    if (l.op == "bad") {
      int k = bad_call(st.u, (int)l.i("kind"), "some data here");
      ev("bad %d", k);
      count("fault.rejected_call");
      if (k != CE_STT_FAILED) fail("rejected-accepted", "a call with invalid arguments (kind %d) returned %d", (int)l.i("kind"), k);
    }
    if (l.op != "feed") continue;
    int64_t n = std::max<int64_t>(1, l.i("n", 1)), rep = std::max<int64_t>(1, std::min<int64_t>(5000, l.i("rep", 1)));
    for (int64_t k = 0; k < rep; ++k) {
      int64_t before = st.fed / b, want = (st.fed + n) / b - before;
      int32_t got = st.feed(n);
      ++calls;
      odd += st.fed % b != 0;
      ev("feed %lld %d", (long long)n, got);
      if (got != want) fail("sample-count", "call %lld with %lld bytes (total %lld, %d bytes per sample) returned %d, %lld samples became complete",
                            (long long)calls, (long long)n, (long long)st.fed, b, got, (long long)want);
    }
  }
  if (st.counted != st.fed / b) fail("sample-total", "the returned counts add up to %lld, %lld samples were fed", (long long)st.counted, (long long)(st.fed / b));
  end(st.u);
  ev("final %s", result(st.u).str().c_str());
  close(st.u);
  unload(s.r);
  count("feed_calls", calls);
  count("calls_leaving_a_partial_sample", odd);
  count("audio_samples_simulated", st.counted);
  if (calls > 1) nontrivial();
  state(mix(calls) ^ mix(st.fed));
}
static Reg c02({"C02", c02_gen, c02_run,
  "random audio bytes in random slices with rejected calls (NULL data, empty, negative size, NULL utterance) in between; non-trivial: at least two calls"});

// ---------------------------------------------------------------- C05
void c05_gen(Rng &r, Plan &p, const Tier &t) {
  draw_common(r, p, false, 7000);
  int b = bits_of(p);
  bool fan = p[0].has("fan");
  int maxf = fan ? 30 : t.thorough ? 240 : 130;
  int64_t total = draw_total(r, b, maxf);
  if (r.chance(0.6)) total = (400 + 160 * (int64_t)(20 + r.n(maxf - 20))) * b + r.n(200);
  if (!fan && long_run(r, p)) total = (400 + 160 * (int64_t)r.range(300, t.thorough ? 2000 : 900)) * b + r.n(200);
  draw_slices(r, p, total, b, 40);
  p.push_back(Line("check").set("seed", (int64_t)r.n(1000000)).set("n", fan ? 1 : r.range(1, 4)));
}
void check_words(const char *what, const Model &m, const model::Mat &rows, int n, bool fin, const Result &res, const model::Best &best, const char *cls) {
  std::vector<int> w;
  if (!model::parse(m, res.hyp, &w)) fail(cls, "%s: transcript \"%s\" is not a sequence of the vocabulary's words", what, res.hyp.c_str());
  if (!best.found) {
    if (!res.hyp.empty()) fail(cls, "%s: no path exists, but the transcript is \"%s\"", what, res.hyp.c_str());
    return;
  }
  if (!safe(best, n)) return;
  if (w == best.words) return;
  double c = model::forced(m, rows, n, fin, w);
  if (!(c <= best.cost + tol(n, best.cost)))
    fail(cls, "%s after %d frames: transcript \"%s\" costs %.6f, but \"%s\" costs %.6f (margin to the beam %.3f)", what, n, res.hyp.c_str(), c,
         model::text(m, best.words).c_str(), best.cost, best.min_margin);
  count("ties_accepted");
}
void c05_run(const Plan &p) {
  Setup s = setup(p);
  std::vector<int64_t> sl = slices_of(p);
  int64_t total = 0;
  for (int64_t n : sl) total += n;
  if (total == 0) return;
  model::Mat rows = model::scores(s.m, model::features(s.a.samples(total / s.a.bps())));
  model::Lattice ref(s.m, rows);
  const Line *ck = find(p, "check");
  Rng cr(ck ? ck->i("seed", 1) : 1);
  int checks = ck ? (int)ck->i("n", 1) : 1;
  std::vector<size_t> at;
  for (int i = 0; i < checks; ++i) at.push_back(cr.n(sl.size()));
  Stream st;
  st.start(s.r, s.a);
  Result now = result(st.u);
  if (!now.hyp.empty()) fail("partial", "a fresh utterance shows \"%s\"", now.hyp.c_str());
  int64_t lastn = 0, refreshes = 0, canon = 0;
  bool dead = false;
  for (size_t i = 0; i < sl.size(); ++i) {
    st.feed(sl[i]);
    Result prev = now;
    now = result(st.u);
    int64_t D = model::decoded(s.m, st.frames()), n = D - D % 20;
    ev("p %lld %s", (long long)n, now.str().c_str());
    if (n == 0) {
      // a decoded batch of fewer than 20 frames shows nothing
      if (!now.hyp.empty()) fail("partial-early", "%lld frames decoded: transcript \"%s\" before the first refresh", (long long)D, now.hyp.c_str());
    } else if (n != lastn) {
      ++refreshes;
      model::Best b = ref.best((int)n, false);
      if (!b.found) dead = true;
      if (!dead) check_words("partial transcript", s.m, rows, (int)n, false, now, b, "partial");
      count("partials_compared_with_reference", !dead && b.beam_safe);
    } else if (now != prev && !dead) {
      fail("partial-unstable", "the transcript changed from %s to %s with no new refresh point (%lld frames decoded)", prev.str().c_str(), now.str().c_str(), (long long)D);
    }
    lastn = n;
    if (std::find(at.begin(), at.end(), i) != at.end()) {
      Stream c;
      c.start(s.r, s.a);
      c.feed(st.fed);
      Result whole = result(c.u);
      close(c.u);
      ++canon;
      if (whole != now) fail("partial-slicing", "after %lld bytes in %zu calls the partial result is %s, in one call it is %s", (long long)st.fed, i + 1, now.str().c_str(), whole.str().c_str());
    }
  }
  close(st.u);
  unload(s.r);
  count("refresh_points", refreshes);
  count("canonical_comparisons", canon);
  count("feed_calls", (int64_t)sl.size());
  count("audio_samples_simulated", st.fed / s.a.bps());
  count("nonempty_transcripts", !now.hyp.empty());
  if (refreshes > 0 && !now.hyp.empty()) nontrivial();
  state(fnv(now.hyp) ^ mix(lastn));
}
static Reg c05({"C05", c05_gen, c05_run,
  "random model, audio and slicing; after every call the visible transcript is compared with the reference best path at the last refresh point and, at random calls, "
  "bit for bit with one call of the same prefix; non-trivial: a refresh point passed and a non-empty transcript"});

// ---------------------------------------------------------------- C06 / C07
void c06_gen(Rng &r, Plan &p, const Tier &t) {
  draw_common(r, p, false, 15000, true);
  int b = bits_of(p);
  int64_t total = draw_total(r, b, p[0].has("fan") ? 45 : p[0].i("ctx") > 60 ? 30 : t.thorough ? 240 : 110);
  if (long_run(r, p)) total = (400 + 160 * (int64_t)r.range(300, t.thorough ? 3000 : 1300)) * b + r.n(200);
  draw_slices(r, p, total, b, 12);
}
void c06_run(const Plan &p) {
  Setup s = setup(p);
  std::vector<int64_t> sl = slices_of(p);
  int64_t total = 0;
  for (int64_t n : sl) total += n;
  if (total == 0) return;
  Result res = decode(s.r, s.a, sl);
  model::Mat rows = model::scores(s.m, model::features(s.a.samples(total / s.a.bps())));
  int F = (int)rows.size();
  model::Best best = model::viterbi(s.m, rows, F, true);
  ev("final %d %s", F, res.str().c_str());
  check_words("final transcript", s.m, rows, F, true, res, best, "not-optimal");
  if (best.found && !best.beam_safe && !res.hyp.empty()) {
    std::vector<int> w;
    model::parse(s.m, res.hyp, &w);
    if (!std::isfinite(model::forced(s.m, rows, F, true, w))) fail("no-such-path", "no path of the graph with %d frames has the words \"%s\"", F, res.hyp.c_str());
  }
  unload(s.r);
  count("optimum_compared", best.found && best.beam_safe);
  count("no_path_expected", !best.found);
  count("beam_pruned_optimum", best.found && !best.beam_safe);
  count("with_large_lm", s.m.has_lm);
  count("words_compared", (int64_t)best.words.size());
  count("audio_samples_simulated", total / s.a.bps());
  if (!best.found || (best.beam_safe && !best.words.empty())) nontrivial();
  state(fnv(res.hyp) ^ mix(F));
}
static Reg c06({"C06", c06_gen, c06_run,
  "random model, audio and slicing; the final transcript against an exhaustive minimum-cost search over independently computed scores; "
  "non-trivial: the optimum stays inside the beam and has words, or no path exists"});

void check_score(const char *what, const Model &m, const model::Mat &rows, int n, bool fin, const Result &res, const model::Best &best) {
  if (res.hyp.empty() || n == 0) return;
  std::vector<int> w;
  if (!model::parse(m, res.hyp, &w)) return;  // C06 reports that
  double lo = model::forced(m, rows, n, fin, w), got = res.value() * n;
  if (!std::isfinite(lo)) return;
  if (!(got >= lo - tol(n, lo))) fail("score-low", "%s: score %.9g x %d frames = %.6f is below the cheapest path with these words (%.6f) \"%s\"", what, res.value(), n, got, lo, res.hyp.c_str());
  if (safe(best, n) && !(got <= lo + tol(n, lo))) fail("score-high", "%s: score %.9g x %d frames = %.6f, the path costs %.6f \"%s\"", what, res.value(), n, got, lo, res.hyp.c_str());
  count(fin ? "final_scores_compared" : "partial_scores_compared");
  if (safe(best, n)) count("exact_score_comparisons");
  count_max("max_abs_difference_ppm_of_tolerance", safe(best, n) ? (int64_t)(1e6 * fabs(got - lo) / tol(n, lo)) : 0);
  nontrivial();
}
void c07_run(const Plan &p) {
  Setup s = setup(p);
  std::vector<int64_t> sl = slices_of(p);
  int64_t total = 0;
  for (int64_t n : sl) total += n;
  if (total == 0) return;
  model::Mat rows = model::scores(s.m, model::features(s.a.samples(total / s.a.bps())));
  int F = (int)rows.size();
  Stream st;
  st.start(s.r, s.a);
  int64_t lastn = 0, work = 0;
  model::Lattice ref(s.m, rows);
  for (int64_t n : sl) {
    st.feed(n);
    Result now = result(st.u);
    int64_t D = model::decoded(s.m, st.frames()), k = D - D % 20;
    if (k > 0 && k != lastn) {
      model::Best b = ref.best((int)k, false);
      ev("p %lld %s", (long long)k, now.str().c_str());
      // what a comparison costs grows with frames, states and words
      int64_t cost = k * (int64_t)s.m.g.fin.size() * (1 + std::count(now.hyp.begin(), now.hyp.end(), ' '));
      if (work > 0 && work + cost > 80000000) { count("partial_scores_not_compared"); b.found = false; }
      else work += cost;
      if (b.found) check_score("partial score", s.m, rows, (int)k, false, now, b);
    }
    lastn = k;
  }
  end(st.u);
  Result res = result(st.u);
  ev("f %s", res.str().c_str());
  model::Best best = ref.best(F, true);
  if (best.found) check_score("final score", s.m, rows, F, true, res, best);
  close(st.u);
  unload(s.r);
  count("audio_samples_simulated", total / s.a.bps());
  count("with_large_lm", s.m.has_lm);
  state(fnv(res.hyp) ^ res.score);
}
static Reg c06b({"C07", c06_gen, c07_run,
  "random model, audio and slicing; every refreshed partial score and the final score against the cost of the cheapest path with the reported words; "
  "non-trivial: at least one score of a non-empty transcript compared"});

// ---------------------------------------------------------------- C17
void c17_gen(Rng &r, Plan &p, const Tier &t) {
  draw_common(r, p, true);
  int b = bits_of(p);
  Plan q;
  draw_slices(r, q, draw_total(r, b, t.thorough ? 120 : 60), b, 30);
  double rej = 0.15 + 0.5 * r.unit();
  auto bad = [&]() { while (r.chance(rej)) p.push_back(Line("bad").set("kind", (int)r.n(9)).set("arg", (int64_t)r.n(1000))); };
  for (auto &l : q) { bad(); p.push_back(l); }
  bad();
  p.push_back(Line("end"));
  bad();
  if (r.chance(0.7)) p.push_back(Line("end"));
  bad();
  if (r.chance(0.3)) p.push_back(Line("end"));
}
void c17_run(const Plan &p) {
  Setup s = setup(p);
  Stream a, b;  // a gets the rejected calls, b does not
  a.start(s.r, s.a);
  b.start(s.r, s.a);
  bool ended = false;
  int64_t rejected = 0;
  auto same = [&](const char *when) {
    Result x = result(a.u), y = result(b.u);
    ev("%s %s", when, x.str().c_str());
    if (x != y) fail("rejected-call-changed", "after %s: %s, without the rejected calls %s", when, x.str().c_str(), y.str().c_str());
  };
  for (auto &l : p) {
    if (l.op == "feed" && !ended) {
      int64_t n = std::max<int64_t>(1, l.i("n", 1)), rep = std::max<int64_t>(1, std::min<int64_t>(3000, l.i("rep", 1)));
      for (int64_t k = 0; k < rep; ++k) {
        int32_t x = a.feed(n), y = b.feed(n);
        if (x != y) fail("rejected-call-changed", "a call returns %d samples, without the rejected calls before it %d", x, y);
      }
      same("feed");
    } else if (l.op == "end") {
      end(a.u);
      if (!ended) end(b.u);
      else count("fault.repeated_end_of_stream");
      ended = true;
      same("end of stream");
    } else if (l.op == "bad") {
      int kind = (int)l.i("kind");
      int64_t arg = l.i("arg");
      ++rejected;
      count(("fault.rejected_kind_" + std::to_string(kind)).c_str());
      std::string some(64, 'x');
      bool silent = false;
      if (kind <= 3) {
        int k = bad_call(a.u, kind, some);
        if (k != CE_STT_FAILED) fail("rejected-accepted", "invalid call kind %d returned %d", kind, k);
      } else if (kind == 4) {
        mem::Sut g;
        ce_stt_end_of_stream(nullptr);
      } else {
        int bits = 16, ch = 1, rate = 16000;
        static const int badbits[] = {0, 1, 7, 12, 24, 64, -16, 15, 17, 1 << 30};
        static const int badrate[] = {0, 8000, 44100, -16000, 16001, 48000, 1};
        if (kind == 5) bits = badbits[arg % 10];
        else if (kind == 6) rate = badrate[arg % 7];
        else if (kind == 7) ch = (int)(arg % 3 == 0 ? 2 : arg % 3 == 1 ? 0 : -1);
        else { bits = 24; ch = 2; rate = 8000; }
        ce_utt_t *u = open(s.r, bits, ch, rate);
        if (u) fail("rejected-accepted", "an utterance with %d bits, %d channels, %d Hz is accepted", bits, ch, rate);
      }
      if (!silent && last_error().empty()) fail("no-message", "a rejected call (kind %d) leaves an empty error message", kind);
      same("rejected call");
    }
  }
  close(a.u);
  close(b.u);
  unload(s.r);
  count("rejected_calls", rejected);
  count("audio_samples_simulated", 2 * (a.fed / s.a.bps()));
  if (rejected > 0 && a.fed > 0) nontrivial();
  state(mix(rejected) ^ mix(a.fed));
}
static Reg c17({"C17", c17_gen, c17_run,
  "two utterances with the same audio and slicing, one of them with rejected calls (NULL utterance, NULL, empty or negative-size data, unsupported formats, repeated end) in between; "
  "non-trivial: at least one rejected call and some audio"});
}  // namespace
