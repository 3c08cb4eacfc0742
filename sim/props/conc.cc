// C10: utterances of several threads on one recognizer.
#include "../api.h"
#include <algorithm>
using namespace sim;
using namespace api;

namespace {
int clampi(int64_t v, int lo, int hi) { return (int)std::max<int64_t>(lo, std::min<int64_t>(hi, v)); }

// One utterance from start to end; everything the caller can see, as text
std::string one(ce_stt_t *r, const Line &l, int64_t *frames) {
  model::Audio a(l);
  int64_t total = std::max<int64_t>(1, std::min<int64_t>(200000, l.i("total", 5000)));
  int64_t slice = std::max<int64_t>(1, l.i("slice", 3200));
  if (total / slice > 200) slice = total / 200 + 1;
  int stage = (int)l.i("stage", 3);   // how far it gets before it is destroyed
  std::string log;
  auto see = [&](ce_utt_t *u, int32_t k) { log += std::to_string(k) + " " + result(u).str() + "\n"; };
  ce_utt_t *u = open(r, a.bits);
  if (!u) return "refused\n";
  see(u, 0);
  int64_t fed = 0;
  while (fed < total && stage > 0) {
    int64_t n = std::min(slice, total - fed);
    int32_t k = feed(u, a.bytes(fed, n));
    fed += n;
    see(u, k);
    sched::yield();
    if (stage == 1 && fed > total / 2) break;
  }
  if (l.i("bad")) { int k = feed_raw(u, "x", 0); log += "rejected " + std::to_string(k) + "\n"; if (last_error().empty()) log += "no message\n"; }
  if (stage >= 3) { end(u); see(u, -1); }
  close(u);
  *frames += model::frames_of(fed / a.bps());
  return log;
}

void c10_gen(Rng &r, Plan &p, const Tier &t) {
  Line m = model::draw(r, r.chance(0.3));
  m.set("lm", r.chance(0.35) ? 1 : 0);
  if (r.chance(m.i("lm") ? 0.6 : 0.2)) m.set("words", r.range(30, 90)).set("topo", (int)r.n(2));
  else if (m.i("lm") && r.chance(0.6)) m.set("words", r.range(4, 16)).set("ctx", r.range(4, 40)).set("topo", (int)r.n(2)).set("wstep", 31);   // labels enough to collide in a language-model cache
  p.push_back(m);
  p.push_back(Line("fill").set("mode", (int)r.n(5)).set("seed", (int64_t)r.n(1000000)));
  static const double gaps[] = {40, 300, 2000, 15000, 100000, 1000000};
  p.push_back(Line("sched").set("seed", (int64_t)r.n(1000000000)).set("gap", gaps[r.n(6)]).set("spurious", 0));
  if (r.chance(0.7)) { p.back().set("conf", r.chance(0.5) ? 0.3 : 0.05).set("sync", r.chance(0.5) ? 0.2 : 0.0); if (r.chance(0.5)) p.back().set("gap", 30000000.0); }
  if (r.chance(0.4)) { p.back().set("hold", r.chance(0.5) ? 0.3 : 0.03); if (r.chance(0.6)) p.back().set("gap", 30000000.0).set("conf", 0.0); }
  int tasks = r.range(2, t.thorough ? 5 : 4);
  int maxf = t.thorough ? 60 : 30;
  Line same;
  for (int i = 0; i < tasks; ++i) {
    int n = m.i("lm") ? r.range(1, 2) : r.range(1, 3);
    for (int k = 0; k < n; ++k) {
      Line l = draw_audio(r);
      l.op = "utt";
      int b = (int)l.i("bits") / 8;
      l.set("t", i);
      if (i > 0 && r.chance(0.2)) { int64_t s = same.i("seed", 1); l.set("seed", s).set("bits", same.i("bits", 16)); }
      l.set("total", draw_total(r, (int)l.i("bits"), maxf));
      static const int sl[] = {160, 400, 641, 1600, 3200, 6400, 100000};
      l.set("slice", (int64_t)sl[r.n(7)] * b + (int64_t)r.n(3));
      l.set("stage", r.chance(0.8) ? 3 : (int)r.n(3)).set("bad", (int)(r.n(6) == 0));
      same = l;
      p.push_back(l);
    }
    if (r.chance(0.08)) p.push_back(Line("other").set("t", i).set("n", r.range(1, 2)));
  }
}
void c10_run(const Plan &p) {
  sched::set_budget(1000000000ull);   // intact runs stay below a tenth of it
  const Line *ml = find(p, "model"), *fl = find(p, "fill");
  model::Model m = model::make(ml ? *ml : Line("model"));
  m.install("/cesim/m/");
  mem::fill(fl ? (int)fl->i("mode", 2) : 2, fl ? fl->i("seed", 1) : 1);
  ce_stt_t *r = must_load(m.conf());
  std::vector<const Line *> utts;
  int tasks = 0;
  for (auto &l : p)
    if (l.op == "utt" || l.op == "other") { utts.push_back(&l); tasks = std::max(tasks, clampi(l.i("t"), 0, 7) + 1); }
  if (utts.empty()) return;
  // each utterance alone, in a process that has only loaded the recognizer
  std::vector<std::string> want(utts.size()), got(utts.size());
  for (size_t i = 0; i < utts.size(); ++i)
    if (utts[i]->op == "utt") want[i] = pristine([&]() { int64_t f = 0; mem::fill(0, 0); return one(r, *utts[i], &f); });
  int64_t frames = 0;
  std::vector<int64_t> fr(tasks, 0);
  for (int t = 0; t < tasks; ++t)
    sched::spawn([&, t]() {
      for (size_t i = 0; i < utts.size(); ++i) {
        const Line &l = *utts[i];
        if (clampi(l.i("t"), 0, 7) != t) continue;
        if (l.op == "utt") got[i] = one(r, l, &fr[t]);
        else
          for (int k = 0; k < clampi(l.i("n", 1), 1, 4); ++k) {   // another recognizer comes and goes
            ce_stt_t *x = load(m.conf());
            if (x) unload(x); else got[i] = "refused";
            count("fault.other_recognizer_created_and_destroyed");
          }
        sched::yield();
      }
    }, "caller");
  sched::run(sched::config(p));
  for (size_t i = 0; i < utts.size(); ++i) {
    if (utts[i]->op == "other") { if (!got[i].empty()) fail("load-failed", "a second recognizer does not load while utterances are decoded"); continue; }
    if (got[i] == want[i]) continue;
    size_t a = 0, line = 0, b = 0;
    while (a < got[i].size() && a < want[i].size() && got[i][a] == want[i][a]) { if (got[i][a] == '\n') { ++line; b = a + 1; } ++a; }
    fail("not-isolated", "utterance %zu (%s): observation %zu is %s, alone it is %s", i, utts[i]->str().c_str(), line, got[i].substr(b, got[i].find('\n', b) - b).c_str(), want[i].substr(b, want[i].find('\n', b) - b).c_str());
  }
  for (int64_t f : fr) frames += f;
  ev("trace %llx frames %lld", (unsigned long long)sched::trace_hash(), (long long)frames);
  for (auto &g : got) ev("u %llx", (unsigned long long)fnv(g));
  count("utterances", (int64_t)utts.size());
  count("frames", frames);
  count("audio_samples_simulated", 160 * frames);
  if (tasks > 1 && sched::switches() > 10 && frames > 0) nontrivial();
  state(sched::trace_hash());
  unload(r);
}
static Reg c10({"C10", c10_gen, c10_run,
  "two to five threads, each with one to three utterances (own audio, width, slicing, rejected calls, some destroyed early) on one recognizer, pre-empted at random memory accesses; everything each "
  "utterance shows against the same utterance alone in a pristine process; non-trivial: at least two threads and ten context switches"});
}  // namespace
