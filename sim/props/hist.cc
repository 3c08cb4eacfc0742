// C11: the result of an utterance does not depend on what the process did before.
#include "../api.h"
#include <algorithm>
using namespace sim;
using namespace api;

// Freed memory is handed out again at once: the history under study includes recycled memory.
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:symbolize=0:exitcode=99:abort_on_error=0:handle_abort=0:allocator_may_return_null=1:max_malloc_fill_size=0:"
         "quarantine_size_mb=0:thread_local_quarantine_size_kb=0:detect_stack_use_after_return=0:malloc_context_size=2:print_legend=0:"
         "detect_container_overflow=1:allow_user_segv_handler=0";
}

namespace {
const int NR = 4, NU = 8;
int slot(const Line &l, const char *k, int n) { int64_t v = l.i(k); return (int)(((v % n) + n) % n); }
int64_t len(const Line &l) { return std::max<int64_t>(1, std::min<int64_t>(400000, l.i("n", 1))); }
int64_t reps(const Line &l) { return std::max<int64_t>(1, std::min<int64_t>(2000, l.i("rep", 1))); }

struct Call { int kind; int64_t n, rep; };   // 0 feed, 1 end, 2 rejected call
struct Life { int model; model::Audio a; std::vector<Call> calls; size_t open_line; };

std::string see(ce_utt_t *u, int64_t k) { return std::to_string(k) + " " + result(u).str() + "\n"; }
std::string perform(Stream &s, const Call &c) {
  if (c.kind == 0) {
    int64_t k = 0;
    for (int64_t i = 0; i < c.rep; ++i) k = k * 31 + s.feed(c.n);
    return see(s.u, k);
  }
  if (c.kind == 1) { end(s.u); return see(s.u, -1); }
  int k = feed_raw(s.u, c.n & 1 ? nullptr : "x", c.n & 2 ? 0 : -4);
  return see(s.u, k);
}
std::vector<model::Model> models_of(const Plan &p) {
  std::vector<model::Model> v;
  for (auto &l : p) if (l.op == "model" && v.size() < 4) v.push_back(model::make(l));
  if (v.empty()) v.push_back(model::make(Line("model")));
  return v;
}
std::string dir(int m) { return "/cesim/m" + std::to_string(m) + "/"; }

void c11_gen(Rng &r, Plan &p, const Tier &t) {
  int nm = r.range(1, 3), maxf = t.thorough ? 150 : 70;
  bool wide = false;
  std::vector<Line> ms;
  for (int i = 0; i < nm; ++i) {
    Line m = model::draw(r, r.chance(0.4));
    if (r.chance(0.35)) m.set("lm", 1).set("words", r.range(30, 90)).set("topo", (int)r.n(2));   // labels enough to collide in a language-model cache
    if (i > 0 && r.chance(0.3)) { int64_t s = m.i("seed"); m = ms[0]; m.set("seed", s); }           // same shape, other numbers
    if (r.chance(0.02)) {  // more hypotheses than one block holds, or than the beam keeps
      bool most = r.chance(0.6);
      m.set("fan", most ? r.range(32000, 50000) : r.range(1000, 15000)).set("lm", 0).set("amp", 0.5).set("R", r.range(0, 2)).set("chunk", r.range(1, 5));
      maxf = std::min(maxf, most ? 12 : 30);
      wide = true;
    }
    ms.push_back(m);
    p.push_back(m);
  }
  p.push_back(Line("fill").set("mode", (int)r.n(5)).set("seed", (int64_t)r.n(1000000)));
  int rec[NR] = {-1, -1, -1, -1};   // model, or -1
  int ur[NU], ub[NU];
  int64_t left[NU];
  for (int i = 0; i < NU; ++i) ur[i] = -1;
  int steps = r.range(10, t.thorough ? 90 : 45), opens = 0, maxo = t.thorough ? 14 : 8;
  if (wide) { steps = std::min(steps, 20); maxo = 4; }
  auto emit = [&](Line l) { p.push_back(l); };
  Line lastaudio = draw_audio(r);
  for (int i = 0; i < steps; ++i) {
    std::vector<int> liver, liveu;
    for (int k = 0; k < NR; ++k) if (rec[k] >= 0) liver.push_back(k);
    for (int k = 0; k < NU; ++k) if (ur[k] >= 0) liveu.push_back(k);
    double u = r.unit();
    if (liver.empty() || u < 0.10) {
      int k = (int)r.n(NR);
      if (rec[k] >= 0) { emit(Line("unload").set("r", k)); for (int x = 0; x < NU; ++x) if (ur[x] == k) ur[x] = -1; }
      rec[k] = (int)r.n(nm);
      Line l("load");
      l.set("r", k).set("m", rec[k]);
      if (r.chance(0.5)) l.set("shared", 1);
      emit(l);
    } else if (u < 0.14) {
      int k = r.pick(liver);
      emit(Line("unload").set("r", k));
      rec[k] = -1;
      for (int x = 0; x < NU; ++x) if (ur[x] == k) ur[x] = -1;
    } else if (u < 0.18) {
      emit(Line("badload").set("kind", (int)r.n(6)).set("m", (int)r.n(nm)));
    } else if (u < 0.22) {
      emit(Line("badopen").set("r", r.pick(liver)));
    } else if ((liveu.empty() || u < 0.42) && opens < maxo) {
      int k = (int)r.n(NU);
      if (ur[k] >= 0) emit(Line("close").set("u", k));
      ur[k] = r.pick(liver);
      Line a = r.chance(0.35) ? lastaudio : draw_audio(r);
      lastaudio = a;
      a.op = "open";
      a.set("u", k).set("r", ur[k]);
      emit(a);
      ub[k] = (int)a.i("bits") / 8;
      left[k] = draw_total(r, (int)a.i("bits"), maxf);
      ++opens;
    } else if (!liveu.empty() && u < 0.90) {
      int k = r.pick(liveu);
      if (left[k] <= 0) { emit(Line("end").set("u", k)); if (r.chance(0.7)) { emit(Line("close").set("u", k)); ur[k] = -1; } continue; }
      int64_t n = r.chance(0.4) ? left[k] : 1 + (int64_t)r.n(std::min<int64_t>(left[k], 12000 * ub[k]));
      emit(Line("feed").set("u", k).set("n", n));
      left[k] -= n;
    } else if (!liveu.empty() && u < 0.95) {
      emit(Line("bad").set("u", r.pick(liveu)).set("n", (int)r.n(4)));
    } else if (!liveu.empty()) {
      int k = r.pick(liveu);
      emit(Line("close").set("u", k));
      ur[k] = -1;
    }
  }
  for (int k = 0; k < NU; ++k)
    if (ur[k] >= 0) { if (left[k] > 0) emit(Line("feed").set("u", k).set("n", left[k])); if (r.chance(0.85)) emit(Line("end").set("u", k)); }
}

void c11_run(const Plan &p) {
  std::vector<model::Model> ms = models_of(p);
  int nm = (int)ms.size();
  for (int i = 0; i < nm; ++i) ms[i].install(dir(i));
  // what each utterance does, from the plan alone
  std::vector<Life> lives;
  std::vector<int> life_at(p.size(), -1);
  {
    int rec[NR], cur[NU];
    bool ended[NU];
    std::fill(rec, rec + NR, -1);
    std::fill(cur, cur + NU, -1);
    std::vector<int> own(NU, -1);
    for (size_t i = 0; i < p.size(); ++i) {
      const Line &l = p[i];
      int r = slot(l, "r", NR), u = slot(l, "u", NU);
      if (l.op == "load" || l.op == "unload") {
        for (int x = 0; x < NU; ++x) if (own[x] == r) own[x] = cur[x] = -1;
        rec[r] = l.op == "load" ? slot(l, "m", nm) : -1;
      } else if (l.op == "open") {
        cur[u] = own[u] = -1;
        if (rec[r] < 0) continue;
        own[u] = r;
        cur[u] = (int)lives.size();
        ended[u] = false;
        lives.push_back({rec[r], model::Audio(l), {}, i});
        life_at[i] = cur[u];
      } else if (l.op == "close") {
        cur[u] = own[u] = -1;
      } else if ((l.op == "feed" || l.op == "end" || l.op == "bad") && cur[u] >= 0) {
        if (l.op == "feed" && ended[u]) continue;
        Call c = {l.op == "feed" ? 0 : l.op == "end" ? 1 : 2, l.op == "bad" ? l.i("n") : len(l), reps(l)};
        if (c.kind == 1) ended[u] = true;
        lives[cur[u]].calls.push_back(c);
        life_at[i] = cur[u];
      }
    }
  }
  if (lives.empty()) return;
  // each alone, in a process that has done nothing else
  std::vector<std::string> want(lives.size()), got(lives.size());
  for (size_t i = 0; i < lives.size(); ++i)
    want[i] = pristine([&]() {
      mem::fill(0, 0);
      const Life &f = lives[i];
      ce_stt_t *r = must_load(ms[f.model].conf());
      Stream s;
      s.start(r, f.a);
      std::string log = see(s.u, 0);
      for (auto &c : f.calls) log += perform(s, c);
      return log;
    });
  // the history
  const Line *fl = find(p, "fill");
  mem::fill(fl ? (int)fl->i("mode", 2) : 2, fl ? fl->i("seed", 1) : 1);
  ce_stt_t *rec[NR] = {};
  Stream st[NU];
  int own[NU];
  std::fill(own, own + NU, -1);
  int64_t loads = 0, failed = 0, samples = 0, ends = 0;
  auto drop = [&](int u) { if (st[u].u) close(st[u].u); st[u] = Stream(); own[u] = -1; };
  auto unl = [&](int r) {
    for (int u = 0; u < NU; ++u) if (own[u] == r) drop(u);
    if (rec[r]) unload(rec[r]);
    rec[r] = nullptr;
  };
  auto check = [&](int li, size_t line) {
    if (want[li].compare(0, got[li].size(), got[li]) == 0) return;
    size_t a = got[li].rfind('\n', got[li].size() - 2);
    a = a == std::string::npos ? 0 : a + 1;
    size_t b = std::min(a, want[li].size());
    fail("history", "utterance opened by line %zu (%s), at line %zu (%s): shows %s, alone in a fresh process %s", lives[li].open_line, p[lives[li].open_line].str().c_str(), line, p[line].str().c_str(),
         got[li].substr(a, got[li].size() - a - 1).c_str(), want[li].substr(b, want[li].find('\n', b) - b).c_str());
  };
  for (size_t i = 0; i < p.size(); ++i) {
    const Line &l = p[i];
    int r = slot(l, "r", NR), u = slot(l, "u", NU);
    if (l.op == "load") {
      unl(r);
      int m = slot(l, "m", nm);
      std::string d = dir(m);
      if (l.i("shared")) {   // the same path holds different models over time
        d = "/cesim/s/";
        model::Model x = ms[m];
        x.install(d);
        count("fault.model_files_replaced");
      }
      rec[r] = must_load(d + "model.conf");
      ++loads;
    } else if (l.op == "unload") {
      unl(r);
    } else if (l.op == "badload") {
      std::string d = dir(slot(l, "m", nm));
      static const char *fs[] = {"model.conf", "HCLG.fst", "nnet.bin", "prior.bin", "tid2pdf.bin", "words.txt"};
      io::add_fault(d + fs[((l.i("kind") % 6) + 6) % 6], "open", 0, 0, ENOENT);
      ce_stt_t *x = load(d + "model.conf");
      if (x) unload(x);
      io::clear_faults();
      ++failed;
    } else if (l.op == "badopen" && rec[r]) {
      ce_utt_t *x = open(rec[r], 24, 1, 8000);
      if (x) close(x);
      ++failed;
    } else if (l.op == "open") {
      drop(u);
      if (!rec[r]) continue;
      own[u] = r;
      st[u].start(rec[r], model::Audio(l));
      got[life_at[i]] = see(st[u].u, 0);
      check(life_at[i], i);
    } else if (l.op == "close") {
      if (st[u].u) count("fault.abandoned_or_closed");
      drop(u);
    } else if (life_at[i] >= 0 && st[u].u) {
      Life &f = lives[life_at[i]];
      Call c = {l.op == "feed" ? 0 : l.op == "end" ? 1 : 2, l.op == "bad" ? l.i("n") : len(l), reps(l)};
      got[life_at[i]] += perform(st[u], c);
      if (c.kind == 0) samples += c.n * c.rep / f.a.bps();
      ends += c.kind == 1;
      check(life_at[i], i);
    }
  }
  for (int r = 0; r < NR; ++r) unl(r);
  uint64_t h = 0;
  for (size_t i = 0; i < got.size(); ++i) { ev("u %llx", (unsigned long long)fnv(got[i])); h = mix(h ^ fnv(got[i])); }
  count("utterances", (int64_t)lives.size());
  count("recognizers_loaded", loads);
  count("fault.failed_load_or_open", failed);
  count("audio_samples_simulated", samples);
  if (lives.size() > 1 && samples > 2000 && ends > 0) nontrivial();
  state(h);
}
static Reg c11({"C11", c11_gen, c11_run,
  "histories over up to 4 recognizers of up to 3 models (the same path holding different models over time) and up to 8 utterances: loads, destructions, failed loads and opens, abandoned, interleaved and rejected use, "
  "freed memory reused at once with arbitrary contents; everything every utterance shows against the same calls alone in a fresh process; non-trivial: at least two utterances, 2000 samples and one end"});
}  // namespace
