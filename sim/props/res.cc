// Resources: C09 (memory of a long utterance), C15 (everything is returned), C18 (allocation failures).
#include "../api.h"
#include <errno.h>
#include <algorithm>
#include <new>
using namespace sim;
using namespace api;

std::string damaged(const model::Model &m, int f, const std::string &keep, int64_t mark, int64_t val, int64_t way, char *what);   // load.cc

namespace {
int64_t mod(int64_t v, int64_t n) { return n <= 0 ? 0 : ((v % n) + n) % n; }
model::Model the_model(const Plan &p) { const Line *l = find(p, "model"); return model::make(l ? *l : Line("model")); }
void set_fill(const Plan &p) { const Line *fl = find(p, "fill"); mem::fill(fl ? (int)fl->i("mode", 2) : 2, fl ? fl->i("seed", 1) : 1); }
Line fill_line(Rng &r) { return Line("fill").set("mode", (int)r.n(5)).set("seed", (int64_t)r.n(1000000)); }

// ---------------------------------------------------------------- C09
// The audio repeats with a short period, so after a while the search meets nothing new: whatever still grows, grows with the audio.
void c09_gen(Rng &r, Plan &p, const Tier &t) {
  Line m = model::draw(r, r.chance(0.6));
  m.set("lm", (int)(r.n(4) == 0)).set("silent", (int)r.n(2));
  if (m.i("topo") == 2 || m.i("topo") == 3) m.set("topo", (int)r.n(2));
  if (r.chance(0.3)) m.set("topo", 6).set("silent", 0);
  p.push_back(m);
  p.push_back(draw_audio(r));
  p.push_back(fill_line(r));
  int b = (int)p[1].i("bits") / 8;
  int per = r.range(1, 6);
  static const int sl[] = {160, 320, 400, 800, 1600, 3200, 16000, 161, 77};
  int64_t slice = (int64_t)sl[r.n(9)] * b + (r.chance(0.3) ? (int64_t)r.n(3) : 0);
  p.push_back(Line("long").set("period", 20 * per).set("frames", t.thorough ? r.range(2400, 12000) : r.range(1500, 3600)).set("slice", slice).set("bad", (int)(r.n(3) == 0))
    .set("first", r.chance(0.5) ? (int)r.n(2 * b) : 0).set("alt", r.chance(0.3) ? (int64_t)sl[r.n(9)] * b + (int64_t)r.n(4) : 0));
}
void c09_run(const Plan &p) {
  model::Model m = the_model(p);
  const Line *ml = find(p, "model"), *lo = find(p, "long"), *au = find(p, "audio");
  if (!lo) return;
  bool silent = ml && (ml->i("silent") || ml->i("topo") == 6);   // no new words in the second half
  if (ml && ml->i("silent")) for (auto &v : m.g.arcs) for (auto &a : v) a.ol = 0;
  m.install("/cesim/m/");
  set_fill(p);
  model::Audio a(au ? *au : Line("audio"));
  int64_t period = std::max<int64_t>(1, std::min<int64_t>(400, lo->i("period", 40))) * 160, frames = std::max<int64_t>(60, std::min<int64_t>(20000, lo->i("frames", 1500)));
  int64_t slice = std::max<int64_t>(64, lo->i("slice", 1600)), total = frames * 160 * a.bps();
  std::string one = a.bytes(0, period * a.bps());
  ce_stt_t *r = must_load(m.conf());
  ce_utt_t *u = must_open(r, a.bits);
  mem::track(true);
  // memory the utterance holds beyond what it held when it was created, after each call
  int64_t fed = 0, early_b = INT64_MIN, early_n = INT64_MIN, late_b = INT64_MIN, late_n = INT64_MIN, words_early = 0, words = 0, calls = 0;
  std::string buf, at_early;
  while (fed < total) {
    int64_t n = calls == 0 && lo->i("first") > 0 ? std::min<int64_t>(lo->i("first"), 64) : calls % 2 && lo->i("alt") > 0 ? std::max<int64_t>(64, lo->i("alt")) : slice;
    n = std::min(n, total - fed);
    buf.clear();
    while ((int64_t)buf.size() < n) {
      int64_t o = (fed + (int64_t)buf.size()) % (int64_t)one.size();
      buf += one.substr(o, std::min<int64_t>(n - buf.size(), one.size() - o));
    }
    feed(u, buf);
    fed += n;
    ++calls;
    if (lo->i("bad") && calls % 3 == 0) feed_raw(u, nullptr, 5);
    int64_t by = mem::live_bytes(), bl = mem::live_blocks();
    if (fed < total / 2) {
      words_early = 0;
      for (const char *c = u->hyp; *c; ++c) words_early += *c == ' ';
      if (by > early_b) { early_b = by; at_early = mem::live_summary(); }
      early_n = std::max(early_n, bl);
    } else {
      late_b = std::max(late_b, by);
      late_n = std::max(late_n, bl);
    }
  }
  for (const char *c = u->hyp; *c; ++c) words += *c == ' ';
  int64_t dw = std::max<int64_t>(0, words - words_early);
  int64_t f2 = frames / 2;
  ev("c09 %lld %lld %lld", (long long)frames, (long long)words, (long long)calls);
  count_max("max_frames", frames);
  count("audio_samples_simulated", frames * 160);
  count("silent_graph_runs", silent);
  count_max("max_growth_bytes", late_b - early_b);
  count_max(silent ? "max_growth_bytes_silent" : "max_growth_bytes_words", late_b - early_b);
  count_max(silent ? "max_growth_blocks_silent" : "max_growth_blocks_words", late_n - early_n);
  count_max("max_words", words);
  // allowance: nothing but rounding when no words are produced; the words of the transcript and of competing hypotheses otherwise
  int64_t allow_b = silent ? 2048 : 400000 + 600 * dw + 200 * f2, allow_n = silent ? 8 : 64 + 6 * dw + 2 * f2;
  if (late_b - early_b > allow_b || late_n - early_n > allow_n)
    fail("memory-grows", "frames %lld to %lld of periodic audio: live memory grows from %lld to %lld bytes and from %lld to %lld blocks (%lld more words); early:%s late:%s", (long long)f2, (long long)frames,
         (long long)early_b, (long long)late_b, (long long)early_n, (long long)late_n, (long long)dw, at_early.c_str(), mem::live_summary().c_str());
  end(u);
  close(u);
  mem::track(false);
  unload(r);
  if (frames >= 1000) nontrivial();
  state(mix(frames * 131 + words) ^ fed);
}
static Reg c09({"C09", c09_gen, c09_run,
  "one utterance of 15 to 36 s (thorough: up to 2 minutes) of periodic audio in small calls, with graphs that emit words, graphs that emit them only at the start, and graphs that emit none; the peak of live memory over the second half against the first half; "
  "non-trivial: at least 1000 frames"});

// ---------------------------------------------------------------- C15
const char *FILES[] = {"model.conf", "HCLG.fst", "nnet.bin", "prior.bin", "tid2pdf.bin", "words.txt", "lm.bin", "small.bin"};
void c15_gen(Rng &r, Plan &p, const Tier &t) {
  Line m = model::draw(r, r.chance(0.5));
  p.push_back(m);
  p.push_back(fill_line(r));
  int n = r.range(2, t.thorough ? 16 : 10);
  bool have = false;
  for (int i = 0; i < n; ++i) {
    double u = r.unit();
    if (u < 0.40) {
      Line l("load");
      l.set("file", (int)r.n(8));
      double v = r.unit();
      if (v < 0.20) l.set("how", "ok");
      else if (v < 0.30) l.set("how", "open");
      else if (v < 0.36) l.set("how", "damage").set("mark", (int64_t)r.n(100000)).set("val", (int64_t)r.n(1000000)).set("way", (int)r.n(6));
      else if (v < 0.38) l.set("how", "nostart").set("file", 1);
      else if (v < 0.42) { if (r.chance(0.6)) l.set("file", r.chance(0.5) ? 0 : 5); l.set("how", "badline").set("at", r.unit()).set("val", (int)r.n(6)); }
      else if (v < 0.65) l.set("how", "eio").set("at", r.unit());
      else if (v < 0.85) l.set("how", "cut").set("at", r.unit());
      else l.set("how", "alloc").set("at", r.unit());
      if (l.s("how") == "alloc" && r.chance(0.5)) l.set("low", 1);   // memory stays short from there until the step is undone
      if (l.s("how") == "ok" && r.chance(0.2)) l.set("low", 1);      // or is short when the recognizer is destroyed
      p.push_back(l);
      if (l.s("how") == "ok") have = true;
    } else if (u < 0.85) {
      if (!have) { p.push_back(Line("load").set("how", "ok")); have = true; }
      Line a = draw_audio(r);
      a.op = "utt";
      int b = (int)a.i("bits") / 8;
      a.set("total", draw_total(r, (int)a.i("bits"), 45)).set("slice", (int64_t)(160 * r.range(1, 40)) * b + (int64_t)r.n(4)).set("end", (int)(r.n(4) != 0));
      if (r.chance(0.15)) a.set("alloc", r.unit());
      if (r.chance(0.25)) a.set("low", 1);
      p.push_back(a);
    } else if (u < 0.92) p.push_back(Line("badopen").set("kind", (int)r.n(3)));
    else p.push_back(Line("header").set("cut", (int)r.n(50)).set("eio", (int)r.n(80)));
  }
  p.push_back(Line("cycles").set("n", 2));
}
struct C15 {
  const Plan &p;
  model::Model &m;
  std::vector<int64_t> allocs;   // allocations each line makes when nothing fails
  std::string cycle(bool inject) {
    ce_stt_t *r = nullptr;
    bool low = false;   // memory is short when r is destroyed
    auto drop = [&]() {
      if (low && inject) { mem::fail_at(1, 1000000); count("fault.destroyed_while_memory_is_short"); }
      if (r) unload(r);
      mem::fail_at(0, 0);
      r = nullptr;
    };
    std::string log;
    for (size_t i = 0; i < p.size(); ++i) {
      const Line &l = p[i];
      int64_t a0 = mem::sut_allocs();
      if (l.op == "load") {
        if (r) drop();
        low = l.i("low") && l.s("how", "ok") == "ok";
        std::string how = l.s("how", "ok"), path = m.dir + FILES[mod(l.i("file"), 8)], keep = io::get(path);
        double at = std::max(0.0, std::min(1.0, l.f("at")));
        if (how == "open" || how == "missing") io::add_fault(path, "open", 0, 0, EACCES);
        else if (how == "eio") io::add_fault(path, "eio", (int64_t)(at * keep.size()), 0, EIO);
        else if (how == "damage" && !keep.empty()) io::put(path, damaged(m, (int)mod(l.i("file"), 8), keep, l.i("mark"), l.i("val"), l.i("way"), nullptr));
        else if (how == "nostart" && path == m.dir + "HCLG.fst") { model::Model x = m; x.g.start = -1; io::put(path, x.hclg_bytes()); count("fault.no_start_state"); }
        else if (how == "badline" && (mod(l.i("file"), 8) == 0 || mod(l.i("file"), 8) == 5)) {
          static const char *B[] = {"x", "x y z", "num_pdfs = ten", "left_context=", "word nine", "= ="};
          size_t o = keep.find('\n', (size_t)(at * keep.size()));
          std::string s = keep;
          s.insert(o == std::string::npos ? s.size() : o + 1, std::string(B[mod(l.i("val"), 6)]) + "\n");
          io::put(path, s);
          count("fault.malformed_line");
        } else if (how == "cut" && !keep.empty()) { io::put(path, keep.substr(0, std::min(keep.size() - 1, (size_t)(at * keep.size())))); count("fault.file_cut_short"); }
        else if (how == "alloc" && inject && allocs[i] > 0) mem::fail_at(1 + (int64_t)(at * (allocs[i] - 1)), l.i("low") ? 1000000 : 1);
        try { r = load(m.conf()); } catch (std::bad_alloc &) { r = nullptr; log += "bad_alloc "; }
        mem::fail_at(0, 0);
        log += r ? "loaded " : "refused ";
        io::clear_faults();
        io::put(path, keep);
        // Nothing can be decoded without a start state, and a word list or configuration that ends early is
        // well-formed text: what is decoded with it (a word without a name, for example) is not this property's
        // matter, only that all of it is returned.
        bool other = how == "nostart" || ((how == "cut" || how == "badline") && (mod(l.i("file"), 8) == 0 || mod(l.i("file"), 8) == 5)) || how == "damage";
        if (r && other) { unload(r); r = nullptr; count("altered_loads_destroyed_unused"); }
      } else if (l.op == "utt" && r) {
        model::Audio a(l);
        int64_t total = std::max<int64_t>(1, std::min<int64_t>(100000, l.i("total", 5000))), slice = std::max<int64_t>(40, l.i("slice", 3200));
        if (l.has("alloc") && inject && allocs[i] > 0) mem::fail_at(1 + (int64_t)(std::min(1.0, l.f("alloc")) * (allocs[i] - 1)), l.i("low") ? 1000000 : 1);
        ce_utt_t *u = nullptr;
        try {
          u = open(r, a.bits);
          if (u) {
            for (int64_t f = 0; f < total; f += slice) feed(u, a.bytes(f, std::min(slice, total - f)));
            if (l.i("end", 1)) end(u);
          }
        } catch (std::bad_alloc &) { log += "bad_alloc "; }
        mem::fail_at(0, 0);
        if (u) {
          log += std::to_string(fnv(std::string(u->hyp ? u->hyp : "?")) & 0xffff) + " ";
          if (l.i("low") && inject) { mem::fail_at(1, 1000000); count("fault.destroyed_while_memory_is_short"); }
          close(u);
          mem::fail_at(0, 0);
        }
      } else if (l.op == "badopen" && r) {
        static const int v[3][3] = {{24, 1, 16000}, {16, 2, 16000}, {16, 1, 8000}};
        const int *k = v[mod(l.i("kind"), 3)];
        ce_utt_t *u = open(r, k[0], k[1], k[2]);
        if (u) close(u);
        count("fault.unsupported_format");
      } else if (l.op == "header") {
        std::string b = model::wav_header(16, 50);
        b.resize(std::min<size_t>(b.size(), mod(l.i("cut"), 50)));
        io::put("/cesim/h.wav", b);
        io::add_fault("/cesim/h.wav", "eio", mod(l.i("eio"), 100), 0, EIO);
        FILE *f = io::open_file("/cesim/h.wav");
        ce_wave_format_t w;
        { mem::Sut s; ce_read_pcm_header(f, &w); }
        fclose(f);
        io::clear_faults();
      }
      if (!inject) allocs[i] = mem::sut_allocs() - a0;
    }
    if (r) drop();
    return log;
  }
};
void c15_run(const Plan &p) {
  model::Model m = the_model(p);
  m.install("/cesim/m/");
  set_fill(p);
  C15 c = {p, m, std::vector<int64_t>(p.size(), 0)};
  mem::track(true);
  c.cycle(false);   // how many allocations each step makes; also warms whatever is set up once per process
  c.cycle(true);
  int64_t b1 = mem::live_bytes(), n1 = mem::live_blocks();
  std::string s1 = mem::live_summary();
  int64_t h1 = io::open_handles();
  if (h1 != 0) fail("handle-leak", "%lld file handles are still open after everything has been destroyed", (long long)h1);
  const Line *cy = find(p, "cycles");
  int64_t n = cy ? std::max<int64_t>(1, std::min<int64_t>(5, cy->i("n", 2))) : 1;
  std::string log;
  for (int64_t k = 0; k < n; ++k) log = c.cycle(true);
  int64_t b2 = mem::live_bytes(), n2 = mem::live_blocks(), h2 = io::open_handles();
  ev("c15 %s", log.c_str());
  if (h2 != 0) fail("handle-leak", "%lld file handles are still open after everything has been destroyed", (long long)h2);
  if (n2 > n1 || b2 > b1)
    fail("memory-leak", "after %lld repetitions of the same history, all destroyed: %lld live blocks (%lld bytes) became %lld (%lld bytes); before:%s after:%s", (long long)n, (long long)n1, (long long)b1,
         (long long)n2, (long long)b2, s1.c_str(), mem::live_summary().c_str());
  if (mem::fails_fired()) count("alloc_failures_survived", mem::fails_fired());
  count("cycles", n + 2);
  mem::track(false);
  if (log.find("refused") != std::string::npos || log.find("loaded") != std::string::npos) nontrivial();
  state(fnv(log));
}
static Reg c15({"C15", c15_gen, c15_run,
  "histories of loads (intact, refused at any file and byte, damaged, with malformed lines, without a start state, allocation failing at any point), utterances (complete, abandoned, allocation failing at any point), refused formats and audio headers, repeated; "
  "live blocks, bytes and file handles after each repetition; non-trivial: at least one load attempt"});

// ---------------------------------------------------------------- C18
void c18_gen(Rng &r, Plan &p, const Tier &t) {
  Line m = model::draw(r, r.chance(0.4));
  m.set("lm", (int)(r.n(3) == 0));
  if (r.chance(0.4)) m.set("topo", (int)r.n(2)).set("words", r.range(10, 40));
  static const int sizes[] = {15, 15, 30, 31, 14};
  if (r.chance(0.3)) m.set("wl", sizes[r.n(5)]);   // every word at the edge of what a string holds without growing
  p.push_back(m);
  p.push_back(fill_line(r));
  int nu = r.range(2, t.thorough ? 7 : 5);
  int maxf = 60;
  // utterances interleave: each is a few feeds and an end; some of these fail
  struct U { int id, bits; int64_t left; int stage; bool victim; };
  std::vector<U> us;
  for (int i = 0; i < nu; ++i) {
    Line a = draw_audio(r);
    a.op = "utt";
    a.set("u", i);
    p.push_back(a);
    us.push_back({i, (int)a.i("bits"), draw_total(r, (int)a.i("bits"), maxf), 0, i > 0 && r.chance(0.75)});
    if (r.chance(0.5)) us.back().left = (int64_t)(400 + 160 * (20 + r.n(maxf))) * (a.i("bits") / 8);
  }
  us[0].victim = false;
  for (int guard = 0; guard < 200; ++guard) {
    std::vector<int> c;
    for (auto &u : us) if (u.stage < 3) c.push_back(u.id);
    if (c.empty()) break;
    U &u = us[r.pick(c)];
    Line l;
    if (u.stage == 0) { l.op = "open"; u.stage = 1; }
    else if (u.left > 0) {
      l.op = "feed";
      int64_t n = r.chance(0.3) ? u.left : 1 + (int64_t)r.n(u.left);
      l.set("n", n);
      u.left -= n;
    } else { l.op = "end"; u.stage = 3; }
    l.set("u", u.id);
    if (u.victim && r.chance(l.op == "open" ? 0.15 : 0.4)) l.set("fail", r.unit()).set("times", r.chance(0.6) ? 1 : r.chance(0.6) ? r.range(2, 50) : 1000);
    if (l.has("fail")) {   // what becomes of the failed utterance: destroyed at once, while memory is still short, or at the end
      if (r.chance(0.4)) l.set("low", 1);
      else if (r.chance(0.3)) l.set("late", 1);
    }
    if (l.has("fail") && r.chance(0.4)) l.set("back", (int)r.n(9));   // near the end of the operation, where the transcript is put together
    p.push_back(l);
  }
}
void c18_run(const Plan &p) {
  model::Model m = the_model(p);
  m.install("/cesim/m/");
  set_fill(p);
  std::map<int, model::Audio> audio;
  std::map<int, int64_t> fed;   // the whole speech of each utterance
  for (auto &l : p) if (l.op == "utt") audio[(int)mod(l.i("u"), 16)] = model::Audio(l);
  for (auto &l : p) if (l.op == "feed") { int64_t &f = fed[(int)mod(l.i("u"), 16)]; f = std::min<int64_t>(100000, f + std::max<int64_t>(1, l.i("n", 1))); }
  // The history; `inject` with failures. One answer per line.
  std::vector<int64_t> allocs(p.size(), 0);
  int64_t failed = 0, bad_allocs = 0, refused = 0;
  auto history = [&](bool inject, std::vector<std::string> *ans, std::map<int, bool> *dead) {
    ce_stt_t *r = must_load(m.conf());
    std::map<int, Stream> st;
    std::map<int, bool> ended;
    for (size_t i = 0; i < p.size(); ++i) {
      const Line &l = p[i];
      int u = (int)mod(l.i("u"), 16);
      if ((l.op != "open" && l.op != "feed" && l.op != "end") || !audio.count(u) || (*dead)[u]) continue;
      Stream &s = st[u];
      if (l.op == "open" ? s.u != nullptr : s.u == nullptr) continue;
      if (l.op != "open" && ended[u]) continue;
      int64_t a0 = mem::sut_allocs(), f0 = mem::fails_fired(), ret = 0;
      int64_t at = 1 + (int64_t)(std::max(0.0, std::min(1.0, l.f("fail"))) * (allocs[i] - 1));
      if (l.has("back")) at = std::max<int64_t>(1, allocs[i] - std::max<int64_t>(0, l.i("back")));
      if (inject && l.has("fail") && allocs[i] > 0) mem::fail_at(at, std::max<int64_t>(1, std::min<int64_t>(1000, l.i("times", 1))));
      bool threw = false, err = false;
      try {
        if (l.op == "open") {
          s.a = audio[u];
          s.u = open(r, s.a.bits);
          err = s.u == nullptr;
        } else if (l.op == "feed") {
          ret = s.feed(std::max<int64_t>(1, std::min<int64_t>(200000, l.i("n", 1))));
          err = ret < 0;
        } else {
          end(s.u);
          ended[u] = true;
        }
      } catch (std::bad_alloc &) {
        threw = true;
      } catch (std::exception &e) {
        mem::fail_at(0, 0);
        fail("other-exception", "line %zu (%s): an allocation failure surfaces as %s", i, l.str().c_str(), e.what());
      }
      mem::fail_at(0, 0);
      bool fired = mem::fails_fired() > f0;
      allocs[i] = inject ? allocs[i] : mem::sut_allocs() - a0;
      if (threw || err) {
        if (!fired) fail("spurious-failure", "line %zu (%s) fails although no allocation failed: %s", i, l.str().c_str(), err ? last_error().c_str() : "bad_alloc");
        ++failed;
        bad_allocs += threw;
        refused += err;
        (*dead)[u] = true;
        if (s.u && l.i("late")) { count("destroyed_late"); }   // below
        else if (s.u) {   // must be safe
          if (l.i("low")) { mem::fail_at(1, 1000000); count("fault.destroyed_while_memory_is_short"); }
          close(s.u);
          mem::fail_at(0, 0);
          s.u = nullptr;
        }
        count((std::string("failed_in_") + l.op).c_str());
        continue;
      }
      if (fired && l.op != "open") { count("failures_absorbed"); }
      (*ans)[i] = std::to_string(ret) + " " + result(s.u).str();
    }
    for (auto &x : st) if (x.second.u) close(x.second.u);
    // the recognizer serves on
    for (auto &x : audio) {
      ans->push_back(decode1(r, x.second, std::max<int64_t>(9000 / 2 * x.second.bps(), fed[x.first])).str());
    }
    unload(r);
  };
  std::vector<std::string> want(p.size()), got(p.size());
  std::map<int, bool> d0, d1;
  std::string packed = pristine([&]() {
    mem::fill(0, 0);
    history(false, &want, &d0);
    std::string s;
    for (size_t i = 0; i < want.size(); ++i) s += std::to_string(i < p.size() ? allocs[i] : 0) + "\t" + want[i] + "\n";
    return s;
  });
  want.clear();
  {
    size_t o = 0, i = 0;
    while (o < packed.size()) {
      size_t e = packed.find('\n', o), t = packed.find('\t', o);
      if (i < p.size()) allocs[i] = strtoll(packed.c_str() + o, nullptr, 10);
      want.push_back(packed.substr(t + 1, e - t - 1));
      o = e + 1;
      ++i;
    }
  }
  history(true, &got, &d1);
  if (got.size() != want.size()) broken("histories of different length");
  int64_t compared = 0;
  uint64_t h = 0;
  for (size_t i = 0; i < got.size(); ++i) {
    if (i < p.size() && d1.count((int)mod(p[i].i("u"), 16)) && d1[(int)mod(p[i].i("u"), 16)]) {
      // a failed utterance: its answers before the failure count too
      if (got[i].empty()) continue;
    }
    if (got[i] != want[i])
      fail("harmed", "%s: %s, without the allocation failures %s", i < p.size() ? ("line " + std::to_string(i) + " (" + p[i].str() + ")").c_str() : "an utterance after the failures", got[i].c_str(), want[i].c_str());
    compared += !got[i].empty();
    h = mix(h ^ fnv(got[i]));
  }
  ev("c18 %lld %llx", (long long)failed, (unsigned long long)h);
  count("failed_operations", failed);
  count("bad_alloc_surfaced", bad_allocs);
  count("errors_returned", refused);
  count("answers_compared", compared);
  if (failed > 0 && compared > 0) nontrivial();
  state(h ^ mix(failed));
}
static Reg c18({"C18", c18_gen, c18_run,
  "two to seven interleaved utterances on one recognizer, allocations failing at any point (once or several in a row) while some of them are created, fed or ended; every answer of the others, and of new utterances "
  "afterwards, against the same history without failures; non-trivial: at least one operation failed"});

// ---------------------------------------------------------------- C23
template <class F> int64_t work_of(F f) {
  uint64_t e = sched::edges(), b = mem::moved();
  f();
  return (int64_t)(sched::edges() - e + (mem::moved() - b) / 16);
}
// The work (executed basic blocks of the code under test) for the same stretch of periodic audio, early and late in one utterance.
void c23_gen(Rng &r, Plan &p, const Tier &t) {
  Line m = model::draw(r, r.chance(0.6));
  m.set("lm", (int)(r.n(5) == 0));
  if (m.i("topo") == 2 || m.i("topo") == 3 || m.i("topo") == 5) m.set("topo", (int)r.n(2));
  double x = r.unit();
  if (x < 0.3) m.set("topo", 6);
  else if (x < 0.6) m.set("silent", 1);
  p.push_back(m);
  p.push_back(draw_audio(r));
  p.push_back(fill_line(r));
  static const int sl[] = {160, 320, 400, 800, 1600, 3200, 16000, 161, 77};
  int b = (int)p[1].i("bits") / 8;
  p.push_back(Line("long").set("period", 20 * r.range(1, 5)).set("frames", t.thorough ? r.range(1200, 6000) : r.range(800, 2400)).set("slice", (int64_t)sl[r.n(9)] * b + (r.chance(0.3) ? (int64_t)r.n(3) : 0)).set("bad", (int)(r.n(4) == 0)));
}
void c23_run(const Plan &p) {
  model::Model m = the_model(p);
  const Line *ml = find(p, "model"), *lo = find(p, "long"), *au = find(p, "audio");
  if (!lo) return;
  bool silent = ml && (ml->i("silent") || ml->i("topo") == 6);
  if (ml && ml->i("silent")) for (auto &v : m.g.arcs) for (auto &a : v) a.ol = 0;
  m.install("/cesim/m/");
  set_fill(p);
  model::Audio a(au ? *au : Line("audio"));
  int64_t period = std::max<int64_t>(1, std::min<int64_t>(400, lo->i("period", 40))) * 160, frames = std::max<int64_t>(200, std::min<int64_t>(20000, lo->i("frames", 1500)));
  int64_t slice = std::max<int64_t>(64, lo->i("slice", 1600)), total = frames * 160 * a.bps();
  std::string one = a.bytes(0, period * a.bps());
  ce_stt_t *r = must_load(m.conf());
  ce_utt_t *u = must_open(r, a.bits);
  // windows of 100 frames of audio: the work in each
  std::vector<int64_t> work;
  int64_t win = 100 * 160 * a.bps(), fed = 0, words = 0, calls = 0, acc = 0, next = win;
  std::string buf;
  while (fed < total) {
    int64_t n = std::min(slice, total - fed);
    buf.clear();
    while ((int64_t)buf.size() < n) {
      int64_t o = (fed + (int64_t)buf.size()) % (int64_t)one.size();
      buf += one.substr(o, std::min<int64_t>(n - buf.size(), one.size() - o));
    }
    int64_t e = work_of([&]() { feed_raw(u, buf.data(), (int32_t)buf.size()); });
    acc += e;
    fed += n;
    ++calls;
    if (lo->i("bad") && calls % 3 == 0) feed_raw(u, nullptr, 5);
    if (fed >= next) {
      work.push_back(acc / std::max<int64_t>(1, (fed - (next - win) + win / 2) / win));   // a call may span windows
      acc = 0;
      while (next <= fed) next += win;
    }
  }
  for (const char *c = u->hyp; *c; ++c) words += *c == ' ';
  int64_t endwork = work_of([&]() { end(u); });
  close(u);
  unload(r);
  size_t n = work.size();
  if (n < 6) return;
  auto mean = [&](size_t from, size_t to) { int64_t s = 0; for (size_t i = from; i < to; ++i) s += work[i]; return s / (int64_t)(to - from); };
  int64_t early = mean(1, 1 + n / 3), late = mean(n - n / 3, n);
  int64_t endallow = std::max(early, late) * (m.chunk + m.L + m.R + 5) / 50 + 600 * words + 50000;   // what a batch still holds
  ev("c23 %lld %lld %lld %lld", (long long)early, (long long)late, (long long)endwork, (long long)words);
  count("audio_samples_simulated", frames * 160);
  count("work_units", mean(0, n) * (int64_t)n);
  count("silent_graph_runs", silent);
  count_max(silent ? "max_late_to_early_permille_silent" : "max_late_to_early_permille_words", late * 1000 / std::max<int64_t>(1, early));
  count_max("max_end_to_window_permille", endwork * 1000 / std::max<int64_t>(1, late));
  // the transcript and the histories of the hypotheses are walked at every refresh and collection: linear in the words
  int64_t allow = silent ? early + early / 10 + 20000 : early + early * 3 / 10 + 600 * words + 20000;
  if (getenv("C23V")) fprintf(stderr, "%s %lld %lld %lld %lld %.3f %.1f %.3f", silent ? "S" : "W", (long long)early, (long long)late, (long long)words, (long long)endwork, (double)late / early, (double)late / allow, (double)endwork / endallow);
  if (late > allow) fail("work-grows", "100 frames of the same audio take %lld steps early and %lld steps after %lld frames (%lld words)", (long long)early, (long long)late, (long long)frames, (long long)words);
  if (endwork > endallow) fail("work-at-end", "the end of the stream takes %lld steps after %lld frames, 100 frames of audio %lld", (long long)endwork, (long long)frames, (long long)late);
  if (frames >= 600) nontrivial();
  state(mix(early) ^ mix(late * 3));
}
static Reg c23({"C23", c23_gen, c23_run,
  "one utterance of 8 to 24 s (thorough: up to a minute) of periodic audio; the executed basic blocks for the same amount of audio early and late; non-trivial: at least 600 frames"});
}  // namespace
