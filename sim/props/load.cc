// Loading under faults: C13 (I/O faults and damage), C14 (read splitting), C16 (audio headers).
#include "../api.h"
#include <errno.h>
#include <algorithm>
using namespace sim;
using namespace api;

namespace {
const char *FILES[] = {"model.conf", "HCLG.fst", "nnet.bin", "prior.bin", "tid2pdf.bin", "words.txt", "lm.bin", "small.bin"};
const char *file_of(const Line &l) { return FILES[((l.i("file") % 8) + 8) % 8]; }
int64_t mod(int64_t v, int64_t n) { return n <= 0 ? 0 : ((v % n) + n) % n; }

model::Model the_model(const Plan &p) { const Line *l = find(p, "model"); return model::make(l ? *l : Line("model")); }
void set_fill(const Plan &p) { const Line *fl = find(p, "fill"); mem::fill(fl ? (int)fl->i("mode", 2) : 2, fl ? fl->i("seed", 1) : 1); }
// What the audio lines of the plan give on a recognizer
std::string answers(ce_stt_t *r, const Plan &p) {
  std::string s;
  int n = 0;
  for (auto &l : p)
    if (l.op == "audio" && n++ < 4) {
      model::Audio a(l);
      s += decode1(r, a, std::max<int64_t>(1, std::min<int64_t>(200000, l.i("total", 8000)))).str() + "\n";
    }
  return s;
}
// a model with sections beyond every buffer size
void big(Rng &r, Line &m) {
  if (r.chance(0.7)) m.set("pad", r.range(1000, 12000));
  if (r.chance(0.4)) m.set("deep", 0).set("wide", r.range(1000, 6000)).set("L", r.range(0, 1)).set("R", r.range(0, 1));
}
void draw_audios(Rng &r, Plan &p, int n, int maxf) {
  for (int i = 0; i < n; ++i) {
    Line a = draw_audio(r);
    a.set("total", draw_total(r, (int)a.i("bits"), maxf));
    if (r.chance(0.7)) a.set("total", (int64_t)(400 + 160 * (20 + r.n(maxf))) * (a.i("bits") / 8));
    p.push_back(a);
  }
}

// Byte offsets of the four-byte signatures and section sizes of a binary model file (parsed from the format)
size_t hclg_header() { return 4 + 4 + 5 + 4 + 8 + 4 + 4 + 8 + 8 + 8 + 8; }
struct Mark { int64_t at; int len; bool size; };
void vec_marks(const std::string &b, int64_t &o, std::vector<Mark> &v) {
  v.push_back({o, 4, false});
  v.push_back({o + 4, 4, true});
  int32_t sz;
  memcpy(&sz, b.data() + o + 4, 4);
  o += 8 + sz;
}
std::vector<Mark> marks(const model::Model &m, int file, const std::string &b) {
  std::vector<Mark> v;
  int64_t o = 0;
  if (file == 1) { v.push_back({0, 4, false}); v.push_back({8, 5, false}); v.push_back({17, 8, false}); }
  else if (file == 3 || file == 4 || file == 7) vec_marks(b, o, v);
  else if (file == 6) { v.push_back({0, 9, false}); v.push_back({32, 4, true}); }
  else if (file == 2) {
    v.push_back({0, 4, false});
    o = 16;
    for (auto &y : m.layers) {
      v.push_back({o, 4, false});
      o += 8;
      if (y.type == 0) {
        v.push_back({o, 4, false});
        v.push_back({o + 4, 4, true});
        o += 16;
        for (int i = 0; i < y.rows; ++i) vec_marks(b, o, v);
        vec_marks(b, o, v);
      } else if (y.type == 7) { vec_marks(b, o, v); vec_marks(b, o, v); }
      else if (y.type == 6) o += 4 + 4 * (int64_t)y.idx.size();
      else if (y.type == 9) o += 8;
    }
    if (o != (int64_t)b.size()) broken("the network file has %zu bytes, its description %lld", b.size(), (long long)o);
  }
  return v;
}

// Offsets at which something begins or ends in a file: fields, arrays, the file itself
std::vector<int64_t> edges(const model::Model &m, int file, const std::string &b) {
  std::vector<int64_t> v = {0, 4, 8, (int64_t)b.size() / 2, (int64_t)b.size() - 4, (int64_t)b.size() - 1, (int64_t)b.size()};
  for (auto &k : marks(m, file, b)) { v.push_back(k.at); v.push_back(k.at + k.len); }
  if (file == 6) {
    int64_t ns = (int64_t)m.lm.fin.size();
    for (int64_t o : {(int64_t)36, (int64_t)40, (int64_t)44, (int64_t)48, 48 + 2 * ns, 48 + 4 * ns, 48 + 6 * ns, 48 + 8 * ns, 48 + 8 * ns + 16}) { v.push_back(o); v.push_back(o); }
  }
  if (file == 1) {
    int64_t ns = (int64_t)m.g.fin.size(), h = (int64_t)hclg_header();
    for (int64_t o : {(int64_t)12, (int64_t)25, (int64_t)33, (int64_t)41, (int64_t)49, h, h + 10 * ns, h + 20 * ns, h + 20 * ns + 16}) { v.push_back(o); v.push_back(o); }
  }
  if (file == 0 || file == 5)
    for (size_t i = 0; i < b.size() && v.size() < 300; ++i) if (b[i] == '\n' || b[i] == '=' || b[i] == ' ') { v.push_back((int64_t)i); v.push_back((int64_t)i + 1); }
  for (auto &x : v) x = std::max<int64_t>(0, std::min<int64_t>((int64_t)b.size(), x));
  std::sort(v.begin(), v.end());
  return v;
}

}  // namespace
// The file with one of its signatures or section sizes damaged; unchanged if it has none
std::string damaged(const model::Model &m, int f, const std::string &keep, int64_t mark, int64_t val, int64_t way, char *what) {
  std::string b = keep;
  std::vector<Mark> v = marks(m, f, b);
  if (v.empty()) return b;
  Mark k = v[mod(mark, (int64_t)v.size())];
  way = mod(way, 6);
  if (k.size) {
    int32_t s, old;
    memcpy(&old, b.data() + k.at, 4);
    s = way == 0 ? old + 1 : way == 1 ? old - 1 : way == 2 ? 0 : way == 3 ? -1 : way == 4 ? old + 4 * (1 + (int)(val % 100)) : (int32_t)(mix(val) & 0xffffffff);
    if (s == old) s ^= 0x40;
    memcpy(&b[k.at], &s, 4);
    count("fault.section_size_damaged");
  } else {
    int64_t o = k.at + mod(val, k.len);
    b[o] = way == 0 ? 0 : (char)(b[o] ^ (1 << (val / 7 % 8)));
    if (b[o] == keep[o]) b[o] ^= 0x20;
    count("fault.signature_damaged");
  }
  if (what) snprintf(what + strlen(what), 60, " of %s at %lld (way %lld)", k.size ? "section size" : "signature", (long long)k.at, (long long)way);
  return b;
}

namespace {
// ---------------------------------------------------------------- C13
void c13_gen(Rng &r, Plan &p, const Tier &t) {
  Line m = model::draw(r, r.chance(0.5));
  m.set("lm", r.chance(0.6) ? 1 : 0);
  p.push_back(m);
  p.push_back(Line("fill").set("mode", (int)r.n(5)).set("seed", (int64_t)r.n(1000000)));
  draw_audios(r, p, 1, 30);
  if (r.chance(0.4)) p.push_back(Line("witness"));
  if (r.chance(0.04)) big(r, p[0]);
  int n = r.range(1, t.thorough ? 16 : 10);
  int focus = r.chance(0.5) ? (r.chance(0.4) ? 6 : (int)r.n(8)) : -1;   // many faults in one file, or anywhere
  for (int i = 0; i < n; ++i) {
    Line l("attempt");
    int f = focus >= 0 ? focus : (int)r.n(8);
    l.set("file", f);
    double u = r.unit();
    bool text = f == 0 || f == 5;
    if (u < 0.2) l.set("how", "open").set("err", (int)r.n(4)).set("skip", (int)(r.n(6) == 0));
    else if (u < 0.55 || (text && u < 0.8)) {
      l.set("how", "eio").set("at", r.unit()).set("times", r.chance(0.55) ? 1 : r.chance(0.5) ? 0 : r.range(2, 3));
      if (r.chance(0.6)) l.set("edge", (int64_t)r.n(1000000)).set("off", r.chance(0.5) ? 0 : r.range(-1, 5));
    }
    else if (text) l.set("how", "missing");
    else if (u < 0.75) l.set("how", "cut").set("at", r.chance(0.3) ? (r.chance(0.5) ? 0.0 : 0.9999) : r.unit()).set("back", (int)r.n(6));
    else l.set("how", "damage").set("mark", (int64_t)r.n(100000)).set("val", (int64_t)r.n(1000000)).set("way", (int)r.n(6));
    if (r.chance(0.3)) l.set("short", r.range(1, 300));
    p.push_back(l);
    if (r.chance(0.4)) p.push_back(Line("intact"));
  }
  p.push_back(Line("intact"));
}
void c13_run(const Plan &p) {
  model::Model m = the_model(p);
  m.install("/cesim/m/");
  std::string want = pristine([&]() { mem::fill(0, 0); return answers(must_load(m.conf()), p); });
  set_fill(p);
  // a recognizer loaded before the failures stays what it is
  ce_stt_t *wit = nullptr;
  Stream ws;
  std::string wwant;
  if (find(p, "witness")) {
    wit = must_load(m.conf());
    Line a = find(p, "audio") ? *find(p, "audio") : Line("audio");
    ws.start(wit, model::Audio(a));
    ws.feed(6000);
  }
  int64_t refused = 0, accepted = 0, intact = 0;
  bool had_error = false;
  for (size_t i = 0; i < p.size(); ++i) {
    const Line &l = p[i];
    if (l.op == "intact") {
      ce_stt_t *r = load(m.conf());
      if (!r) fail("retry-failed", "intact files do not load after %lld failed attempts: %s", (long long)refused, last_error().c_str());
      std::string got = answers(r, p);
      ev("intact %llx", (unsigned long long)fnv(got));
      if (got != want) fail("retry-differs", "after %lld failed attempts a load of the intact files gives %s instead of %s", (long long)refused, got.c_str(), want.c_str());
      unload(r);
      ++intact;
    }
    if (l.op != "attempt") continue;
    int f = (int)mod(l.i("file"), 8);
    std::string path = m.dir + FILES[f], how = l.s("how");
    if (!io::exists(path)) { count("attempt_on_absent_file"); continue; }
    std::string keep = io::get(path), b = keep;
    int64_t at = (int64_t)(std::max(0.0, std::min(1.0, l.f("at"))) * b.size());
    char what[200];
    snprintf(what, sizeof what, "%s %s", FILES[f], how.c_str());
    bool must_fail = true;
    int64_t before = io::fired();
    if (l.has("edge")) {
      std::vector<int64_t> e = edges(m, f, b);
      at = std::max<int64_t>(0, std::min<int64_t>((int64_t)b.size(), e[mod(l.i("edge"), (int64_t)e.size())] + mod(l.i("off"), 8) - (mod(l.i("off"), 8) == 7 ? 8 : 0)));
    }
    if (how == "open") {
      static const int errs[] = {ENOENT, EACCES, EMFILE, EIO};
      io::add_fault(path, "open", mod(l.i("skip"), 2), 0, errs[mod(l.i("err"), 4)]);
    } else if (how == "eio") {
      io::add_fault(path, "eio", at, mod(l.i("times"), 4), EIO);
      snprintf(what + strlen(what), 40, " at byte %lld of %zu", (long long)at, b.size());
    } else if (how == "missing") {
      io::add_fault(path, "open", 0, 0, ENOENT);
    } else if (how == "cut") {
      int64_t n = std::min<int64_t>(at, (int64_t)b.size() - 1);
      if (l.f("at") >= 0.999) n = std::max<int64_t>(0, (int64_t)b.size() - 1 - mod(l.i("back"), 6));
      if (f == 0 || f == 5) continue;
      b.resize(n);
      io::put(path, b);
      count("fault.file_cut_short");
      snprintf(what + strlen(what), 40, " to %lld of %zu bytes", (long long)n, keep.size());
    } else if (how == "damage") {
      b = damaged(m, f, b, l.i("mark"), l.i("val"), l.i("way"), what);
      if (b == keep) continue;
      io::put(path, b);
    } else {
      continue;
    }
    if (l.i("short") > 0) io::short_reads((int)l.i("short"), i + 1);
    ce_stt_t *r = load(m.conf());
    bool fired = io::fired() > before;
    if (r) {
      ++accepted;
      io::clear_faults();   // the damage was to loading
      std::string got = answers(r, p);
      ev("accepted %s %llx", what, (unsigned long long)fnv(got));
      if (got != want) fail("damaged-accepted", "%s: a recognizer is returned, but it gives %s instead of %s", what, got.c_str(), want.c_str());
      if (how == "cut" || how == "damage") count("damage_without_effect");
      unload(r);
    } else {
      ++refused;
      ev("refused %s", what);
      if (!fired && must_fail && how != "cut" && how != "damage") fail("refused-intact", "%s: no fault was met, but loading fails: %s", what, last_error().c_str());
      if (last_error().empty()) fail("no-message", "%s: loading fails without a message", what);
      had_error = true;
    }
    io::clear_faults();
    io::short_reads(0, 0);
    io::put(path, keep);
  }
  (void)had_error;
  if (wit) {
    ws.feed(9001);
    end(ws.u);
    Result got = result(ws.u);
    close(ws.u);
    unload(wit);
    std::string w = pristine([&]() { mem::fill(0, 0); ce_stt_t *r = must_load(m.conf()); return decode(r, ws.a, {6000, 9001}).str(); });
    if (got.str() != w) fail("bystander", "an utterance open during the failed attempts ends with %s instead of %s", got.str().c_str(), w.c_str());
    count("bystanders");
  }
  count("refused", refused);
  count("accepted_and_identical", accepted);
  count("intact_loads", intact);
  if (refused > 0) nontrivial();
  uint64_t h = 0;
  for (auto &l : p) if (l.op == "attempt") h = mix(h ^ fnv(l.str()));
  state(h);
}
static Reg c13({"C13", c13_gen, c13_run,
  "sequences of load attempts, each with one fault (open failure, read error at any byte once or for good, truncation of a binary file at any byte, damage to a signature or section size), short reads in some, "
  "with loads of the intact files in between and an utterance open across them; non-trivial: at least one refused load"});

// ---------------------------------------------------------------- C14
void c14_gen(Rng &r, Plan &p, const Tier &t) {
  Line m = model::draw(r, r.chance(0.3));
  m.set("lm", r.chance(0.6) ? 1 : 0);
  if (r.chance(0.3)) m.set("words", r.range(60, 200)).set("topo", 0);
  bool large = r.chance(0.2);
  if (large) big(r, m);
  p.push_back(m);
  p.push_back(Line("fill").set("mode", (int)r.n(5)).set("seed", (int64_t)r.n(1000000)));
  draw_audios(r, p, 2, 30);
  int n = r.range(1, t.thorough ? 6 : 4);
  for (int i = 0; i < n; ++i) {
    Line l("load");
    static const int mx[] = {1, 2, 3, 4, 7, 16, 61, 255, 1000, 4095, 5000, 20000, 100000, 1000000};
    l.set("max", large ? mx[7 + r.n(7)] : mx[r.n(13)]).set("seed", (int64_t)r.n(1000000));
    int k = r.chance(0.4) ? r.range(1, 4) : 0;
    p.push_back(l);
    for (int j = 0; j < k; ++j) p.push_back(Line("eintr").set("at", r.unit()).set("times", r.range(1, 3)));
  }
  p.push_back(Line("header").set("bits", (int)(r.n(3) == 0 ? 8 : r.n(2) ? 16 : 32)).set("max", r.range(1, 12)).set("seed", (int64_t)r.n(1000000)));
}
void c14_run(const Plan &p) {
  model::Model m = the_model(p);
  m.install("/cesim/m/");
  std::string want = pristine([&]() { mem::fill(0, 0); return answers(must_load(m.conf()), p); });
  set_fill(p);
  int64_t loads = 0;
  uint64_t h = 0;
  for (size_t i = 0; i < p.size(); ++i) {
    const Line &l = p[i];
    if (l.op == "load") {
      io::clear_faults();
      io::short_reads((int)std::max<int64_t>(1, l.i("max", 1)), l.i("seed"));
      int eintr = 0;
      for (size_t j = i + 1; j < p.size() && p[j].op == "eintr"; ++j) {
        // the I/O layer retries interruptions where streams go through libstdc++ (the decoding graph); stdio reports them
        int64_t at = (int64_t)(p[j].f("at") * io::get(m.dir + "HCLG.fst").size());
        io::add_fault(m.dir + "HCLG.fst", "eintr", at, std::max<int64_t>(1, std::min<int64_t>(5, p[j].i("times", 1))), EINTR);
        ++eintr;
      }
      ce_stt_t *r = load(m.conf());
      io::short_reads(0, 0);
      io::clear_faults();
      if (!r) fail("short-read-refused", "reads of at most %d bytes%s: loading fails: %s", (int)l.i("max", 1), eintr ? " with interruptions" : "", last_error().c_str());
      std::string got = answers(r, p);
      ev("load %llx", (unsigned long long)fnv(got));
      if (got != want) fail("short-read-differs", "loaded with reads of at most %d bytes: %s, loaded whole: %s", (int)l.i("max", 1), got.c_str(), want.c_str());
      unload(r);
      ++loads;
      h = mix(h ^ fnv(l.str()));
    } else if (l.op == "header") {
      int bits = (int)l.i("bits", 16);
      io::put("/cesim/a.wav", model::wav_header(bits, 100) + "payload");
      io::short_reads((int)std::max<int64_t>(1, l.i("max", 1)), l.i("seed"));
      FILE *f = io::open_file("/cesim/a.wav");
      ce_wave_format_t w;
      memset(&w, 0x77, sizeof w);
      ce_wave_format_t *x;
      { mem::Sut s; x = ce_read_pcm_header(f, &w); }
      if (!x || w.num_channels != 1 || w.sample_rate != 16000 || w.bits_per_sample != bits)
        fail("header-short-read", "audio header read in pieces: %s %d %d %d", x ? "format" : last_error().c_str(), w.num_channels, w.sample_rate, w.bits_per_sample);
      char c[8] = {};
      if (fread(c, 1, 7, f) != 7 || strcmp(c, "payload")) fail("header-short-read", "the stream is not at the first audio byte after a header read in pieces");
      fclose(f);
      io::short_reads(0, 0);
    }
  }
  count("loads", loads);
  if (loads > 0 && !want.empty()) nontrivial();
  state(h);
}
static Reg c14({"C14", c14_gen, c14_run,
  "random model loaded several times with reads cut into random pieces of at most 1 to 20000 bytes, with interruptions during the decoding graph in some; transcripts against a load with whole reads; "
  "audio headers read in pieces; non-trivial: at least one such load"});

// ---------------------------------------------------------------- C16
void c16_gen(Rng &r, Plan &p, const Tier &t) {
  p.push_back(Line("fill").set("mode", (int)r.n(5)).set("seed", (int64_t)r.n(1000000)));
  int n = r.range(3, t.thorough ? 40 : 20);
  for (int i = 0; i < n; ++i) {
    Line l("hdr");
    static const int bits[] = {8, 16, 32, 16, 16, 24, 64};
    static const int rates[] = {16000, 16000, 8000, 44100, 22050, 11025};
    int b = bits[r.n(7)], ra = rates[r.n(6)];
    l.set("bits", b).set("rate", ra).set("data", r.chance(0.5) ? (int64_t)r.n(500) : (int64_t)r.n(2000000000)).set("tail", (int)r.n(40));
    double u = r.unit();
    if (u < 0.25) {}
    else if (u < 0.40) l.set("cut", (int)r.n(44));
    else if (u < 0.60) l.set("eio", (int)r.n(48)).set("times", (int)r.n(3));
    else {
      static const char *keys[] = {"riff", "wave", "fmt", "datatag", "sub1", "audiofmt", "brate", "align"};
      l.set(keys[r.n(8)], 1 + (int64_t)r.n(1000000));
    }
    if (r.chance(0.4)) l.set("short", r.range(1, 20));
    if (r.chance(0.15)) l.set("pre", r.range(1, 60));
    p.push_back(l);
  }
}
void c16_run(const Plan &p) {
  set_fill(p);
  int64_t good = 0, bad = 0;
  uint64_t h = 0;
  for (size_t i = 0; i < p.size(); ++i) {
    const Line &l = p[i];
    if (l.op != "hdr") continue;
    int bits = (int)l.i("bits", 16), rate = (int)l.i("rate", 16000);
    int64_t pre = mod(l.i("pre"), 100);
    std::string b = model::wav_header(bits, l.i("data"), 1, rate);
    std::string want_tail;
    bool ok = true;
    auto tag = [&](const char *k, int at) { if (l.has(k)) { int64_t v = l.i(k); b[at + mod(v, 4)] ^= (char)(1 << mod(v / 4, 8)); ok = false; } };
    tag("riff", 0);
    tag("wave", 8);
    tag("fmt", 12);
    tag("datatag", 36);
    auto num = [&](const char *k, int at, int len) { if (l.has(k)) { int32_t v = 0; memcpy(&v, &b[at], len); int32_t n = (int32_t)l.i(k); if (n % 3 == 0) n = v + 1; if (n % 3 == 1) n = v - 1; if ((l.i(k) >> 8) % 2) n = v ^ (int32_t)(1u << (l.i(k) >> 9) % (8 * len)); if (len == 2) n = (int16_t)n; if (n == v) n ^= 4; memcpy(&b[at], &n, len); ok = false; } };
    num("sub1", 16, 4);
    num("audiofmt", 20, 2);
    num("brate", 28, 4);
    num("align", 32, 2);
    std::string tail = "first audio bytes: 0123456789abcdefghijklmnopqrstuvwxyz";
    tail.resize(mod(l.i("tail"), 50));
    std::string file = std::string(pre, 'j') + b + tail;
    if (l.has("cut")) { file.resize(pre + mod(l.i("cut"), 44)); ok = false; count("fault.header_cut_short"); }
    std::string path = "/cesim/h" + std::to_string(i) + ".wav";
    io::put(path, file);
    int64_t eio = -1;
    if (l.has("eio")) {
      eio = pre + mod(l.i("eio"), 60);
      io::add_fault(path, "eio", eio, mod(l.i("times"), 3), EIO);
    }
    if (l.has("short")) io::short_reads((int)std::max<int64_t>(1, l.i("short", 1)), i + 7);
    FILE *f = io::open_file(path);
    setvbuf(f, nullptr, _IONBF, 0);
    if (l.i("tail") % 2) { fclose(f); f = io::open_file(path); }   // with and without stdio buffering
    std::string skip(pre, 0);
    if (pre && fread(&skip[0], 1, pre, f) != (size_t)pre) { fclose(f); io::clear_faults(); io::short_reads(0, 0); continue; }
    int64_t before = io::fired("eio");
    ce_wave_format_t w;
    memset(&w, 0x55, sizeof w);
    ce_wave_format_t *x;
    int handles = io::open_handles();
    { mem::Sut s; x = ce_read_pcm_header(f, &w); }
    bool fired = io::fired("eio") > before;
    char what[200];
    snprintf(what, sizeof what, "header %zu (%s)", i, l.str().c_str());
    if (io::open_handles() != handles) fail("header-closed", "%s: the stream has been closed", what);
    if (x) {
      if (x != &w) fail("header-pointer", "%s: another pointer than the caller's is returned", what);
      if (!ok) fail("bad-header-accepted", "%s: a malformed or cut header is accepted as %d channels %d Hz %d bits", what, w.num_channels, w.sample_rate, w.bits_per_sample);
      if (eio >= 0 && eio < pre + 44) fail("bad-header-accepted", "%s: a read error inside the header is not reported", what);
      if (w.num_channels != 1 || w.sample_rate != rate || w.bits_per_sample != bits)
        fail("header-format", "%s: reported %d channels %d Hz %d bits", what, w.num_channels, w.sample_rate, w.bits_per_sample);
      io::clear_faults();
      clearerr(f);
      long pos = ftell(f);
      if (pos != (long)(pre + 44)) fail("header-position", "%s: the stream is at %ld instead of the first audio byte %ld", what, pos, (long)(pre + 44));
      std::string got(tail.size() + 5, 0);
      size_t k = fread(&got[0], 1, got.size(), f);
      got.resize(k);
      if (eio < 0 && got != tail) fail("header-position", "%s: the bytes after the header are \"%s\" instead of \"%s\"", what, got.c_str(), tail.c_str());
      ++good;
    } else {
      if (last_error().empty()) fail("no-message", "%s: failure without a message", what);
      if (ok && !fired) fail("good-header-refused", "%s: an intact header is refused: %s", what, last_error().c_str());
      ++bad;
    }
    ev("hdr %zu %d", i, x != nullptr);
    fclose(f);
    io::clear_faults();
    io::short_reads(0, 0);
    h = mix(h ^ fnv(l.str()));
  }
  count("headers_accepted", good);
  count("headers_refused", bad);
  if (good + bad > 1) nontrivial();
  state(h);
}
static Reg c16({"C16", c16_gen, c16_run,
  "sequences of audio headers, intact, with any one field or tag damaged, cut at any byte, or with a read error at any byte, whole or short reads, buffered and unbuffered streams, not only at offset zero; "
  "non-trivial: at least two headers"});
}  // namespace
