#include "api.h"
#include "internal.h"
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>

namespace api {
using namespace sim;
ce_stt_t *load(const std::string &conf) { mem::Sut s; return ce_stt_init(conf.c_str()); }
ce_stt_t *must_load(const std::string &conf) {
  ce_stt_t *r = load(conf);
  if (!r) fail("load-failed", "an intact model does not load: %s", ce_stt_last_error());
  return r;
}
void unload(ce_stt_t *r) { mem::Sut s; ce_stt_destroy(r); }
ce_utt_t *open(ce_stt_t *r, int bits, int ch, int rate) {
  ce_wave_format_t *f = (ce_wave_format_t *)malloc(sizeof(ce_wave_format_t));
  *f = fmt(bits, ch, rate);
  ce_utt_t *u;
  try {
    mem::Sut s;
    u = ce_utt_init(r, f);
  } catch (...) {
    free(f);
    throw;
  }
  memset(f, 0x5a, sizeof *f);
  free(f);
  return u;
}
ce_utt_t *must_open(ce_stt_t *r, int bits) {
  ce_utt_t *u = open(r, bits);
  if (!u) fail("open-failed", "an utterance with a supported format is refused: %s", ce_stt_last_error());
  return u;
}
void close(ce_utt_t *u) { mem::Sut s; ce_utt_destroy(u); }
int32_t feed_raw(ce_utt_t *u, const char *p, int32_t n) { mem::Sut s; return ce_stt_process(u, p, n); }
int32_t feed(ce_utt_t *u, const std::string &b) {
  char *p = (char *)malloc(b.size() ? b.size() : 1);
  memcpy(p, b.data(), b.size());
  int32_t k;
  try {
    k = feed_raw(u, p, (int32_t)b.size());
  } catch (...) {
    memset(p, 0x5a, b.size());
    free(p);
    throw;
  }
  memset(p, 0x5a, b.size());
  free(p);
  return k;
}
void end(ce_utt_t *u) { mem::Sut s; ce_stt_end_of_stream(u); }
Result result(ce_utt_t *u) {
  Result r;
  if (!u->hyp) fail("no-transcript", "the transcript pointer is NULL");
  r.hyp = u->hyp;
  memcpy(&r.score, &u->loglikelihood_per_frame, 4);
  return r;
}
std::string last_error() { const char *e = ce_stt_last_error(); return e ? e : ""; }

Result decode(ce_stt_t *r, const model::Audio &a, const std::vector<int64_t> &slices) {
  Stream s;
  s.start(r, a);
  for (int64_t n : slices) if (n > 0) s.feed(n);
  end(s.u);
  Result x = result(s.u);
  close(s.u);
  return x;
}
Result decode1(ce_stt_t *r, const model::Audio &a, int64_t bytes) { return decode(r, a, {bytes}); }

Line draw_audio(Rng &r) {
  Line l("audio");
  static const int bits[] = {16, 16, 16, 8, 32};
  l.set("seed", (int64_t)r.n(1000000000)).set("bits", bits[r.n(5)]).set("kind", (int)r.n(2));
  return l;
}
int64_t draw_total(Rng &r, int bits, int maxframes) {
  int b = bits / 8;
  int64_t f;
  double u = r.unit();
  if (u < 0.08) f = r.n(3);
  else if (u < 0.3) f = r.n(24);
  else f = r.n(maxframes + 1);
  int64_t s = f == 0 ? (int64_t)r.n(400) : 400 + 160 * (f - 1) + (r.chance(0.2) ? 0 : r.chance(0.2) ? 159 : (int64_t)r.n(160));
  int64_t t = s * b + (r.chance(0.3) ? (int64_t)r.n(b) : 0);
  return t < 1 ? 1 : t;
}
void draw_slices(Rng &r, Plan &p, int64_t total, int bits, int maxcalls, const char *op) {
  int b = bits / 8;
  int64_t left = total;
  int mode = (int)r.n(6);
  auto add = [&](int64_t n, int64_t rep = 1) {
    Line l(op);
    l.set("n", n);
    if (rep > 1) l.set("rep", rep);
    p.push_back(l);
    left -= n * rep;
  };
  if (mode == 0) { add(left); return; }
  if (mode == 1) {  // equal slices
    static const int64_t sizes[] = {1, 2, 3, 5, 7, 160, 161, 320, 319, 321, 640, 800, 801, 1023, 1024, 1280, 3200, 6400, 6401, 32000};
    int64_t n = sizes[r.n(20)];
    while (total / n > 1500) n *= 3;
    if (n > left) n = left;
    int64_t rep = left / n;
    if (rep > 0) add(n, rep);
    if (left > 0) add(left);
    return;
  }
  for (int i = 0; left > 0; ++i) {
    int64_t n;
    if (i >= maxcalls) n = left;
    else if (mode == 2) n = 1 + r.n(left);
    else if (mode == 3) n = 1 + r.n(std::max<int64_t>(1, 2 * total / maxcalls));
    else {
      switch (r.n(7)) {
        case 0: n = 1 + r.n(3); break;
        case 1: n = 160 * b * (1 + r.n(3)) + (int64_t)r.n(3) - 1; break;
        case 2: n = 400 * b + (int64_t)r.n(3) - 1; break;
        case 3: n = 3200 * b + (int64_t)r.n(5) - 2; break;
        case 4: n = b * (1 + r.n(60)); break;
        case 5: n = 1 + r.n(800); break;
        default: n = 1 + r.n(6000);
      }
      if (mode == 5 && r.chance(0.2)) { int64_t k = 1 + r.n(40); int64_t m = 1 + r.n(30); if (k * m <= left) { add(m, k); continue; } }
    }
    if (n > left) n = left;
    if (n < 1) n = 1;
    add(n);
  }
}
}  // namespace api

