// The public C interface of the recogniser, driven inside the simulator.
#pragma once
#include "sim.h"
#include "model.h"
#include "ce_stt.h"
#include <stdlib.h>
#include <new>

namespace api {
struct Result {
  std::string hyp;
  uint32_t score = 0;
  bool operator==(const Result &o) const { return hyp == o.hyp && score == o.score; }
  bool operator!=(const Result &o) const { return !(*this == o); }
  double value() const { float f; memcpy(&f, &score, 4); return f; }
  std::string str() const { char b[64]; snprintf(b, sizeof b, " @%.9g", value()); return "\"" + hyp + "\"" + b; }
};
ce_stt_t *load(const std::string &conf);             // NULL on failure
ce_stt_t *must_load(const std::string &conf);        // fails the run
void unload(ce_stt_t *r);
ce_utt_t *open(ce_stt_t *r, int bits, int channels = 1, int rate = 16000);
ce_utt_t *must_open(ce_stt_t *r, int bits);
void close(ce_utt_t *u);
int32_t feed(ce_utt_t *u, const std::string &bytes); // the buffer is exactly sized and gone afterwards
int32_t feed_raw(ce_utt_t *u, const char *p, int32_t n);
void end(ce_utt_t *u);
Result result(ce_utt_t *u);
std::string last_error();
inline ce_wave_format_t fmt(int bits, int ch = 1, int rate = 16000) { ce_wave_format_t f; f.num_channels = ch; f.sample_rate = rate; f.bits_per_sample = bits; return f; }

// one stream: an utterance and where it is in its audio
struct Stream {
  model::Audio a;
  ce_utt_t *u = nullptr;
  int64_t fed = 0;
  int64_t counted = 0;
  void start(ce_stt_t *r, const model::Audio &au) { a = au; u = must_open(r, a.bits); }
  int32_t feed(int64_t n) { std::string b = a.bytes(fed, n); fed += n; int32_t k = api::feed(u, b); if (k > 0) counted += k; return k; }
  int64_t frames() const { return model::frames_of(fed / a.bps()); }
};
// Whole decode: slices, then the end of the stream
Result decode(ce_stt_t *r, const model::Audio &a, const std::vector<int64_t> &slices);
Result decode1(ce_stt_t *r, const model::Audio &a, int64_t bytes);

// generators shared by the drivers
sim::Line draw_audio(sim::Rng &r);
int64_t draw_total(sim::Rng &r, int bits, int maxframes);
void draw_slices(sim::Rng &r, sim::Plan &p, int64_t total, int bits, int maxcalls, const char *op = "feed");
}  // namespace api

