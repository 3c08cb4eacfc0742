// Generated recognisers (model files) and the independent reference: features, network, search.
#pragma once
#include "sim.h"
#include <math.h>

namespace model {
using sim::Line;
using sim::Rng;
static const double INF = INFINITY;

struct Arc { int il, ol; float w; int next; };
struct Hclg { int start = 0; std::vector<float> fin; std::vector<std::vector<Arc>> arcs; };
struct LmArc { int next, il; float w; };
struct Lm { int start = 0; std::vector<float> fin; std::vector<std::vector<LmArc>> arcs; };
struct Layer {
  int type;
  int rows = 0, cols = 0;               // linear: rows=in, cols=out
  std::vector<float> W, b;              // linear W row-major, b; batch-norm: W=scale, b=offset
  std::vector<int> idx;                 // splice
  int left = 0, right = 0;              // narrow
};
struct Model {
  int L = 0, R = 0, chunk = 1, P = 4, T = 8;
  std::vector<std::string> words;       // id -> text
  int bos = 0, eos = 0;
  std::vector<int> tid2pdf;
  std::vector<float> prior;
  std::vector<Layer> layers;
  Hclg g;
  bool has_lm = false;
  Lm lm;
  std::vector<float> small_lm;
  // state numbers in the files (empty: as here); the states in between have no arcs
  std::vector<int> gmap, lmap;
  int gtotal = 0, ltotal = 0;
  int gs(int i) const { return gmap.empty() || i >= (int)gmap.size() ? i : gmap[i]; }
  int ls(int i) const { return lmap.empty() || i >= (int)lmap.size() ? i : lmap[i]; }
  std::string dir;                      // where installed
  std::string conf_text() const;
  std::string hclg_bytes() const, nnet_bytes() const, prior_bytes() const, tid_bytes() const, words_text() const, lm_bytes() const, small_bytes() const;
  void install(const std::string &dir); // puts the files behind the I/O seam
  std::string conf() const { return dir + "model.conf"; }
};
// Draws a `model` plan line, and builds the model a line describes (total: any field may be missing)
Line draw(Rng &r, bool small = false);
Model make(const Line &l);
void align(Model &m, int bits, bool graph);        // numbers that are multiples of 2^bits
void spread(Model &m, int extra, uint64_t seed);   // gives the states large numbers in the files

std::string vec_bytes(const std::vector<float> &v);
std::string ivec_bytes(const std::vector<int> &v);

// ------------------------------------------------------------- audio
struct Audio {
  uint64_t seed = 1;
  int bits = 16;
  int kind = 0;
  Audio() {}
  explicit Audio(const Line &l);
  int bps() const { return bits / 8; }
  int64_t sample(int64_t i) const;
  std::string bytes(int64_t from, int64_t n) const;
  std::vector<float> samples(int64_t n) const;
};
std::string wav_header(int bits, int64_t data_bytes, int channels = 1, int rate = 16000);
inline int64_t frames_of(int64_t samples) { return samples < 400 ? 0 : 1 + (samples - 400) / 160; }

// ------------------------------------------------------------- reference
typedef std::vector<std::vector<double>> Mat;
Mat features(const std::vector<float> &samples);
Mat scores(const Model &m, const Mat &feats);   // one row per frame: network minus log prior

struct Best {
  bool found = false;
  double cost = INF;
  std::vector<int> words;
  bool beam_safe = false;      // the optimum never comes near the beam
  double min_margin = INF;
};
// The exhaustive search over a growing number of rows: best(n) looks at rows [0, n) only
struct Search;
class Lattice {
 public:
  Lattice(const Model &m, const Mat &rows);
  ~Lattice();
  Best best(int n, bool fin, double margin = 0.5);
 private:
  struct Pred { int from; int arc; bool emit; };
  void closure(int t);
  void advance(int t);
  const Model &m_;
  const Mat &rows_;
  Search *s_;
  int N_;
  std::vector<std::vector<double>> c;
  std::vector<std::vector<Pred>> p;
  std::vector<double> B, M;
};
// Minimum-cost path over rows [0, n); final costs included when `fin`.
Best viterbi(const Model &m, const Mat &rows, int n, bool fin, double margin = 0.5);
// Minimum cost of a path over rows [0,n) whose word sequence is exactly `words` (INF: none).
double forced(const Model &m, const Mat &rows, int n, bool fin, const std::vector<int> &words);
// Word ids of a transcript; false when some token is not a word
bool parse(const Model &m, const std::string &hyp, std::vector<int> *ids);
std::string text(const Model &m, const std::vector<int> &ids);
// decoded frames after `frames` frames have been extracted, before the end of the stream
int64_t decoded(const Model &m, int64_t frames);
// language-model lookups (uncached definition)
bool lm_get(const Model &m, int state, int word, int *next, double *w);
double lm_final(const Model &m, int state);
int lm_start(const Model &m);
}  // namespace model
