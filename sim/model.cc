#include "model.h"
#include <float.h>
#include <string.h>
#include <algorithm>
#include <complex>
#include <set>
#include <map>

namespace model {
using sim::mix;

// ------------------------------------------------------------- generation
Line draw(Rng &r, bool small) {
  Line l("model");
  l.set("seed", (int64_t)r.n(1000000000));
  static const int Ls[] = {0, 0, 1, 2, 3, 5, 7}, Rs[] = {0, 0, 1, 2, 3, 4, 6};
  l.set("L", Ls[r.n(7)]).set("R", Rs[r.n(7)]);
  static const int Cs[] = {1, 2, 3, 5, 7, 8, 10, 16, 20, 25, 50};
  l.set("chunk", Cs[r.n(11)]);
  l.set("pdfs", r.range(3, small ? 8 : 24));
  l.set("words", r.range(2, small ? 6 : 20));
  l.set("topo", r.chance(0.06) ? 5 : (int)r.n(4));
  l.set("lm", (int)r.n(2));
  l.set("deep", (int)r.n(4));
  static const double amps[] = {0.5, 1, 2, 4, 8};
  l.set("amp", amps[r.n(5)]);
  l.set("gw", r.chance(0.3) ? 0.2 : r.chance(0.5) ? 1.0 : 3.0);
  if (r.chance(0.05)) l.set("topo", 6);
  if (r.chance(0.2)) l.set("ctx", r.range(9, 20));
  return l;
}

static float q(double v) { return (float)v; }

Model make(const Line &l) {
  Model m;
  Rng r(l.i("seed", 1) * 2654435761ull + 17);
  auto clampi = [](int64_t v, int lo, int hi) { return (int)std::max<int64_t>(lo, std::min<int64_t>(hi, v)); };
  m.L = clampi(l.i("L", 1), 0, 20);
  m.R = clampi(l.i("R", 1), 0, 20);
  m.chunk = clampi(l.i("chunk", 5), 1, 200);
  m.P = clampi(l.i("pdfs", 6), 2, 64);
  int W = clampi(l.i("words", 4), 1, 200);
  int topo = clampi(l.i("topo", 0), 0, 6);
  bool lm = l.i("lm", 0) != 0;
  int deep = clampi(l.i("deep", 0), 0, 3);
  double amp = std::min(40.0, std::max(0.01, l.f("amp", 1)));
  double gw = l.f("gw", 1);

  // words; ids are a permutation so that <s>, </s> are not always last
  int wb = clampi(l.i("wbase", 0), 0, 80000);   // unused words in front
  int ws = clampi(l.i("wstep", 1), 1, 512);   // word numbers at this distance (at which a cache's buckets collide)
  int nw = (W + 2) * ws + 1 + wb;
  m.words.assign(nw, "");
  m.words[0] = "<eps>";
  for (int i = 1; i < nw; ++i) m.words[i] = "_" + std::to_string(i);
  std::vector<int> ids;
  for (int i = 1; i < W + 3; ++i) ids.push_back(wb + i * ws);
  for (size_t i = ids.size() - 1; i > 0; --i) std::swap(ids[i], ids[r.n(i + 1)]);
  m.bos = ids[0];
  m.eos = ids[1];
  m.words[m.bos] = "<s>";
  m.words[m.eos] = "</s>";
  std::vector<int> real(ids.begin() + 2, ids.end());
  std::sort(real.begin(), real.end());
  int k = 0;
  for (int id : real) {
    static const char *pre[] = {"w", "word-", "\xe4\xbd\xa0", "A", "x'"};
    m.words[id] = pre[k % 5] + std::to_string(k);
    // words of any length, with those at which a string's storage grows among them
    uint64_t h = mix((uint64_t)l.i("seed", 1) * 31 + k);
    static const size_t at[] = {15, 30, 14, 16, 31, 22};
    size_t want = h % 3 ? 0 : (h >> 8) % 2 ? at[(h >> 16) % 6] : 1 + (h >> 16) % 40;
    if (l.i("wl") > 0) want = clampi(l.i("wl"), 1, 200);
    while (m.words[id].size() < want) m.words[id] += (char)('a' + (m.words[id].size() * 7 + k) % 26);
    ++k;
  }

  // transition ids and priors
  m.T = m.P * 2;
  m.tid2pdf.assign(m.T + 1, 0);
  for (int i = 1; i <= m.T; ++i) m.tid2pdf[i] = i <= m.P ? i - 1 : (int)r.n(m.P);
  double z = 0;
  m.prior.resize(m.P);
  for (auto &p : m.prior) { p = q(0.05 + r.unit()); z += p; }
  for (auto &p : m.prior) p = q(p / z);

  // network
  auto bn = [&](int dim, double s, double o, double js, double jo) {
    Layer y;
    y.type = 7;
    for (int i = 0; i < dim; ++i) { y.W.push_back(q(s + js * r.gauss())); y.b.push_back(q(o + jo * r.gauss())); }
    m.layers.push_back(y);
  };
  auto lin = [&](int in, int out, double s) {
    Layer y;
    y.type = 0;
    y.rows = in;
    y.cols = out;
    for (int i = 0; i < in * out; ++i) y.W.push_back(q(s * r.gauss()));
    for (int i = 0; i < out; ++i) y.b.push_back(q(0.3 * r.gauss()));
    m.layers.push_back(y);
  };
  auto simple = [&](int ty) { Layer y; y.type = ty; m.layers.push_back(y); };
  auto narrow = [&](int a, int b) { Layer y; y.type = 9; y.left = a; y.right = b; m.layers.push_back(y); };
  int dim = 40, usedL = 0, usedR = 0;
  auto splice = [&](int maxl, int maxr) {
    Layer y;
    y.type = 6;
    std::set<int> s;
    s.insert(0);
    s.insert(-maxl);
    s.insert(maxr);
    if (maxl + maxr > 1 && r.chance(0.5)) s.insert(-maxl + (int)r.n(maxl + maxr + 1));
    for (int i : s) y.idx.push_back(i);
    dim *= (int)y.idx.size();
    m.layers.push_back(y);
    usedL += maxl;
    usedR += maxr;
  };
  bn(40, 0.15, -0.6, 0.02, 0.1);
  int wide = clampi(l.i("wide", 0), 0, 6000), pad = clampi(l.i("pad", 0), 0, 12000);
  if (deep == 0) {
    splice(m.L, m.R);
    if (wide > 0) { lin(dim, wide, 1.5 / sqrt((double)dim)); dim = wide; simple(1); }
    lin(dim, m.P, amp / sqrt((double)dim) * 1.5);
    narrow(m.L, m.R);
    simple(8);
  } else {
    int l1 = m.L / 2, r1 = m.R / 2;
    int h = 12;
    splice(l1, r1);
    lin(dim, h, 1.5 / sqrt((double)dim));
    dim = h;
    simple(1);
    if (deep >= 2) { bn(dim, 1.0, 0.2, 0.1, 0.2); simple(2); }
    splice(m.L - l1, m.R - r1);
    lin(dim, h, 1.2 / sqrt((double)dim));
    dim = h;
    simple(1);
    if (deep == 3) { narrow(m.L, m.R); bn(dim, 1.0, 0.0, 0.05, 0.1); }
    lin(dim, m.P, amp / sqrt((double)dim) * 2.0);
    if (deep != 3) narrow(m.L, m.R);
    simple(8);
  }

  // decoding graph
  Hclg &g = m.g;
  auto st = [&]() { g.arcs.push_back({}); g.fin.push_back(INFINITY); return (int)g.fin.size() - 1; };
  auto wt = [&](double s) { return q(s * r.unit()); };
  auto tid = [&]() { return 1 + (int)r.n(m.T); };
  if (topo == 0 || topo == 1 || topo == 4) {
    // word loop: hub -> phone chain with self loops -> hub
    int hub = st();
    g.start = hub;
    if (topo == 1) {  // separate start state with leading epsilons
      int s = st();
      g.start = s;
      g.arcs[s].push_back({0, 0, wt(0.5 * gw), hub});
      if (r.chance(0.5)) { int s2 = st(); g.arcs[s].push_back({0, 0, wt(gw), s2}); g.arcs[s2].push_back({0, 0, wt(gw), hub}); }
    }
    // silence
    int sil = st();
    int t = tid();
    g.arcs[hub].push_back({t, 0, wt(gw), sil});
    g.arcs[sil].push_back({t, 0, wt(0.3), sil});
    g.arcs[sil].push_back({0, 0, wt(0.5), hub});
    for (int w : real) {
      int n = r.range(1, 4);
      int place = (int)r.n(4);  // where the word label sits: first, last, or on the epsilon back
      int cur = hub;
      for (int i = 0; i < n; ++i) {
        int nx = st();
        int tt = tid();
        int ol = (place == 0 && i == 0) || (place == 1 && i == n - 1) ? w : 0;
        g.arcs[cur].push_back({tt, ol, wt(i == 0 ? 2 * gw : 0.4), nx});
        g.arcs[nx].push_back({tt, 0, wt(0.3), nx});
        cur = nx;
      }
      if (place <= 1) {
        if (r.chance(0.6)) g.arcs[cur].push_back({0, 0, wt(0.4), hub});
        else g.arcs[cur].push_back({tid(), 0, wt(0.4), hub});
      } else if (place == 2) {
        g.arcs[cur].push_back({0, w, wt(0.5), hub});
      } else {
        int e = st();
        g.arcs[cur].push_back({0, w, wt(0.5), e});
        g.arcs[e].push_back({0, 0, wt(0.3), hub});
      }
      if (r.chance(0.2)) g.fin[cur] = wt(2);
    }
    if (topo != 4) g.fin[hub] = r.chance(0.5) ? 0.0f : wt(2);
    if (r.chance(0.3)) g.fin[sil] = wt(2);
    if (topo == 4) { g.fin.assign(g.fin.size(), INFINITY); g.fin[sil] = wt(1); }
  } else if (topo == 6) {
    // a few words first, then a state without words for good
    int n = r.range(1, 3), rest = st();
    int t = tid(), t2 = tid();
    g.arcs[rest].push_back({t, 0, wt(0.3), rest});
    if (r.chance(0.5)) g.arcs[rest].push_back({t2, 0, wt(0.3), rest});
    g.fin[rest] = r.chance(0.7) ? 0.0f : wt(2);
    int cur = st();
    g.start = cur;
    for (int i = 0; i < n; ++i) {
      int nx = i + 1 < n ? st() : rest;
      for (int w : real) {
        int x = st();
        bool first = r.chance(0.5);
        g.arcs[cur].push_back({tid(), first ? w : 0, wt(2 * gw), x});
        if (r.chance(0.5)) g.arcs[x].push_back({tid(), first ? 0 : w, wt(0.5), nx});
        else g.arcs[x].push_back({0, first ? 0 : w, wt(0.5), nx});
      }
      cur = nx;
    }
  } else {
    // random graph: epsilons only go to higher-numbered states
    int n = r.range(4, 6 + W);
    for (int i = 0; i < n; ++i) st();
    g.start = topo == 3 ? (int)r.n(n) : 0;
    for (int s = 0; s < n; ++s) {
      int na = r.range(1, 4);
      for (int a = 0; a < na; ++a) {
        bool eps = r.chance(0.25) && s + 1 < n;
        int nx = eps ? topo == 5 ? (int)r.n(n) : s + 1 + (int)r.n(n - s - 1) : (int)r.n(n);
        int ol = r.chance(0.4) ? real[r.n(real.size())] : 0;
        if (topo == 5 && eps) ol = 0;   // cycles of epsilon arcs, without words on them
        // free ones too: the search must end on a cycle that costs nothing
        bool gratis = topo == 5 && eps && r.chance(0.4);
        g.arcs[s].push_back({eps ? 0 : tid(), ol, gratis ? 0.0f : wt(gw), nx});
      }
      if (r.chance(0.8)) { int t = tid(); g.arcs[s].push_back({t, 0, wt(0.3), s}); }
      if (r.chance(0.35)) g.fin[s] = wt(2);
    }
  }

  if (l.i("rare")) {  // a single state ends sentences: the end of the stream may pick a hypothesis far from the best one
    g.fin.assign(g.fin.size(), INFINITY);
    g.fin[r.n(g.fin.size())] = wt(2);
  }
  // language models
  m.has_lm = lm;
  m.small_lm.assign(nw, 0);
  for (auto &x : m.small_lm) x = q(0.5 + 3 * r.unit());
  int pad0 = (int)m.words.size();
  for (int i = 0; i < pad; ++i) {
    m.small_lm.push_back(q(r.unit()));
    m.words.push_back("pad" + std::to_string(i));
    int x = st();
    m.g.arcs[x].push_back({tid(), 0, wt(1), x});
    if (i % 2) m.tid2pdf.push_back((int)r.n(m.P));
  }
  // very many words side by side: more hypotheses than one block of a pool or a table holds, or than the beam keeps
  int fan = clampi(l.i("fan", 0), 0, 80000);
  std::vector<int> fans;
  for (int i = 0; i < fan; ++i) {
    int id = (int)m.words.size();
    m.words.push_back("f" + std::to_string(i));
    m.small_lm.push_back(q(0.5 + 3 * r.unit()));
    fans.push_back(id);
    int x = st(), t = tid(), from = i % 7 == 6 ? x - 1 - (int)r.n(std::min(i, 6)) : g.start;
    bool late = i % 3 == 0;
    g.arcs[from].push_back({tid(), late ? 0 : id, wt(2 * gw), x});
    g.arcs[x].push_back({t, 0, wt(0.3), x});
    if (i % 2) g.arcs[x].push_back({0, late ? id : 0, wt(0.5), g.start});
    else g.arcs[x].push_back({tid(), late ? id : 0, wt(0.5), g.start});
    if (i % 11 == 0) g.fin[x] = wt(2);
  }
  if (lm) {
    Lm &L = m.lm;
    // 0: unigram state, 1: context of <s>, 2: final, then bigram contexts
    int cap = std::min(W, l.i("ctx") > 0 ? clampi(l.i("ctx"), 1, 200) : 8), nctx = r.range(cap > 60 ? cap / 2 + 30 : 0, cap);
    int n = 3 + nctx;
    L.arcs.resize(n);
    L.fin.assign(n, INFINITY);
    L.start = 0;
    std::map<int, int> ctx;
    for (int i = 0; i < nctx; ++i) ctx[real[r.n(real.size())]] = 3 + i;
    auto target = [&](int w) { auto it = ctx.find(w); return it == ctx.end() ? 0 : it->second; };
    for (int w : real) L.arcs[0].push_back({target(w), w, q(0.5 + 4 * r.unit())});
    L.arcs[0].push_back({1, m.bos, r.chance(0.5) ? 0.0f : q(r.unit())});
    L.arcs[0].push_back({2, m.eos, q(0.5 + 3 * r.unit())});
    L.fin[2] = r.chance(0.5) ? 0.0f : q(r.unit());
    for (int s = 1; s < n; ++s) {
      if (s == 2) continue;
      L.arcs[s].push_back({s > 3 && r.chance(0.3) ? 3 + (int)r.n(s - 3) : 0, 0, q(0.2 + r.unit())});  // back-off
      for (int w : real) if (r.chance(0.35)) L.arcs[s].push_back({target(w), w, q(0.2 + 3 * r.unit())});
      if (r.chance(0.4)) L.arcs[s].push_back({2, m.eos, q(0.5 + 2 * r.unit())});
    }
    for (int id : fans) L.arcs[0].push_back({0, id, q(0.5 + 4 * r.unit())});
    for (int i = 0; i < pad; ++i) {  // many words and contexts that the graph never reaches
      L.arcs[0].push_back({i % 3 ? 0 : n + i / 3, pad0 + i, q(1 + r.unit())});
      if (i % 3 == 0) { L.arcs.push_back({{0, 0, q(0.2 + r.unit())}, {0, pad0 + i, q(0.5 + r.unit())}}); L.fin.push_back(INFINITY); }
    }
    for (auto &a : L.arcs) std::sort(a.begin(), a.end(), [](const LmArc &x, const LmArc &y) { return x.il < y.il; });
  }
  spread(m, clampi(l.i("spread", 0), 0, 300000), (uint64_t)l.i("seed", 1));
  if (l.i("align") > 0) align(m, clampi(l.i("align"), 4, 20), false);
  if (l.i("align") < 0) align(m, clampi(-l.i("align"), 4, 20), true);
  return m;
}
void align(Model &m, int bits, bool graph) {
  if (!graph && !m.has_lm) return;
  int n = (int)(graph ? m.g.fin.size() : m.lm.fin.size()), per = std::max(2, 1300000 >> bits);
  std::vector<int> &v = graph ? m.gmap : m.lmap;
  int &total = graph ? m.gtotal : m.ltotal;
  v.resize(n);
  total = 0;
  for (int i = 0; i < n; ++i) {
    v[i] = ((i % per) << bits) + i / per;
    total = std::max(total, v[i] + 1);
  }
}
void spread(Model &m, int extra, uint64_t seed) {
  if (extra <= 0) return;
  Rng r(seed * 31 + 5);
  auto map = [&](size_t n, std::vector<int> *v, int *total) {
    *total = (int)n + extra;
    v->resize(n);
    for (auto &x : *v) x = (int)r.n(extra + 1);
    std::sort(v->begin(), v->end());
    for (size_t i = 0; i < n; ++i) (*v)[i] += (int)i;
    if (r.chance(0.5)) for (size_t i = n; i-- > 1;) std::swap((*v)[i], (*v)[r.n(i + 1)]);
  };
  map(m.g.fin.size(), &m.gmap, &m.gtotal);
  if (m.has_lm) map(m.lm.fin.size(), &m.lmap, &m.ltotal);
}

// ------------------------------------------------------------- files
template <class T> static void put(std::string &s, T v) { s.append((const char *)&v, sizeof v); }

std::string vec_bytes(const std::vector<float> &v) {
  std::string s = "VEC0";
  put<int32_t>(s, (int32_t)v.size() * 4 + 4);
  put<int32_t>(s, (int32_t)v.size());
  s.append((const char *)v.data(), v.size() * 4);
  return s;
}
std::string ivec_bytes(const std::vector<int> &v) {
  std::string s = "VEC0";
  put<int32_t>(s, (int32_t)v.size() * 4 + 4);
  put<int32_t>(s, (int32_t)v.size());
  for (int x : v) put<int32_t>(s, x);
  return s;
}
std::string Model::nnet_bytes() const {
  std::string s = "NN02";
  put<int32_t>(s, L);
  put<int32_t>(s, R);
  put<int32_t>(s, (int32_t)layers.size());
  for (auto &y : layers) {
    s += "LAY0";
    put<int32_t>(s, y.type);
    if (y.type == 0) {
      s += "MAT0";
      put<int32_t>(s, 8);
      put<int32_t>(s, y.rows);
      put<int32_t>(s, y.cols);
      for (int i = 0; i < y.rows; ++i) s += vec_bytes(std::vector<float>(y.W.begin() + i * y.cols, y.W.begin() + (i + 1) * y.cols));
      s += vec_bytes(y.b);
    } else if (y.type == 7) {
      s += vec_bytes(y.W);
      s += vec_bytes(y.b);
    } else if (y.type == 6) {
      put<int32_t>(s, (int32_t)y.idx.size());
      for (int i : y.idx) put<int32_t>(s, i);
    } else if (y.type == 9) {
      put<int32_t>(s, y.left);
      put<int32_t>(s, y.right);
    }
  }
  return s;
}
std::string Model::prior_bytes() const { return vec_bytes(prior); }
std::string Model::tid_bytes() const { return ivec_bytes(tid2pdf); }
std::string Model::small_bytes() const { return vec_bytes(small_lm); }
std::string Model::words_text() const {
  std::string s;
  for (size_t i = 0; i < words.size(); ++i) s += words[i] + " " + std::to_string(i) + "\n";
  return s;
}
std::string Model::lm_bytes() const {
  if (!lmap.empty()) {
    Model x;
    x.lm.fin.assign(ltotal, INFINITY);
    x.lm.arcs.resize(ltotal);
    x.lm.start = ls(lm.start);
    for (size_t i = 0; i < lm.fin.size(); ++i) {
      x.lm.fin[ls((int)i)] = lm.fin[i];
      for (auto a : lm.arcs[i]) { a.next = ls(a.next); x.lm.arcs[ls((int)i)].push_back(a); }
    }
    return x.lm_bytes();
  }
  std::string s("pk::fst_0");
  s.resize(32, '\0');
  int ns = (int)lm.fin.size(), na = 0;
  for (auto &a : lm.arcs) na += (int)a.size();
  put<int32_t>(s, 12 + ns * 8 + na * 16);
  put<int32_t>(s, ns);
  put<int32_t>(s, na);
  put<int32_t>(s, lm.start);
  for (float f : lm.fin) put<float>(s, f);
  int at = 0;
  for (auto &a : lm.arcs) { put<int32_t>(s, a.empty() ? -1 : at); at += (int)a.size(); }
  for (auto &v : lm.arcs)
    for (auto &a : v) { put<int32_t>(s, a.next); put<int32_t>(s, a.il); put<int32_t>(s, a.il); put<float>(s, a.w); }
  return s;
}
std::string Model::hclg_bytes() const {
  if (!gmap.empty()) {
    Model x;
    x.g.fin.assign(gtotal, INFINITY);
    x.g.arcs.resize(gtotal);
    x.g.start = gs(g.start);
    for (size_t i = 0; i < g.fin.size(); ++i) {
      x.g.fin[gs((int)i)] = g.fin[i];
      for (auto a : g.arcs[i]) { a.next = gs(a.next); x.g.arcs[gs((int)i)].push_back(a); }
    }
    return x.hclg_bytes();
  }
  std::string s;
  put<int32_t>(s, 2125659606);
  put<int32_t>(s, 5);
  s += "const";
  put<int32_t>(s, 8);
  s += "standard";
  put<int32_t>(s, 2);
  put<int32_t>(s, 0);
  put<uint64_t>(s, 1);  // kExpanded
  put<int64_t>(s, g.start);
  put<int64_t>(s, (int64_t)g.fin.size());
  int64_t na = 0;
  for (auto &a : g.arcs) na += (int64_t)a.size();
  put<int64_t>(s, na);
  uint32_t pos = 0;
  for (size_t i = 0; i < g.fin.size(); ++i) {
    uint32_t ni = 0, no = 0;
    for (auto &a : g.arcs[i]) { ni += a.il == 0; no += a.ol == 0; }
    put<float>(s, g.fin[i]);
    put<uint32_t>(s, pos);
    put<uint32_t>(s, (uint32_t)g.arcs[i].size());
    put<uint32_t>(s, ni);
    put<uint32_t>(s, no);
    pos += (uint32_t)g.arcs[i].size();
  }
  for (auto &v : g.arcs)
    for (auto &a : v) { put<int32_t>(s, a.il); put<int32_t>(s, a.ol); put<float>(s, a.w); put<int32_t>(s, a.next); }
  return s;
}
std::string Model::conf_text() const {
  std::string s = "# generated model\n";
  s += "fst = HCLG.fst\nnnet = nnet.bin\nprior=prior.bin\n";
  s += "left_context = " + std::to_string(L) + "\n";
  s += "right_context = " + std::to_string(R) + "\n";
  s += "chunk_size = " + std::to_string(chunk) + "\n";
  s += "num_pdfs = " + std::to_string(P) + "\n";
  s += "tid2pdf = tid2pdf.bin\nsymbol_table = words.txt\n";
  if (has_lm) s += "large_lm = lm.bin\noriginal_lm = small.bin\n";
  return s;
}
void Model::install(const std::string &d) {
  dir = d;
  sim::io::put(d + "model.conf", conf_text());
  sim::io::put(d + "HCLG.fst", hclg_bytes());
  sim::io::put(d + "nnet.bin", nnet_bytes());
  sim::io::put(d + "prior.bin", prior_bytes());
  sim::io::put(d + "tid2pdf.bin", tid_bytes());
  sim::io::put(d + "words.txt", words_text());
  if (has_lm) {
    sim::io::put(d + "lm.bin", lm_bytes());
    sim::io::put(d + "small.bin", small_bytes());
  }
}

// ------------------------------------------------------------- audio
Audio::Audio(const Line &l) {
  seed = (uint64_t)l.i("seed", 1);
  bits = (int)l.i("bits", 16);
  if (bits != 8 && bits != 32) bits = 16;
  kind = (int)l.i("kind", 0);
}
int64_t Audio::sample(int64_t i) const {
  uint64_t h0 = mix(seed * 77 + 5);
  int64_t seglen = 600 + (int64_t)(h0 % 4000);
  int64_t seg = i / seglen;
  uint64_t h = mix(mix(seed ^ 0x1234) + (uint64_t)seg);
  double full = bits == 8 ? 100.0 : bits == 16 ? 20000.0 : 1.2e9;
  double amp = full * (0.1 + 0.6 * ((h >> 8) & 255) / 255.0);
  double f1 = 100 + (h >> 16) % 3000, f2 = 300 + (h >> 32) % 6000;
  double noise = amp * (((h >> 50) & 3) == 0 ? 1.0 : 0.05);
  int ty = (int)((h >> 60) & 7);
  if (kind == 1 && ty == 0) return 0;  // exact silence
  if (ty == 1) amp *= 0.05;
  double t = (double)i / 16000.0;
  uint64_t e = mix(mix(seed + 999) ^ (uint64_t)i * 0x9e3779b97f4a7c15ull);
  double n = ((double)(e & 0xffff) + (double)((e >> 16) & 0xffff)) / 65535.0 - 1.0;
  double v = amp * 0.5 * (sin(6.283185307179586 * f1 * t) + 0.6 * sin(6.283185307179586 * f2 * t)) + (noise + full * 0.01) * n;
  if (v > full * 1.2) v = full * 1.2;
  if (v < -full * 1.2) v = -full * 1.2;
  return (int64_t)llrint(v);
}
std::string Audio::bytes(int64_t from, int64_t n) const {
  std::string s;
  s.reserve(n);
  int b = bps();
  int64_t i = from / b, last = -1, v = 0;
  for (int64_t p = from; p < from + n; ++p) {
    i = p / b;
    if (i != last) { v = sample(i); last = i; }
    s += (char)((v >> (8 * (p % b))) & 0xff);
  }
  return s;
}
std::vector<float> Audio::samples(int64_t n) const {
  std::vector<float> v(n);
  for (int64_t i = 0; i < n; ++i) v[i] = (float)(int32_t)sample(i);
  return v;
}
std::string wav_header(int bits, int64_t n, int ch, int rate) {
  std::string s = "RIFF";
  put<int32_t>(s, (int32_t)(36 + n));
  s += "WAVEfmt ";
  put<int32_t>(s, 16);
  put<int16_t>(s, 1);
  put<int16_t>(s, (int16_t)ch);
  put<int32_t>(s, rate);
  put<int32_t>(s, rate * bits / 8);
  put<int16_t>(s, (int16_t)(bits / 8));
  put<int16_t>(s, (int16_t)bits);
  s += "data";
  put<int32_t>(s, (int32_t)n);
  return s;
}

// ------------------------------------------------------------- reference: features
static void fft(std::vector<std::complex<double>> &a) {
  size_t n = a.size();
  for (size_t i = 1, j = 0; i < n; ++i) {
    size_t bit = n >> 1;
    for (; j & bit; bit >>= 1) j ^= bit;
    j ^= bit;
    if (i < j) std::swap(a[i], a[j]);
  }
  for (size_t len = 2; len <= n; len <<= 1) {
    double ang = -2 * M_PI / len;
    std::vector<std::complex<double>> w(len / 2);
    for (size_t k = 0; k < len / 2; ++k) w[k] = std::complex<double>(cos(ang * k), sin(ang * k));
    for (size_t i = 0; i < n; i += len)
      for (size_t k = 0; k < len / 2; ++k) {
        std::complex<double> u = a[i + k], v = a[i + k + len / 2] * w[k];
        a[i + k] = u + v;
        a[i + k + len / 2] = u - v;
      }
  }
}
Mat features(const std::vector<float> &x) {
  static std::vector<std::vector<std::pair<int, double>>> bins;
  static std::vector<double> ham;
  if (bins.empty()) {
    auto mel = [](double f) { return 1127.0 * log(1.0 + f / 700.0); };
    double lo = mel(20), hi = mel(8000), d = (hi - lo) / 41;
    for (int b = 0; b < 40; ++b) {
      double l = lo + b * d, c = l + d, rr = c + d;
      std::vector<std::pair<int, double>> v;
      for (int i = 0; i < 256; ++i) {
        double mm = mel(31.25 * i);
        if (mm > l && mm < rr) v.push_back({i, mm <= c ? (mm - l) / (c - l) : (rr - mm) / (rr - c)});
      }
      bins.push_back(v);
    }
    for (int i = 0; i < 400; ++i) ham.push_back(0.54 - 0.46 * cos(2 * M_PI * i / 399));
  }
  int64_t T = frames_of((int64_t)x.size());
  Mat out(T, std::vector<double>(40));
  std::vector<std::complex<double>> buf(512);
  for (int64_t t = 0; t < T; ++t) {
    double w[400], mean = 0;
    for (int i = 0; i < 400; ++i) { w[i] = x[t * 160 + i]; mean += w[i]; }
    mean /= 400;
    for (int i = 0; i < 400; ++i) w[i] -= mean;
    for (int i = 399; i > 0; --i) w[i] -= 0.97 * w[i - 1];
    w[0] -= 0.97 * w[0];
    for (int i = 0; i < 512; ++i) buf[i] = i < 400 ? w[i] * ham[i] : 0;
    fft(buf);
    for (int b = 0; b < 40; ++b) {
      double e = 0;
      for (auto &p : bins[b]) e += p.second * std::norm(buf[p.first]);
      if (e < FLT_EPSILON) e = FLT_EPSILON;
      out[t][b] = log(e);
    }
  }
  return out;
}

// ------------------------------------------------------------- reference: network
Mat scores(const Model &m, const Mat &feats) {
  int T = (int)feats.size();
  if (T == 0) return Mat();
  Mat x;
  for (int t = -m.L; t < T + m.R; ++t) x.push_back(feats[std::max(0, std::min(T - 1, t))]);
  for (auto &y : m.layers) {
    Mat o;
    int n = (int)x.size(), d = n ? (int)x[0].size() : 0;
    switch (y.type) {
      case 0:
        o.assign(n, std::vector<double>(y.cols));
        for (int t = 0; t < n; ++t)
          for (int c = 0; c < y.cols; ++c) {
            double s = y.b[c];
            for (int k = 0; k < y.rows; ++k) s += x[t][k] * (double)y.W[(size_t)k * y.cols + c];
            o[t][c] = s;
          }
        break;
      case 1:
        o = x;
        for (auto &r : o) for (auto &v : r) if (v < 0) v = 0;
        break;
      case 2:
        o = x;
        for (auto &r : o) { double s = 0; for (double v : r) s += v * v; double k = sqrt(d / s); for (auto &v : r) v *= k; }
        break;
      case 6:
        o.assign(n, std::vector<double>());
        for (int t = 0; t < n; ++t)
          for (int c : y.idx) { auto &s = x[std::max(0, std::min(n - 1, t + c))]; o[t].insert(o[t].end(), s.begin(), s.end()); }
        break;
      case 7:
        o = x;
        for (auto &r : o) for (int k = 0; k < d; ++k) r[k] = r[k] * y.W[k] + y.b[k];
        break;
      case 8:
        o = x;
        for (auto &r : o) {
          double mx = -INF, z = 0;
          for (double v : r) mx = std::max(mx, v);
          for (double v : r) z += exp(v - mx);
          for (auto &v : r) v = v - mx - log(z);
        }
        break;
      case 9:
        o.assign(x.begin() + y.left, x.end() - y.right);
        break;
    }
    x.swap(o);
  }
  for (auto &r : x) for (int k = 0; k < m.P; ++k) r[k] -= log((double)m.prior[k]);
  return x;
}

// ------------------------------------------------------------- reference: language model
bool lm_get(const Model &m, int s, int w, int *next, double *wt) {
  double acc = 0;
  for (int guard = 0; guard < 1000; ++guard) {
    const LmArc *back = nullptr;
    for (auto &a : m.lm.arcs[s]) {
      if (a.il == w) { *next = a.next; *wt = acc + a.w; return true; }
      if (a.il == 0) back = &a;
    }
    if (!back) return false;
    acc += back->w;
    s = back->next;
  }
  return false;
}
static double lm_state_final(const Model &m, int s) {
  double acc = 0;
  for (int guard = 0; guard < 1000; ++guard) {
    if (std::isfinite(m.lm.fin[s])) return acc + m.lm.fin[s];
    const LmArc *back = nullptr;
    for (auto &a : m.lm.arcs[s]) if (a.il == 0) back = &a;
    if (!back) return INF;
    acc += back->w;
    s = back->next;
  }
  return INF;
}
double lm_final(const Model &m, int s) {
  int nx;
  double w;
  if (!lm_get(m, s, m.eos, &nx, &w)) return INF;
  return lm_state_final(m, nx) + w - m.small_lm[m.eos];
}
int lm_start(const Model &m) {
  int nx;
  double w;
  if (lm_get(m, m.lm.start, m.bos, &nx, &w)) return nx;
  return m.lm.start;
}

// ------------------------------------------------------------- reference: search
struct Search {
  const Model &m;
  int H, Q;
  std::vector<std::vector<std::pair<int, double>>> lmt;  // [lm][word] -> next, weight
  std::vector<double> lmf;
  explicit Search(const Model &mm) : m(mm) {
    H = (int)m.g.fin.size();
    Q = m.has_lm ? (int)m.lm.fin.size() : 1;
    if (m.has_lm) {
      std::vector<char> used(m.words.size(), 0);
      for (auto &v : m.g.arcs) for (auto &a : v) used[a.ol] = 1;
      lmt.resize(Q);
      for (int q = 0; q < Q; ++q) {
        lmf.push_back(lm_final(m, q));
        for (size_t w = 0; w < m.words.size(); ++w) {
          int nx = q;
          double wt = 0;
          if (w == 0 || !used[w]) { lmt[q].push_back({q, 0.0}); continue; }
          if (lm_get(m, q, (int)w, &nx, &wt)) lmt[q].push_back({nx, wt - m.small_lm[w]});
          else lmt[q].push_back({q, 0.0});
        }
      }
    }
  }
  std::pair<int, double> lm(int q, int ol) const { return m.has_lm ? lmt[q][ol] : std::make_pair(0, 0.0); }
  double final_cost(int h, int q) const { return (double)m.g.fin[h] + (m.has_lm ? lmf[q] : 0.0); }
};

Lattice::Lattice(const Model &m, const Mat &rows) : m_(m), rows_(rows), s_(new Search(m)) {
  Search &S = *s_;
  N_ = S.H * S.Q;
  c.assign(1, std::vector<double>(N_, INF));
  p.assign(1, std::vector<Pred>(N_, {-1, -1, false}));
  B.assign(1, INF);
  M.assign(1, INF);
  c[0][m.g.start * S.Q + (m.has_lm ? lm_start(m) : 0)] = 0;
  closure(0);
}
Lattice::~Lattice() { delete s_; }
void Lattice::closure(int t) {
  Search &S = *s_;
  std::vector<int> queue;
  std::vector<char> inq(N_, 0);
  for (int s = 0; s < N_; ++s) if (c[t][s] < INF) { queue.push_back(s); inq[s] = 1; }
  int64_t guard = 0;
  for (size_t qi = 0; qi < queue.size(); ++qi) {
    if (++guard > 4000000) sim::broken("epsilon closure does not converge");
    int s = queue[qi];
    inq[s] = 0;
    int h = s / S.Q, q = s % S.Q;
    for (size_t a = 0; a < m_.g.arcs[h].size(); ++a) {
      const Arc &x = m_.g.arcs[h][a];
      if (x.il) continue;
      auto l = S.lm(q, x.ol);
      double v = c[t][s] + x.w + l.second;
      int d = x.next * S.Q + l.first;
      if (v < c[t][d] - 1e-12) {
        c[t][d] = v;
        p[t][d] = {s, (int)a, false};
        if (!inq[d]) { inq[d] = 1; queue.push_back(d); }
      }
    }
  }
  for (int s = 0; s < N_; ++s) M[t] = std::min(M[t], c[t][s]);
}
void Lattice::advance(int t) {
  Search &S = *s_;
  c.emplace_back(N_, INF);
  p.emplace_back(N_, Pred{-1, -1, false});
  B.push_back(INF);
  M.push_back(INF);
  for (int s = 0; s < N_; ++s) {
    if (c[t - 1][s] == INF) continue;
    int h = s / S.Q, q = s % S.Q;
    for (size_t a = 0; a < m_.g.arcs[h].size(); ++a) {
      const Arc &x = m_.g.arcs[h][a];
      if (!x.il) continue;
      double v = c[t - 1][s] + x.w - 0.1 * rows_[t - 1][m_.tid2pdf[x.il]];
      B[t] = std::min(B[t], v);
      auto l = S.lm(q, x.ol);
      v += l.second;
      int d = x.next * S.Q + l.first;
      if (v < c[t][d]) { c[t][d] = v; p[t][d] = {s, (int)a, true}; }
    }
  }
  closure(t);
}
Best Lattice::best(int n, bool fin, double margin) {
  while ((int)c.size() <= n) advance((int)c.size());
  Search &S = *s_;
  Best b;
  int best = -1;
  for (int s = 0; s < N_; ++s) {
    double v = c[n][s];
    if (v == INF) continue;
    if (fin) v += S.final_cost(s / S.Q, s % S.Q);
    if (v < b.cost) { b.cost = v; best = s; }
  }
  if (best < 0) return b;
  b.found = true;
  // back-trace, checking how close the path ever comes to the beam
  double mm = INF;
  int t = n, s = best;
  for (;;) {
    Pred pr = p[t][s];
    if (pr.from < 0) break;
    const Arc &x = m_.g.arcs[pr.from / S.Q][pr.arc];
    if (x.ol) b.words.push_back(x.ol);
    if (pr.emit) {
      double nolm = c[t - 1][pr.from] + x.w - 0.1 * rows_[t - 1][m_.tid2pdf[x.il]];
      mm = std::min(mm, B[t] + 16 - nolm);
      mm = std::min(mm, M[t - 1] + 16 - c[t - 1][pr.from]);
      --t;
    } else if (t > 0) {
      mm = std::min(mm, B[t] + 16 - c[t][s]);
    }
    s = pr.from;
    if (b.words.size() > 2000000) sim::broken("back-trace");
  }
  std::reverse(b.words.begin(), b.words.end());
  b.min_margin = mm;
  b.beam_safe = mm > margin;
  return b;
}
Best viterbi(const Model &m, const Mat &rows, int n, bool fin, double margin) { return Lattice(m, rows).best(n, fin, margin); }

double forced(const Model &m, const Mat &rows, int n, bool fin, const std::vector<int> &words) {
  Search S(m);
  int K = (int)words.size() + 1, N = S.H * K;
  std::vector<int> lmst(K, 0);
  std::vector<double> lmw(K, 0);
  if (m.has_lm) {
    lmst[0] = lm_start(m);
    for (int k = 1; k < K; ++k) { auto l = S.lm(lmst[k - 1], words[k - 1]); lmst[k] = l.first; lmw[k] = l.second; }
  }
  std::vector<double> cur(N, INF), nxt;
  auto closure = [&](std::vector<double> &c) {
    std::vector<int> queue;
    for (int s = 0; s < N; ++s) if (c[s] < INF) queue.push_back(s);
    int64_t guard = 0;
    for (size_t qi = 0; qi < queue.size(); ++qi) {
      if (++guard > 8000000) sim::broken("epsilon closure does not converge");
      int s = queue[qi], h = s / K, k = s % K;
      for (auto &x : m.g.arcs[h]) {
        if (x.il) continue;
        int k2 = k;
        double v = c[s] + x.w;
        if (x.ol) {
          if (k + 1 >= K || words[k] != x.ol) continue;
          k2 = k + 1;
          v += lmw[k2];
        }
        int d = x.next * K + k2;
        if (v < c[d] - 1e-12) { c[d] = v; queue.push_back(d); }
      }
    }
  };
  cur[m.g.start * K] = 0;
  closure(cur);
  for (int t = 0; t < n; ++t) {
    nxt.assign(N, INF);
    for (int s = 0; s < N; ++s) {
      if (cur[s] == INF) continue;
      int h = s / K, k = s % K;
      for (auto &x : m.g.arcs[h]) {
        if (!x.il) continue;
        int k2 = k;
        double v = cur[s] + x.w - 0.1 * rows[t][m.tid2pdf[x.il]];
        if (x.ol) {
          if (k + 1 >= K || words[k] != x.ol) continue;
          k2 = k + 1;
          v += lmw[k2];
        }
        int d = x.next * K + k2;
        if (v < nxt[d]) nxt[d] = v;
      }
    }
    closure(nxt);
    cur.swap(nxt);
  }
  double best = INF;
  for (int h = 0; h < S.H; ++h) {
    double v = cur[h * K + K - 1];
    if (v == INF) continue;
    if (fin) v += (double)m.g.fin[h] + (m.has_lm ? lm_final(m, lmst[K - 1]) : 0.0);
    best = std::min(best, v);
  }
  return best;
}

bool parse(const Model &m, const std::string &hyp, std::vector<int> *ids) {
  ids->clear();
  if (hyp.empty()) return true;
  size_t i = 0;
  for (;;) {
    size_t j = hyp.find(' ', i);
    std::string w = hyp.substr(i, j == std::string::npos ? std::string::npos : j - i);
    int id = -1;
    for (size_t k = m.words.size(); k-- > 1 && id < 0;) if (m.words[k] == w) id = (int)k;
    if (id < 0) return false;
    ids->push_back(id);
    if (j == std::string::npos) break;
    i = j + 1;
  }
  return true;
}
std::string text(const Model &m, const std::vector<int> &ids) {
  std::string s;
  for (int i : ids) { if (!s.empty()) s += ' '; s += m.words[i]; }
  return s;
}
int64_t decoded(const Model &m, int64_t frames) {
  if (frames <= 0) return 0;
  int64_t a = frames - m.R;
  if (a <= 0) return 0;
  return m.chunk * (a / m.chunk);
}
}  // namespace model
