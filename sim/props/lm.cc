// C21: language-model lookups: cache against no cache against the definition.
#include "../sim.h"
#include "../model.h"
#include "fst.h"
#include "symbol_table.h"
#include <algorithm>
#include <memory>
using namespace sim;
using namespace pocketkaldi;

namespace {
int clampi(int64_t v, int lo, int hi) { return (int)std::max<int64_t>(lo, std::min<int64_t>(hi, v)); }

// A back-off model of any depth. State numbers are a permutation: back-off goes down in depth.
// The number of the i-th word: in sequence, after unused ones, or multiples of a power of two
int number(const Line &l, int i) {
  int bits = clampi(l.i("walign", 0), 0, 18), base = clampi(l.i("wbase", 0), 0, 80000);
  if (!bits) return base + i;
  int per = std::max(2, 200000 >> bits);
  return ((i % per) << bits) + i / per;
}
model::Model build(const Line &l) {
  model::Model m;
  Rng r((uint64_t)l.i("seed", 1) * 7919 + 3);
  int W = clampi(l.i("words", 10), 1, 3000), N = clampi(l.i("states", 10), 1, 400);
  std::vector<int> ids;
  for (int i = 1; i < W + 3; ++i) ids.push_back(number(l, i));
  int V = *std::max_element(ids.begin(), ids.end()) + 1;
  m.words.assign(V, "");
  m.words[0] = "<eps>";
  for (size_t i = ids.size() - 1; i > 0; --i) std::swap(ids[i], ids[r.n(i + 1)]);
  m.bos = ids[0];
  m.eos = ids[1];
  for (int i = 1; i < V; ++i) m.words[i] = i == m.bos ? "<s>" : i == m.eos ? "</s>" : "w" + std::to_string(i);
  m.small_lm.resize(V);
  for (auto &x : m.small_lm) x = (float)(6 * r.unit() - 1);
  m.has_lm = true;
  model::Lm &L = m.lm;
  L.arcs.resize(N);
  L.fin.assign(N, INFINITY);
  std::vector<int> order(N);
  for (int i = 0; i < N; ++i) order[i] = i;
  if (l.i("perm")) for (int i = N - 1; i > 0; --i) std::swap(order[i], order[r.n(i + 1)]);
  L.start = (int)r.n(N);
  double dens = l.f("dens", 0.3), back = l.f("back", 0.9);
  for (int k = 0; k < N; ++k) {
    int s = order[k];
    if (k > 0 && r.chance(back)) L.arcs[s].push_back({order[l.i("deep") ? k - 1 : r.n(k)], 0, (float)(2 * r.unit())});
    if (k > 0 && r.chance(0.1)) { if (r.chance(0.5)) L.arcs[s].clear(); }           // states without arcs
    else
      for (int w : ids) {
        if (w == m.bos && k > 0 && !r.chance(0.2)) continue;
        if (r.chance(k == 0 ? 0.85 : dens)) L.arcs[s].push_back({(int)r.n(N), w, (float)(8 * r.unit() - 1)});
      }
    if (r.chance(0.3)) L.fin[s] = (float)(3 * r.unit());
    std::sort(L.arcs[s].begin(), L.arcs[s].end(), [](const model::LmArc &x, const model::LmArc &y) { return x.il < y.il; });
  }
  m.g.fin.assign(1, 0);
  m.g.arcs.resize(1);
  model::spread(m, clampi(l.i("spread", 0), 0, 300000), (uint64_t)l.i("seed", 1));
  if (l.i("align") > 0) model::align(m, clampi(l.i("align"), 4, 20), false);
  return m;
}
void c21_gen(Rng &r, Plan &p, const Tier &t) {
  static const int ws[] = {1, 2, 5, 12, 30, 120, 700};
  Line l("lm");
  l.set("seed", (int64_t)r.n(1000000000)).set("words", ws[r.n(t.thorough ? 7 : 6)]).set("states", r.chance(0.3) ? r.range(1, 4) : r.chance(0.15) ? r.range(60, 400) : r.range(3, 60));
  static const double ds[] = {0.02, 0.1, 0.3, 0.6};
  l.set("dens", ds[r.n(4)]).set("back", r.chance(0.7) ? 1.0 : 0.7).set("perm", (int)r.n(2)).set("deep", (int)(r.n(4) == 0));
  if (r.chance(0.1)) l.set("spread", r.chance(0.5) ? r.range(1, 5000) : r.range(5000, 150000));
  else if (r.chance(0.03)) l.set("align", r.range(8, 20));
  if (r.chance(0.02)) l.set("wbase", r.chance(0.5) ? r.range(1, 40000) : r.range(65000, 70000));
  else if (r.chance(0.015)) l.set("walign", r.chance(0.6) ? 16 : r.range(8, 18));
  p.push_back(l);
  p.push_back(Line("fill").set("mode", (int)r.n(5)).set("seed", (int64_t)r.n(1000000)));
  static const int bs[] = {1, 2, 3, 7, 31, 64, 961, 1000, 30000};
  int nc = r.range(1, 3);
  for (int i = 0; i < nc; ++i) p.push_back(Line("cache").set("size", r.chance(0.02) ? (r.chance(0.5) ? 65536 : 1000000) : bs[r.n(9)]));
  int n = r.range(3, t.thorough ? 60 : 25);
  for (int i = 0; i < n; ++i) {
    double x = r.unit();
    if (x < 0.4) p.push_back(Line("walk").set("c", (int)r.n(nc)).set("seed", (int64_t)r.n(100000000)).set("n", r.range(1, 200)));
    else if (x < 0.8) p.push_back(Line("look").set("c", (int)r.n(nc)).set("seed", (int64_t)r.n(100000000)).set("n", r.range(1, 200)).set("states", r.range(1, 60)).set("words", r.chance(0.5) ? 4 : 1000));
    else if (x < 0.9) p.push_back(Line("final").set("c", (int)r.n(nc)).set("seed", (int64_t)r.n(100000000)).set("n", r.range(1, r.chance(0.2) ? 500 : 30)));
    else p.push_back(Line("again").set("c", (int)r.n(nc)).set("n", r.range(1, 60)));
  }
}
void c21_run(const Plan &p) {
  const Line *ll = find(p, "lm"), *fl = find(p, "fill");
  model::Model m = build(ll ? *ll : Line("lm"));
  mem::fill(fl ? (int)fl->i("mode", 2) : 2, fl ? fl->i("seed", 1) : 1);
  io::put("/cesim/lm.bin", m.lm_bytes());
  io::put("/cesim/small.bin", m.small_bytes());
  io::put("/cesim/words.txt", m.words_text());
  std::unique_ptr<LmFst> lm;
  std::unique_ptr<Vector<float>> small;
  std::unique_ptr<SymbolTable> sym;
  std::unique_ptr<DeltaLmFst> delta;
  std::vector<std::unique_ptr<CachedFst>> caches;
  {
    mem::Sut s;
    lm.reset(new LmFst());
    small.reset(new Vector<float>());
    sym.reset(new SymbolTable());
    util::ReadableFile fd;
    Status st = fd.Open("/cesim/lm.bin");
    if (st.ok()) st = lm->Read(&fd);
    fd.Close();
    if (st.ok()) lm->InitBucket0();
    if (st.ok()) st = fd.Open("/cesim/small.bin");
    if (st.ok()) st = small->Read(&fd);
    fd.Close();
    if (st.ok()) st = sym->Read("/cesim/words.txt");
    if (!st.ok()) fail("load-failed", "an intact language model does not load: %s", st.what().c_str());
    delta.reset(new DeltaLmFst(small.get(), lm.get(), sym.get()));
    for (auto &l : p) if (l.op == "cache" && caches.size() < 6) caches.emplace_back(new CachedFst(delta.get(), clampi(l.i("size", 7), 1, 1000000)));
    if (caches.empty()) caches.emplace_back(new CachedFst(delta.get(), 1));
  }
  int N = (int)m.lm.fin.size(), W = clampi(ll ? ll->i("words", 10) : 10, 1, 3000), V = W + 3;
  Line none("lm");
  auto word = [&](Rng &r, int k) { return number(ll ? *ll : none, 1 + (int)r.n(k)); };
  int64_t lookups = 0, found = 0, hits = 0;
  std::vector<std::pair<int, int>> past;
  uint64_t hash = 1;
  auto look = [&](size_t c, int s, int w, int *next) {
    FstArc a, b;
    bool fa, fb;
    memset(&a, 0x55, sizeof a);
    memset(&b, 0xaa, sizeof b);
    { mem::Sut g; fa = caches[c]->GetArc(m.ls(s), w, &a); fb = delta->GetArc(m.ls(s), w, &b); }
    ++lookups;
    if (fa != fb) fail("cache-found", "lookup %lld: state %d word %d: the cache says %d, the model says %d", (long long)lookups, s, w, fa, fb);
    int nx = -1;
    double wt = 0;
    bool fm = model::lm_get(m, s, w, &nx, &wt);
    if (fm != fb) fail("model-found", "state %d word %d: the model says %d, the definition says %d", s, w, fb, fm);
    past.push_back({s, w});
    *next = -1;
    if (!fa) return false;
    ++found;
    uint32_t wa, wb;
    memcpy(&wa, &a.weight, 4);
    memcpy(&wb, &b.weight, 4);
    if (a.next_state != b.next_state || wa != wb)
      fail("cache-arc", "lookup %lld: state %d word %d: the cache gives state %d weight %.9g, the model gives state %d weight %.9g", (long long)lookups, s, w, a.next_state, a.weight, b.next_state, b.weight);
    wt -= m.small_lm[w];
    if (b.next_state != m.ls(nx) || !(fabs(b.weight - wt) <= 1e-4 * (10 + fabs(wt))))
      fail("model-arc", "state %d word %d: the model gives state %d weight %.9g, the definition gives state %d weight %.9g", s, w, b.next_state, b.weight, m.ls(nx), wt);
    hash = mix(hash ^ wa ^ (uint64_t)nx);
    *next = nx;
    return true;
  };
  {
    int a, b;
    { mem::Sut g; a = delta->StartState(); b = caches[0]->StartState(); }
    if (a != m.ls(model::lm_start(m)) || b != a) fail("start", "start state %d, cached %d, by definition %d", a, b, m.ls(model::lm_start(m)));
  }
  for (auto &l : p) {
    size_t c = (uint64_t)l.i("c") % caches.size();
    Rng r((uint64_t)l.i("seed", 1));
    int n = clampi(l.i("n", 1), 1, 3000), next;
    if (l.op == "walk") {
      int s = model::lm_start(m);
      for (int i = 0; i < n; ++i) {
        if (look(c, s, word(r, V - 1), &next)) s = next;
        if (r.chance(0.05)) s = (int)r.n(N);
      }
    } else if (l.op == "look") {
      int S = clampi(l.i("states", N), 1, N), K = clampi(l.i("words", V), 1, V - 1);
      for (int i = 0; i < n; ++i) look(c, (int)r.n(S), word(r, K), &next);
    } else if (l.op == "again") {
      for (int i = 0; i < n && !past.empty(); ++i) { auto x = past[past.size() - 1 - (i * 7) % past.size()]; look(c, x.first, x.second, &next); ++hits; }
    } else if (l.op == "final") {
      for (int i = 0; i < n; ++i) {
        int s = (int)r.n(N);
        float a, b;
        { mem::Sut g; a = caches[c]->Final(m.ls(s)); b = delta->Final(m.ls(s)); }
        double d = model::lm_final(m, s);
        if (memcmp(&a, &b, 4)) fail("cache-final", "state %d: the cache gives final cost %.9g, the model %.9g", s, a, b);
        if (std::isfinite(d) ? !(fabs(d - b) <= 1e-4 * (10 + fabs(d))) : !(b == INFINITY)) fail("model-final", "state %d: final cost %.9g, by definition %.9g", s, b, d);
        ++lookups;
      }
    }
  }
  ev("lm %lld %lld %llx", (long long)lookups, (long long)found, (unsigned long long)hash);
  count("lookups", lookups);
  count("arcs_found", found);
  count("repeated_lookups", hits);
  if (found > 10) nontrivial();
  state(hash);
}
static Reg c21({"C21", c21_gen, c21_run,
  "random back-off models (depth, density, states without arcs or without back-off), one to three caches of 1 to 1000000 entries, states and words numbered in sequence, sparsely or by powers of two over one model, random walks, clustered and repeated lookups and "
  "final costs; cache against model bit for bit, model against its definition; non-trivial: more than ten arcs found"});
}  // namespace
