// C08: collection of word histories, on the pool itself and through the decoder.
#include "../api.h"
#include "pool.h"
#include <math.h>
#include <algorithm>
#include <set>
#include <unordered_map>
using namespace sim;
using namespace api;

namespace {
// ---------------------------------------------------------------- the pool against a reachability model
int64_t g_born, g_dead;
std::vector<int> *g_collected;
struct Node : pocketkaldi::Collectable {
  Node *prev;
  int id;
  uint64_t magic;
  std::vector<int> payload;                  // owned memory: its loss or double release shows
  std::unordered_map<int, Node *> kids;      // like the decoder's: links down, dropped on collection
  Node(Node *p, int i) : prev(p), id(i), magic(mix(i)), payload(3, i) { ++g_born; }
  ~Node() { ++g_dead; magic = 0xdeadULL; }
  Node *previous() const { return prev; }
  void OnCollect() override {
    g_collected->push_back(id);
    kids.clear();
    if (prev) {
      if (!prev->is_freed()) prev->kids.erase(id);
      prev = nullptr;
    }
  }
};
struct M { int prev; bool alive; bool root; int kids; Node *p; };

template <int BLOCK> void drive_pool(const Plan &p) {
  typedef pocketkaldi::GCPool<Node, BLOCK> P;
  std::vector<M> m;
  std::vector<int> roots, collected;
  g_collected = &collected;
  g_born = g_dead = 0;
  std::set<Node *> addr;
  int64_t alive = 0, peak = 0, ops = 0, gcs = 0, reclaimed = 0, reused = 0;
  mem::track(true);
  P *pool;
  { mem::Sut s; pool = new P(); }
  auto chain_ok = [&](int i, const char *when) {
    Node *n = m[i].p;
    int steps = 0;
    for (int k = i; k >= 0; k = m[k].prev, n = n->prev) {
      if (!n) fail("history-cut", "%s: the history of node %d ends %d links too early", when, i, steps);
      if (n != m[k].p || n->id != k || n->magic != mix(k) || n->payload.size() != 3 || n->payload[2] != k)
        fail("history-changed", "%s: link %d of the history of node %d is node %d, it was %d", when, steps, i, n->id, k);
      if (n->is_freed()) fail("history-freed", "%s: link %d of the history of node %d is marked free", when, steps, i);
      ++steps;
    }
    if (n) fail("history-longer", "%s: the history of node %d continues past its first node", when, i);
  };
  auto check = [&](const char *when) {
    for (int i : roots) chain_ok(i, when);
    int64_t a;
    { mem::Sut s; a = pool->allocated_nodes(); }
    if (a != alive) fail("count", "%s: %lld nodes are said to be allocated, %lld are", when, (long long)a, (long long)alive);
    if (g_born - g_dead != alive) fail("lifetime", "%s: %lld nodes were constructed and %lld destroyed, %lld are allocated", when, (long long)g_born, (long long)g_dead, (long long)alive);
  };
  auto drop = [&](int pos) { m[roots[pos]].root = false; roots[pos] = roots.back(); roots.pop_back(); };
  for (auto &l : p) {
    int64_t n = std::max<int64_t>(1, std::min<int64_t>(6000, l.i("n", 1)));
    Rng r((uint64_t)l.i("seed", 1) * 31 + 7);
    if (l.op == "alloc") {
      // chains: each new node hangs below a live root (or starts a history); the parent may stop being a root
      for (int64_t j = 0; j < n; ++j) {
        int par = roots.empty() || r.chance(0.1) ? -1 : roots[r.n(roots.size())];
        int id = (int)m.size();
        Node *x;
        { mem::Sut s; x = pool->Alloc(par < 0 ? nullptr : m[par].p, id); }
        ++ops;
        reused += !addr.insert(x).second;
        for (int i : roots) if (m[i].p == x) fail("reused-live", "Alloc returned the memory of node %d, which is still in use", i);
        if (par >= 0) { mem::Sut s; m[par].p->kids[id] = x; m[par].kids++; }
        m.push_back({par, true, true, 0, x});
        roots.push_back(id);
        ++alive;
        peak = std::max(peak, alive);
        if (par >= 0 && r.chance(l.f("move", 0.5))) {
          for (size_t k = 0; k < roots.size(); ++k) if (roots[k] == par) { drop(k); break; }
        }
      }
    } else if (l.op == "chain") {
      // one history that grows long: only its last node stays a root
      int par = roots.empty() ? -1 : roots[r.n(roots.size())];
      for (int64_t j = 0; j < n; ++j) {
        int id = (int)m.size();
        Node *x;
        { mem::Sut s; x = pool->Alloc(par < 0 ? nullptr : m[par].p, id); }
        reused += !addr.insert(x).second;
        if (par >= 0) {
          { mem::Sut s; m[par].p->kids[id] = x; }
          m[par].kids++;
          for (size_t k = 0; k < roots.size(); ++k) if (roots[k] == par) { drop(k); break; }
        }
        m.push_back({par, true, true, 0, x});
        roots.push_back(id);
        ++alive;
        peak = std::max(peak, alive);
        par = id;
      }
      ops += n;
      count_max("longest_history", n);
    } else if (l.op == "drop") {
      for (int64_t j = 0; j < n && !roots.empty(); ++j) { drop((int)r.n(roots.size())); ++ops; }
    } else if (l.op == "keep") {
      while ((int64_t)roots.size() > n) drop((int)r.n(roots.size()));
    } else if (l.op == "free") {
      // explicit release of a root nothing hangs below
      for (int64_t j = 0; j < n && !roots.empty(); ++j) {
        int pos = (int)r.n(roots.size()), i = roots[pos];
        if (m[i].kids) continue;
        drop(pos);
        if (m[i].prev >= 0) { mem::Sut s; m[m[i].prev].p->kids.erase(i); m[m[i].prev].kids--; }
        { mem::Sut s; pool->Dealloc(m[i].p); }
        m[i].alive = false;
        --alive;
        ++ops;
        count("explicit_frees");
      }
    } else if (l.op == "gc") {
      for (int64_t j = 0; j < std::min<int64_t>(n, 3); ++j) {
        std::vector<char> reach(m.size(), 0);
        for (int i : roots) for (int k = i; k >= 0 && !reach[k]; k = m[k].prev) reach[k] = 1;
        std::vector<Node *> rv;
        for (int i : roots) rv.push_back(m[i].p);
        if (l.i("dup") && !rv.empty()) rv.push_back(rv[0]);
        collected.clear();
        collected.reserve(m.size() + 16);  // not memory of the pool
        { mem::Sut s; pool->GC(rv); }
        ++gcs;
        ++ops;
        std::vector<int> want;
        for (size_t k = 0; k < m.size(); ++k)
          if (m[k].alive && !reach[k]) {
            want.push_back((int)k);
            m[k].alive = false;
            --alive;
            if (m[k].prev >= 0 && reach[m[k].prev]) m[m[k].prev].kids--;
          }
        std::sort(collected.begin(), collected.end());
        reclaimed += (int64_t)want.size();
        if (collected != want) {
          for (size_t k = 0; k < std::max(want.size(), collected.size()); ++k) {
            int a = k < collected.size() ? collected[k] : -1, b = k < want.size() ? want[k] : -1;
            if (a != b) fail("collected-set", "collection %lld: %zu nodes were collected, %zu are unreachable; first difference: %d against %d", (long long)gcs, collected.size(), want.size(), a, b);
          }
        }
        check("after a collection");
        for (size_t k = 0; k < m.size(); ++k)
          if (reach[k]) for (auto &e : m[k].p->kids) if (!m[e.first].alive || m[e.first].p != e.second) fail("dangling-link", "node %zu still links to the collected node %d", k, e.first);
      }
    } else if (l.op == "clear") {
      { mem::Sut s; pool->Clear(); }
      for (auto &x : m) x.alive = x.root = false;
      roots.clear();
      alive = 0;
      ++ops;
      count("clears");
      check("after Clear");
    } else {
      continue;
    }
    check("after an operation");
    // released nodes are used again before the pool grows
    int64_t cap = ((peak + BLOCK - 1) / BLOCK + 1) * BLOCK;
    if ((int64_t)addr.size() > cap) fail("not-reused", "%zu different nodes were handed out, never more than %lld were in use at once", addr.size(), (long long)peak);
  }
  check("at the end");
  { mem::Sut s; delete pool; }
  if (g_born != g_dead) fail("lifetime", "%lld nodes were constructed and %lld destroyed when the pool is gone", (long long)g_born, (long long)g_dead);
  if (mem::live_blocks()) fail("leak", "%lld blocks are still held after the pool is gone:%s", (long long)mem::live_blocks(), mem::live_summary().c_str());
  ev("pool %lld %lld %lld", (long long)ops, (long long)gcs, (long long)reclaimed);
  count("pool_operations", ops);
  count("fault.collection", gcs);
  count("nodes_reclaimed", reclaimed);
  count("nodes_reused", reused);
  if (gcs >= 2 && reclaimed > 0 && reused > 0) nontrivial();
  state(mix(ops) ^ mix(gcs * 7) ^ mix(reclaimed * 131) ^ mix(m.size()));
}

// ---------------------------------------------------------------- the decoder over many collections
double tol(int64_t frames, double cost) { return 0.02 + 2e-4 * (double)frames + (double)frames * fabs(cost) * 1.2e-7; }
void drive_decode(const Plan &p) {
  const Line *ml = find(p, "model"), *al = find(p, "audio"), *fl = find(p, "fill"), *sl = find(p, "speak");
  model::Model m = model::make(ml ? *ml : Line("model"));
  m.install("/cesim/m/");
  model::Audio a(al ? *al : Line("audio"));
  mem::fill(fl ? (int)fl->i("mode", 2) : 2, fl ? fl->i("seed", 1) : 1);
  int64_t frames = std::max<int64_t>(1, std::min<int64_t>(1500, sl ? sl->i("frames", 100) : 100));
  int64_t step = std::max<int64_t>(200, sl ? sl->i("step", 3200) : 3200);
  int64_t samples = 400 + 160 * (frames - 1);
  model::Mat rows = model::scores(m, model::features(a.samples(samples)));
  ce_stt_t *r = must_load(m.conf());
  Stream st;
  st.start(r, a);
  int64_t total = samples * a.bps(), lastn = 0, compared = 0, gcs = 0;
  bool dead = false;
  auto judge = [&](const char *what, int64_t n, bool fin) {
    model::Best b = model::viterbi(m, rows, (int)n, fin);
    if (!b.found) dead = !fin || dead;
    Result now = result(st.u);
    std::vector<int> w;
    bool words = model::parse(m, now.hyp, &w);
    // Pruned or not, the words are those of some path
    if (words && !w.empty() && !dead) {
      if (!std::isfinite(model::forced(m, rows, (int)n, fin, w)))
        fail("history-words", "%s after %lld frames (%lld collections): no path has the words \"%s\"", what, (long long)n, (long long)gcs, now.hyp.c_str());
      count("transcripts_traced_to_a_path");
    }
    if (dead || !b.found || !b.beam_safe) return;
    if (!words) fail("history-words", "%s after %lld frames: \"%s\" is not a sequence of words of the vocabulary", what, (long long)n, now.hyp.c_str());
    ++compared;
    if (w == b.words) return;
    double c = model::forced(m, rows, (int)n, fin, w);
    if (!(c <= b.cost + tol(n, b.cost)))
      fail("history-words", "%s after %lld frames (%lld collections): \"%s\" costs %.6f, \"%s\" costs %.6f", what, (long long)n, (long long)gcs, now.hyp.c_str(), c, model::text(m, b.words).c_str(), b.cost);
  };
  while (st.fed < total) {
    st.feed(std::min(step, total - st.fed));
    int64_t D = model::decoded(m, st.frames()), n = D - D % 20;
    gcs = (D + 19) / 20;
    if (n != lastn && n > 0) {
      ev("p %lld %s", (long long)n, result(st.u).str().c_str());
      judge("partial transcript", n, false);
    }
    lastn = n;
  }
  end(st.u);
  gcs = (frames + 19) / 20;
  ev("f %s", result(st.u).str().c_str());
  judge("final transcript", frames, true);
  state(fnv(result(st.u).hyp) ^ mix(frames));
  std::string hyp = result(st.u).hyp;
  close(st.u);
  unload(r);
  count("decodes");
  count("fault.collection", gcs);
  count("transcripts_compared_with_reference", compared);
  count("audio_samples_simulated", samples);
  if (compared > 0 && gcs >= 3 && !hyp.empty()) nontrivial();
}

void c08_gen(Rng &r, Plan &p, const Tier &t) {
  if (r.chance(0.5)) {
    static const int blocks[] = {1, 2, 3, 16, 4096};
    p.push_back(Line("pool").set("block", blocks[r.n(5)]));
    p.push_back(Line("fill").set("mode", (int)r.n(5)).set("seed", (int64_t)r.n(1000000)));
    int n = r.range(4, t.thorough ? 90 : 40);
    int big = p[0].i("block") == 4096 ? 5000 : 60;
    for (int i = 0; i < n; ++i) {
      double x = r.unit();
      Line l;
      if (t.thorough ? r.chance(0.06) : r.chance(0.02)) l = Line("chain").set("n", r.chance(0.7) ? r.range(20, 700) : r.range(700, 6000));
      else if (x < 0.42) l = Line("alloc").set("n", r.chance(0.1) ? r.range(1, big) : r.range(1, 12)).set("move", r.chance(0.5) ? 0.9 : 0.3);
      else if (x < 0.6) l = Line("drop").set("n", r.range(1, 8));
      else if (x < 0.64) l = Line("keep").set("n", r.range(1, 12));
      else if (x < 0.72) l = Line("free").set("n", r.range(1, 4));
      else if (x < 0.97) l = Line("gc").set("n", r.chance(0.2) ? 2 : 1).set("dup", (int)r.n(2));
      else l = Line("clear");
      if (l.op != "gc" && l.op != "clear" && l.op != "keep") l.set("seed", (int64_t)r.n(1000000));
      p.push_back(l);
    }
    return;
  }
  Line m = model::draw(r, r.chance(0.5));
  bool fan = r.chance(0.03), edge = !fan && r.chance(0.35);
  if (edge) m.set("L", 0).set("R", 0).set("topo", r.range(2, 4)).set("gw", r.chance(0.5) ? 12 : 5).set("words", 20).set("rare", (int)(r.n(3) > 0));   // ends just after a collection; final costs decide
  if (fan) m.set("fan", r.range(500, 9000)).set("lm", 0);
  p.push_back(m);
  p.push_back(draw_audio(r));
  p.push_back(Line("fill").set("mode", (int)r.n(5)).set("seed", (int64_t)r.n(1000000)));
  static const int steps[] = {640, 1600, 3200, 6400, 12800, 32000, 1000000};
  p.push_back(Line("speak").set("frames", edge ? 21 + 20 * (r.chance(0.6) ? 0 : (int)r.n(4)) : fan ? r.range(41, 64) : r.range(41, t.thorough ? 500 : 220)).set("step", (int64_t)steps[r.n(7)] + (int64_t)r.n(300)));
}
void c08_run(const Plan &p) {
  const Line *pl = find(p, "pool");
  if (!pl) {
    if (find(p, "speak") || find(p, "model")) drive_decode(p);
    return;
  }
  const Line *fl = find(p, "fill");
  mem::fill(fl ? (int)fl->i("mode", 2) : 2, fl ? fl->i("seed", 1) : 1);
  switch (pl->i("block", 3)) {
    case 1: drive_pool<1>(p); break;
    case 2: drive_pool<2>(p); break;
    case 16: drive_pool<16>(p); break;
    case 4096: drive_pool<4096>(p); break;
    default: drive_pool<3>(p);
  }
}
static Reg c08({"C08", c08_gen, c08_run,
  "half: random histories of allocation, growth of one history to thousands of nodes, re-rooting, explicit release, collection and clearing on the pool (block sizes 1 to 4096) against a reachability model; half: long utterances through the "
  "real decoder, every partial and the final transcript against the reference search; non-trivial: at least two collections that reclaim and later reuse, or three collections with a compared transcript"});
}  // namespace
