// C22: the state table as a map, through growth, collisions, clears and allocation failures.
#include "../sim.h"
#include "hashtable.h"
#include <stdlib.h>
#include <algorithm>
#include <new>
#include <set>
using namespace sim;

namespace cesim_key {
struct Key {
  int32_t id, h;
  bool operator==(const Key &o) const { return id == o.id && h == o.h; }
  bool operator<(const Key &o) const { return id < o.id; }
};
inline int32_t hash(Key k) { return k.h; }
}  // namespace cesim_key

namespace {
using cesim_key::Key;
const int32_t PRIMES[] = {2, 5, 11, 17, 37, 67, 131, 257, 521, 1031, 2053, 4099};

// Key universe: the i-th key of a family
Key key_of(const Line &u, int64_t i) {
  Key k;
  k.id = (int32_t)i;
  int32_t p = (int32_t)std::max<int64_t>(1, u.i("p", 11));
  switch (u.i("kind") & 7) {
    case 0: k.h = (int32_t)i; break;
    case 1: k.h = (int32_t)(0u - (uint32_t)i); break;
    case 2: k.h = (int32_t)(uint32_t)(i * p); break;                       // all collide in a table of p buckets
    case 3: k.h = (int32_t)u.i("c", 7); break;                             // all collide everywhere
    case 4: k.h = (int32_t)(uint32_t)mix((uint64_t)i * 77 + u.i("c")); break;
    case 5: k.h = i & 1 ? INT32_MIN + (int32_t)(i % 3) : INT32_MAX - (int32_t)(i % 3); break;
    case 6: k.h = (int32_t)(mix((uint64_t)i + u.i("c")) % 4) - 2; break;   // few classes
    default: k.h = (int32_t)(0u - (uint32_t)(i * p)) + (int32_t)(i % 3); break;
  }
  return k;
}
int universe_max(const Line &u) {
  int k = (int)(u.i("kind") & 7);
  return k == 3 || k == 5 || k == 6 || k == 2 || k == 7 ? 700 : 6000;
}

template <class K, class MK> void drive(const Plan &p, const Line &u, MK mk) {
  typedef pocketkaldi::HashTable<K, int32_t> T;
  int cap = (int)std::max<int64_t>(0, std::min<int64_t>(5000, u.i("cap", 11)));
  int64_t maxk = universe_max(u);
  std::map<int64_t, int32_t> model;
  std::set<int64_t> ever;   // some of the keys inserted at any time
  size_t most = 0;
  int64_t grow_fail = 0, ops = 0, inserts = 0, clears = 0;
  T *t = nullptr;
  mem::track(true);
  { mem::Sut s; t = new T(cap); }
  auto check_one = [&](int64_t i, const char *when) {
    auto it = model.find(i);
    int32_t def = it != model.end() && it->second == -12345 ? -54321 : -12345, got;
    { mem::Sut s; got = t->Find(mk(i), def); }
    int32_t want = it == model.end() ? def : it->second;
    if (got != want)
      fail("map", "%s, after %lld operations: key %lld (hash %d) gives %d, a map gives %s%d", when, (long long)ops, (long long)i, key_of(u, i).h, got, it == model.end() ? "absent/" : "", want);
  };
  auto check_all = [&](const char *when) {
    for (auto &e : model) check_one(e.first, when);
  };
  for (auto &l : p) {
    int64_t a = std::max<int64_t>(0, l.i("k")), n = std::max<int64_t>(1, std::min<int64_t>(4000, l.i("n", 1)));
    if (l.op == "ins") {
      for (int64_t j = 0; j < n; ++j) {
        int64_t i = (a + j * std::max<int64_t>(1, l.i("step", 1))) % maxk;
        int32_t v = (int32_t)(l.i("v", 1) + j);
        ++ops;
        ++inserts;
        { mem::Sut s; t->Insert(mk(i), v); }
        model[i] = v;
        if (ever.size() < 300) ever.insert(i);
        most = std::max(most, model.size());
        check_one(i, "after an insertion");
      }
    } else if (l.op == "insfail") {
      // one insertion during which the nth allocation fails
      int64_t i = a % maxk;
      int32_t v = (int32_t)l.i("v", 1);
      ++ops;
      int64_t fired = mem::fails_fired();
      mem::fail_at(std::max<int64_t>(1, l.i("at", 1)), 1);
      bool threw = false;
      try { mem::Sut s; t->Insert(mk(i), v); } catch (std::bad_alloc &) { threw = true; }
      mem::fail_at(0, 0);
      bool hit = mem::fails_fired() != fired;
      if (hit && !threw) fail("alloc-swallowed", "an allocation failure during an insertion was not reported");
      if (!threw) model[i] = v;
      else ++grow_fail;
      if (threw) check_all("after an allocation failure");
      check_one(i, "after an insertion under allocation failure");
    } else if (l.op == "find") {
      for (int64_t j = 0; j < n; ++j) { ++ops; check_one((a + j) % maxk, "on lookup"); }
    } else if (l.op == "clear") {
      // once, or very often in a row: a table is cleared with every frame of an utterance
      int64_t times = std::max<int64_t>(1, std::min<int64_t>(70000, l.i("n", 1)));
      if (times > 1 && (cap > 140 || most > 130)) times = std::min<int64_t>(times, 520);
      { mem::Sut s; for (int64_t k = 0; k < times; ++k) t->Clear(); }
      clears += times;
      ++ops;
      for (auto &e : model) {
        int32_t got;
        { mem::Sut s; got = t->Find(mk(e.first), -99); }
        if (got != -99) fail("clear", "after Clear key %lld is still there", (long long)e.first);
      }
      model.clear();
      for (int64_t i : ever) check_one(i, "after Clear");
    } else if (l.op == "all") {
      check_all("on a full check");
    }
  }
  check_all("at the end");
  for (int64_t i = 0; i < 64; ++i) check_one((maxk + 17 * i) % (maxk + 999), "absent key");
  { mem::Sut s; delete t; }
  if (mem::live_blocks()) fail("leak", "%lld blocks (%lld bytes) are still held after the table is gone:%s", (long long)mem::live_blocks(), (long long)mem::live_bytes(), mem::live_summary().c_str());
  ev("ops %lld size %zu", (long long)ops, model.size());
  count("operations", ops);
  count("fault.clear", clears);
  count_max("max_keys", (int64_t)model.size());
  if (inserts > 5 && ops > 10) nontrivial();
  uint64_t h = mix(model.size()) ^ mix(grow_fail + 77) ^ mix(cap);
  for (auto &e : model) h = mix(h ^ (uint64_t)e.first * 31 ^ (uint32_t)e.second);
  state(h);
}

void c22_gen(Rng &r, Plan &p, const Tier &t) {
  static const int caps[] = {0, 1, 2, 3, 5, 6, 11, 12, 17, 36, 64, 131, 257, 1024};
  Line u("table");
  u.set("cap", caps[r.n(14)]).set("kind", (int)r.n(8)).set("p", (int)PRIMES[r.n(12)]).set("c", (int)r.n(1000)).set("plain", (int)(r.n(4) == 0));
  p.push_back(u);
  p.push_back(Line("fill").set("mode", (int)r.n(5)).set("seed", (int64_t)r.n(1000000)));
  int n = r.range(3, t.thorough ? 120 : 50);
  for (int i = 0; i < n; ++i) {
    double x = r.unit();
    if (x < 0.4) p.push_back(Line("ins").set("k", (int64_t)r.n(r.chance(0.5) ? 60 : 5000)).set("n", r.chance(0.3) ? r.range(1, 400) : r.range(1, 20)).set("step", r.chance(0.7) ? 1 : r.range(2, 67)).set("v", (int)r.n(100000)));
    else if (x < 0.65) p.push_back(Line("insfail").set("k", (int64_t)r.n(r.chance(0.5) ? 60 : 5000)).set("v", (int)r.n(100000)).set("at", r.range(1, 2)));
    else if (x < 0.85) p.push_back(Line("find").set("k", (int64_t)r.n(5000)).set("n", r.range(1, 30)));
    else if (x < 0.92) p.push_back(Line("clear").set("n", r.chance(0.75) ? 1 : r.chance(0.5) ? 254 + (int)r.n(5) : r.chance(0.15) ? 65534 + (int)r.n(4) : r.range(2, 520)));
    else p.push_back(Line("all"));
  }
}
void c22_run(const Plan &p) {
  const Line *u = find(p, "table");
  Line d("table");
  if (!u) u = &d;
  const Line *fl = find(p, "fill");
  mem::fill(fl ? (int)fl->i("mode", 2) : 2, fl ? fl->i("seed", 1) : 1);
  // keys of type int32_t need distinct values: the families whose hash identifies the key
  int kind = (int)(u->i("kind") & 7);
  if (u->i("plain") && (kind <= 2)) drive<int32_t>(p, *u, [&](int64_t i) { return key_of(*u, i).h; });
  else drive<Key>(p, *u, [&](int64_t i) { return key_of(*u, i); });
}
static Reg c22({"C22", c22_gen, c22_run,
  "random histories of insertions, updates, lookups and clears over key families (sequential, negative, all colliding, extreme hashes) and initial sizes, with allocation failures during "
  "insertions; every answer against std::map, memory returned at the end; non-trivial: more than five insertions"});
}  // namespace
