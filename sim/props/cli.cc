// The command-line program: C19 (lists of audio files under faults); text files, through the program and the
// library: C20 (line layouts, read patterns, read errors, malformed lines).
#include "../api.h"
#include "../internal.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
using namespace sim;
using namespace api;

int cesim_cli_main(int argc, char **argv);

namespace {
int64_t mod(int64_t v, int64_t n) { return n <= 0 ? 0 : ((v % n) + n) % n; }

struct Cli { int status = 0; std::string out; int64_t eio = 0, open = 0; };
int64_t *g_fired = nullptr;
void at_exit() {
  g_fired[0] = io::fired("eio");
  g_fired[1] = io::fired("open");
  io_publish();
}
// Runs the program in a forked copy of the process; its standard output goes to memory, of which there may be too
// little (room: bytes that fit).
Cli run_cli(const std::vector<std::string> &args, int64_t room = -1) {
  if (!g_fired) g_fired = (int64_t *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_fired[0] = g_fired[1] = 0;
  int fd = memfd_create("stdout", MFD_ALLOW_SEALING);
  if (fd < 0) broken("memfd_create");
  if (room >= 0 && (ftruncate(fd, room) || fcntl(fd, F_ADD_SEALS, F_SEAL_GROW | F_SEAL_SHRINK))) broken("seal");
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) broken("fork");
  if (pid == 0) {
    dup2(fd, 1);
    atexit(at_exit);
    std::vector<char *> av;
    static char name[] = "pocketkaldi";
    av.push_back(name);
    for (auto &a : args) av.push_back(strdup(a.c_str()));
    av.push_back(nullptr);
    int rc;
    try {
      mem::Sut s;
      rc = cesim_cli_main((int)av.size() - 1, av.data());
    } catch (std::exception &e) {
      fail("uncaught-exception", "exception escaped from the program: %s", e.what());
    }
    exit(rc);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  Cli c;
  char b[65536];
  off_t written = lseek(fd, 0, SEEK_CUR);   // the position is shared with the program
  lseek(fd, 0, SEEK_SET);
  ssize_t k;
  while ((k = ::read(fd, b, sizeof b)) > 0) c.out.append(b, k);
  if (room >= 0) c.out.resize(written);
  ::close(fd);
  if (g_shm->status != 0) _exit(3);
  if (WIFSIGNALED(st)) { ::signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
  c.status = WEXITSTATUS(st);
  if (c.status == 99) _exit(99);   // memory error reported on standard error
  c.eio = g_fired[0];
  c.open = g_fired[1];
  return c;
}
std::string cut(const std::string &s, size_t n = 300) { return s.size() <= n ? s : s.substr(0, n) + "..."; }

// ---------------------------------------------------------------- C19
void c19_gen(Rng &r, Plan &p, const Tier &t) {
  Line m = model::draw(r, r.chance(0.6));
  m.set("lm", r.chance(0.5) ? 1 : 0);
  p.push_back(m);
  p.push_back(Line("fill").set("mode", (int)r.n(5)).set("seed", (int64_t)r.n(1000000)));
  Line s("scp");
  s.set("eol", (int)r.n(3)).set("nonl", (int)r.n(2)).set("seed", (int64_t)r.n(1000000));
  if (r.chance(0.12)) s.set("single", 1);
  if (r.chance(0.05)) s.set("args", (int)r.n(5));
  p.push_back(s);
  if (r.chance(0.5)) { static const int mx[] = {1, 2, 3, 7, 16, 61, 255, 1000, 1023, 1024, 5000}; p.push_back(Line("short").set("max", mx[r.n(11)]).set("seed", (int64_t)r.n(1000000))); }
  int n = r.chance(0.05) ? 0 : r.chance(0.25) ? 1 : r.range(2, t.thorough ? 16 : 6);
  int faulty = r.chance(0.3) ? -1 : (int)r.n(n ? n : 1);
  for (int i = 0; i < n; ++i) {
    Line e = draw_audio(r);
    e.op = "entry";
    e.set("total", draw_total(r, (int)e.i("bits"), 26));
    if (r.chance(0.6)) e.set("total", (int64_t)(400 + 160 * (12 + r.n(20))) * (e.i("bits") / 8));
    if (r.chance(0.08)) e.set("total", 1024 * r.range(1, 20) + (r.chance(0.5) ? 0 : -44 + r.range(-1, 1)));
    if (r.chance(0.05)) e.set("total", 0);
    if (r.chance(0.1)) e.set("total", e.i("total") + 1);
    if (r.chance(0.15)) e.set("same", (int)r.n(i + 1));   // an earlier file again
    if (r.chance(0.1)) e.set("claim", r.range(-50, 500));  // the header's data size is not what follows
    if (i == faulty || r.chance(0.04)) {
      switch (r.n(7)) {
        case 0: e.set("fault", "open").set("err", (int)r.n(4)); break;
        case 1: e.set("fault", "cut").set("at", (int)r.n(44)); break;
        case 2: e.set("fault", "tag").set("at", (int)r.n(1000)); break;
        case 3: e.set("fault", "format").set("which", (int)r.n(4)); break;
        default: e.set("fault", "eio").set("at", r.chance(0.15) ? 1.0 : r.chance(0.15) ? 0.0 : r.unit()).set("times", (int)r.n(3)); break;
      }
    }
    p.push_back(e);
  }
  if (r.chance(0.15)) p.push_back(Line("scpfault").set("kind", r.chance(0.4) ? "open" : "eio").set("at", r.chance(0.3) ? 1.0 : r.unit()).set("times", (int)r.n(3)));
  if (r.chance(0.12)) p.push_back(Line("badline").set("after", (int)r.n(n + 1)).set("fields", r.chance(0.5) ? 1 : 3));
  if (r.chance(0.1)) p.push_back(Line("outfault").set("at", r.chance(0.4) ? 1.0 : r.chance(0.3) ? 0.0 : r.unit()).set("less", (int)r.n(3)));
  if (r.chance(0.15)) p.push_back(Line("many").set("lines", r.range(16, t.thorough ? 120 : 48)).set("handles", r.range(12, 24)));
  if (r.chance(0.05)) p.push_back(Line("modelfault").set("file", (int)r.n(6)).set("how", (int)r.n(2)));
}
struct Entry { std::string name, path, want; bool bad = false; std::string why; bool eio = false; };

void c19_run(const Plan &p) {
  const Line *ml = find(p, "model");
  model::Model m = model::make(ml ? *ml : Line("model"));
  m.install("/cesim/m/");
  std::vector<Entry> es;
  std::vector<model::Audio> au;
  std::vector<int64_t> tot;
  const Line *sl = find(p, "scp");
  Line scpl = sl ? *sl : Line("scp");
  bool single = scpl.i("single") != 0;
  static const char *pre[] = {"utt", "u-", "A.", "\xe4\xbd\xa0", "spk_1/", "%s%d%n", "#", "=\\n{}"};
  for (auto &l : p) {
    if (l.op != "entry" || es.size() >= 24) continue;
    Entry e;
    size_t i = es.size();
    e.name = pre[mod(l.i("seed"), 8)] + std::to_string(i);
    e.path = "/cesim/a/f" + std::to_string(i) + (mod(l.i("seed"), 3) ? ".wav" : ".pcm");
    if (single) e.path = "/cesim/a/f" + std::to_string(i) + ".wav";
    std::string fault = l.s("fault");
    int64_t same = l.has("same") ? mod(l.i("same"), (int64_t)i + 1) : (int64_t)i;
    if (same < (int64_t)i && fault.empty()) {
      Entry &o = es[same];
      e.path = o.path;
      e.bad = o.bad;
      e.why = o.why;
      au.push_back(au[same]);
      tot.push_back(tot[same]);
      if (o.eio) { e.bad = true; }   // a fault that fired once may be over; the run has ended by then anyway
      es.push_back(e);
      continue;
    }
    model::Audio a(l);
    int64_t total = std::max<int64_t>(0, std::min<int64_t>(100000, l.i("total", 8000)));
    std::string head = model::wav_header(a.bits, std::max<int64_t>(0, total + l.i("claim")));
    std::string body = a.bytes(0, total);
    if (fault == "cut") {
      head.resize(mod(l.i("at"), 44));
      body.clear();
      e.bad = true;
      count("fault.audio_header_cut_short");
    } else if (fault == "tag") {
      static const int at[] = {0, 1, 2, 3, 8, 9, 10, 11, 12, 13, 14, 36, 37, 38, 39, 20};
      int64_t v = l.i("at");
      head[at[mod(v, 16)]] ^= (char)(1 << mod(v / 16, 7));
      e.bad = true;
      count("fault.audio_header_damaged");
    } else if (fault == "format") {
      switch (mod(l.i("which"), 4)) {
        case 0: head = model::wav_header(24, total); break;
        case 1: head = model::wav_header(a.bits, total, 1, 8000); break;
        case 2: head = model::wav_header(a.bits, total, 1, 44100); break;
        default: head = model::wav_header(64, total); break;
      }
      e.bad = true;
      count("fault.unsupported_audio_format");
    } else if (fault == "open") {
      static const int errs[] = {ENOENT, EACCES, EMFILE, EIO};
      io::add_fault(e.path, "open", 0, 0, errs[mod(l.i("err"), 4)]);
      e.bad = true;
    } else if (fault == "eio") {
      int64_t at = (int64_t)(std::max(0.0, std::min(1.0, l.f("at"))) * (head.size() + body.size()));
      io::add_fault(e.path, "eio", at, mod(l.i("times"), 3), EIO);
      e.bad = true;
      e.eio = true;
      e.why = "read error at byte " + std::to_string(at) + " of " + std::to_string(head.size() + body.size());
    }
    if (e.why.empty()) e.why = fault;
    if (mod(l.i("seed"), 7) != 0 || fault != "open") io::put(e.path, head + body);
    es.push_back(e);
    au.push_back(a);
    tot.push_back(total);
  }
  // what decoding each file alone gives
  for (size_t i = 0; i < es.size(); ++i)
    if (!es[i].bad) {
      es[i].want = pristine([&]() { mem::fill(0, 0); io::clear_faults(); return decode(must_load(m.conf()), au[i], {tot[i]}).hyp; });
      count("audio_samples_simulated", tot[i] / au[i].bps());
    }
  // a long list: the same files over and over, with few file handles to spare
  const Line *many = find(p, "many");
  if (many && !es.empty() && !single) {
    size_t n = es.size(), want = (size_t)std::max<int64_t>(1, std::min<int64_t>(200, many->i("lines", 20)));
    for (size_t i = n; i < want; ++i) {
      Entry e = es[i % n];
      e.name = "m" + std::to_string(i);
      es.push_back(e);
    }
    if (n < want) count("long_lists");
  }
  const Line *fl = find(p, "fill");
  mem::fill(fl ? (int)fl->i("mode", 2) : 2, fl ? fl->i("seed", 1) : 1);
  // the list
  std::string list;
  const Line *bad = find(p, "badline");
  int64_t bad_after = bad ? mod(bad->i("after"), (int64_t)es.size() + 1) : -1;
  int eol = (int)mod(scpl.i("eol"), 3);
  Rng lr(scpl.i("seed", 1));
  size_t nlines = es.size() + (bad ? 1 : 0), k = 0;
  auto put_line = [&](const std::string &s) {
    list += s;
    ++k;
    if (k == nlines && scpl.i("nonl")) return;
    list += eol == 0 || (eol == 2 && lr.chance(0.5)) ? "\n" : "\r\n";
  };
  for (size_t i = 0; i <= es.size(); ++i) {
    if ((int64_t)i == bad_after) put_line(bad->i("fields") == 3 ? "x y z" : "lonely");
    if (i < es.size()) put_line(es[i].name + " " + es[i].path);
  }
  std::string scp = "/cesim/a/list.scp";
  io::put(scp, list);
  const Line *sf = find(p, "scpfault");
  int64_t scp_eio = -1;
  bool scp_open = false;
  if (sf && !single) {
    if (sf->s("kind") == "open") { io::add_fault(scp, "open", 0, 0, EACCES); scp_open = true; }
    else {
      scp_eio = (int64_t)(std::max(0.0, std::min(1.0, sf->f("at"))) * list.size());
      io::add_fault(scp, "eio", scp_eio, mod(sf->i("times"), 3), EIO);
    }
  }
  const Line *mf = find(p, "modelfault");
  if (mf) {
    static const char *F[] = {"model.conf", "HCLG.fst", "nnet.bin", "prior.bin", "tid2pdf.bin", "words.txt"};
    io::add_fault(m.dir + F[mod(mf->i("file"), 6)], mf->i("how") ? "open" : "eio", mf->i("how") ? 0 : 5, 0, EIO);
  }
  if (const Line *sh = find(p, "short")) io::short_reads((int)std::max<int64_t>(1, sh->i("max", 1)), sh->i("seed"));
  if (single && es.empty()) { nontrivial(); return; }
  std::vector<std::string> args = {m.conf(), single ? es[0].path : scp};
  if (scpl.has("args") && scpl.i("args") != 2) {
    args.clear();
    for (int i = 0; i < mod(scpl.i("args"), 5); ++i) args.push_back(i ? scp : m.conf());
    if (args.size() != 2) {
      Cli c = run_cli(args);
      if (c.status == 0) fail("usage", "%zu arguments: exit status 0", args.size());
      nontrivial();
      return;
    }
    args[1] = single ? es[0].path : scp;
  }
  // the output that an intact run gives, and how much of it can be written
  std::string whole;
  if (single) whole = es[0].want + "\n";
  else for (auto &e : es) whole += e.name + " " + e.want + "\n";
  int64_t room = -1;
  if (const Line *of = find(p, "outfault")) {
    double at = std::max(0.0, std::min(1.0, of->f("at")));
    room = at >= 1 ? (int64_t)whole.size() - mod(of->i("less"), 3) : (int64_t)(at * whole.size());
    room = std::max<int64_t>(0, room);
  }
  if (many) { io::limit_handles((int)std::max<int64_t>(12, std::min<int64_t>(1000, many->i("handles", 16)))); count("fault.few_file_handles"); }
  Cli c = run_cli(args, room);
  io::limit_handles(0);
  count("programs_run");
  bool full = room >= 0 && room < (int64_t)whole.size();
  if (full) count("fault.output_cannot_be_written");
  ev("exit %d %llx", c.status, (unsigned long long)fnv(c.out));
  state(fnv(c.out) ^ c.status);
  nontrivial();
  if (mf || scp_open) {
    if (c.status == 0) fail("fault-hidden", "%s cannot be read, and the exit status is 0; output: %s", mf ? "a model file" : "the list", cut(c.out).c_str());
    for (auto &e : es)
      if (("\n" + c.out).find("\n" + e.name + " ") != std::string::npos) fail("phantom-line", "%s cannot be read, but there is a line for %s: %s", mf ? "a model file" : "the list", e.name.c_str(), cut(c.out).c_str());
    return;
  }
  if (single) {
    Entry &e = es[0];
    if (e.bad) {
      if (c.status == 0) fail("fault-hidden", "one file with fault \"%s\": exit status 0, output: %s", e.why.c_str(), cut(c.out).c_str());
      return;
    }
    if (full) {
      if (c.status == 0) fail("lost-output", "only %lld bytes of the output can be written, and the exit status is 0; written: \"%s\"", (long long)room, cut(c.out).c_str());
      if (whole.compare(0, c.out.size(), c.out) != 0) fail("transcript", "one file, output cut at %lld bytes: \"%s\", alone it decodes to \"%s\"", (long long)room, cut(c.out).c_str(), e.want.c_str());
      return;
    }
    if (c.status != 0) fail("good-file-refused", "one intact file: exit status %d, output: %s", c.status, cut(c.out).c_str());
    if (c.out != e.want + "\n") fail("transcript", "one file: output \"%s\", alone it decodes to \"%s\"", cut(c.out).c_str(), e.want.c_str());
    return;
  }
  // expected lines until the first thing that is wrong
  std::string want;
  size_t stop = es.size();
  std::string why;
  bool wrong = false;
  // a read error in the list leaves the number of lines seen before it open (reads are buffered)
  size_t sure = es.size();
  if (scp_eio >= 0) { wrong = true; why = "a read error in the list at byte " + std::to_string(scp_eio); sure = 0; }
  for (size_t i = 0; i < es.size(); ++i) {
    if ((int64_t)i == bad_after) { wrong = true; if (why.empty()) why = "a line of the list is malformed"; stop = i; break; }
    if (es[i].bad) { wrong = true; if (why.empty()) why = es[i].name + ": " + es[i].why; stop = i; break; }
    want += es[i].name + " " + es[i].want + "\n";
  }
  if (bad && (size_t)bad_after == es.size() && stop == es.size()) { wrong = true; if (why.empty()) why = "the last line of the list is malformed"; }
  if (wrong && c.status == 0) fail("fault-hidden", "%s, and the exit status is 0; output: %s", why.c_str(), cut(c.out).c_str());
  if (full || (room >= 0 && wrong)) {
    if (!wrong && c.status == 0) fail("lost-output", "only %lld bytes of the output can be written, and the exit status is 0; written: \"%s\"", (long long)room, cut(c.out).c_str());
    size_t n = std::min(c.out.size(), want.size());
    if (sure == es.size() && c.out.compare(0, n, want, 0, n) != 0) fail("earlier-lines", "output cut at %lld bytes: \"%s\" instead of \"%s\"", (long long)room, cut(c.out, 700).c_str(), cut(want, 700).c_str());
    return;
  }
  if (!wrong && c.status != 0) fail("good-list-refused", "an intact list of %zu: exit status %d, output: %s", es.size(), c.status, cut(c.out).c_str());
  if (!wrong && c.out != want) fail("lines", "an intact list of %zu files: output \"%s\" instead of \"%s\"", es.size(), cut(c.out, 700).c_str(), cut(want, 700).c_str());
  if (wrong && sure == es.size() && c.out.compare(0, want.size(), want) != 0)
    fail("earlier-lines", "%s; the lines before it are \"%s\" instead of \"%s\"", why.c_str(), cut(c.out, 700).c_str(), cut(want, 700).c_str());
  // every line that names an entry is that entry's, in order, and none is a faulty entry's
  size_t pos = 0, next = 0;
  int64_t lines = 0;
  while (pos < c.out.size()) {
    size_t e = c.out.find('\n', pos);
    std::string line = c.out.substr(pos, e == std::string::npos ? e : e - pos);
    pos = e == std::string::npos ? c.out.size() : e + 1;
    for (size_t i = 0; i < es.size(); ++i)
      if (line.compare(0, es[i].name.size() + 1, es[i].name + " ") == 0) {
        if (i < next) fail("order", "the line of %s comes twice or out of order", es[i].name.c_str());
        if (es[i].bad) fail("phantom-line", "%s (%s) has a line: %s", es[i].name.c_str(), es[i].why.c_str(), cut(line).c_str());
        if (line != es[i].name + " " + es[i].want) fail("transcript", "the line of %s is \"%s\"; alone it decodes to \"%s\"", es[i].name.c_str(), cut(line).c_str(), es[i].want.c_str());
        if (i > next && sure == 0) fail("order", "entries before %s have no line", es[i].name.c_str());
        next = i + 1;
        ++lines;
      }
  }
  count("lines_printed", lines);
}
static Reg c19({"C19", c19_gen, c19_run,
  "lists of 0-6 audio files (0-16 thorough) in random layouts with missing files, cut, damaged and unsupported headers, read errors at any byte once or for good in audio files, list and model files, malformed lines, "
  "short reads, few file handles, output that cannot be written in full; the whole program is run; non-trivial: every run of the program"});

// ---------------------------------------------------------------- C20
// A graph with one word per state, so that a transcript spells the whole word list
void c20_gen(Rng &r, Plan &p, const Tier &t) {
  Line m("model");
  m.set("seed", (int64_t)r.n(1000000)).set("words", r.chance(0.2) ? r.range(20, 60) : r.range(1, 12)).set("L", (int)r.n(3)).set("R", (int)r.n(3)).set("chunk", r.range(1, 20)).set("pdfs", 4);
  p.push_back(m);
  p.push_back(Line("fill").set("mode", (int)r.n(5)).set("seed", (int64_t)r.n(1000000)));
  int n = r.range(0, 3);
  for (int i = 0; i < n; ++i) p.push_back(Line("longword").set("word", (int)r.n(60)).set("line", r.chance(0.7) ? 4095 * (int)r.range(1, 3) + r.range(-4, 4) : r.range(1, 12000)));
  n = r.range(0, 4);
  for (int i = 0; i < n; ++i) {
    Line l("deco");
    l.set("at", (int)r.n(12)).set("kind", (int)r.n(3)).set("line", r.chance(0.6) ? 4095 * (int)r.range(1, 2) + r.range(-4, 4) : r.range(1, 300));
    p.push_back(l);
  }
  if (r.chance(0.25)) p.push_back(Line("longpath").set("line", 4095 * (int)r.range(1, 2) + r.range(-4, 4)).set("file", (int)r.n(5)));
  n = r.range(2, t.thorough ? 8 : 5);
  for (int i = 0; i < n; ++i) {
    Line l("read");
    l.set("eol", (int)r.n(3)).set("nonl", (int)r.n(2)).set("seed", (int64_t)r.n(1000000)).set("space", (int)r.n(3)).set("shuffle", (int)r.n(2));
    if (r.chance(0.6)) { static const int mx[] = {1, 2, 3, 5, 16, 100, 1000, 4095, 4096, 5000}; l.set("short", mx[r.n(10)]); }
    double u = r.unit();
    if (u < 0.3) l.set("eio", r.chance(0.25) ? 1.0 : r.unit()).set("file", (int)r.n(3)).set("times", (int)r.n(3));
    else if (u < 0.5) l.set("bad", (int)r.n(8)).set("where", (int)r.n(60)).set("file", (int)r.n(3));
    else if (u < 0.58) l.set("zero", r.chance(0.25) ? 1.0 : r.unit()).set("zlen", r.chance(0.3) ? 4096 : r.range(1, 200)).set("file", (int)r.n(3));
    if (l.i("file") == 2 || r.chance(0.3)) l.set("list", r.range(1, 4)).set("namelen", r.chance(0.5) ? 4095 * (int)r.range(1, 2) + r.range(-4, 4) : r.range(1, 200));
    p.push_back(l);
  }
}
// one text file: lines, layout
std::string lay(const std::vector<std::string> &lines, const Line &l, int salt) {
  Rng r(l.i("seed", 1) * 3 + salt);
  int eol = (int)mod(l.i("eol"), 3);
  std::string s;
  for (size_t i = 0; i < lines.size(); ++i) {
    s += lines[i];
    if (i + 1 == lines.size() && l.i("nonl")) break;
    s += eol == 0 || (eol == 2 && r.chance(0.5)) ? "\n" : "\r\n";
  }
  return s;
}
void c20_run(const Plan &p) {
  const Line *ml = find(p, "model");
  model::Model m = model::make(ml ? *ml : Line("model"));
  // graph
  std::vector<int> real;
  for (int i = 1; i < (int)m.words.size(); ++i) if (i != m.bos && i != m.eos) real.push_back(i);
  model::Hclg g;
  g.arcs.resize(real.size() + 1);
  g.fin.assign(real.size() + 1, INFINITY);
  for (size_t i = 0; i < real.size(); ++i) {
    g.arcs[i].push_back({1, 0, 0.0f, (int)i});
    g.arcs[i].push_back({1, real[i], 0.0f, (int)i + 1});
  }
  g.arcs.back().push_back({1, 0, 0.0f, (int)real.size()});
  g.fin.back() = 0;
  m.g = g;
  m.has_lm = false;
  for (auto &l : p)
    if (l.op == "longword") {
      int id = real[mod(l.i("word"), (int64_t)real.size())];
      // the whole line (word, blank, id) has the given length
      int64_t len = std::max<int64_t>(1, std::min<int64_t>(20000, l.i("line", 10))) - 1 - (int64_t)std::to_string(id).size();
      std::string w = m.words[id];
      while ((int64_t)w.size() < len) w += (char)('a' + (w.size() * 7 + id) % 26);
      m.words[id] = w;
    }
  m.install("/cesim/m/");
  std::string want;
  for (int id : real) { if (!want.empty()) want += " "; want += m.words[id]; }
  model::Audio a(Line("audio").set("seed", 5));
  int64_t total = 2 * (400 + 160 * (int64_t)(real.size() + 6));
  std::string wav = model::wav_header(16, total) + a.bytes(0, total);
  io::put("/cesim/a.wav", wav);

  // files referenced with a long path
  std::vector<std::pair<std::string, std::string>> conf = {
      {"fst", "HCLG.fst"}, {"nnet", "nnet.bin"}, {"prior", "prior.bin"}, {"tid2pdf", "tid2pdf.bin"}, {"symbol_table", "words.txt"},
      {"left_context", std::to_string(m.L)}, {"right_context", std::to_string(m.R)}, {"chunk_size", std::to_string(m.chunk)}, {"num_pdfs", std::to_string(m.P)}};
  if (const Line *lp = find(p, "longpath")) {
    auto &kv = conf[mod(lp->i("file"), 5)];
    int64_t len = std::max<int64_t>(1, std::min<int64_t>(10000, lp->i("line", 10))) - (int64_t)kv.first.size() - 1 - (int64_t)kv.second.size() - 7;
    std::string d = "/cesim/";
    while (len-- > 0) d += (char)('a' + len % 26);
    d += kv.second;
    io::put(d, io::get("/cesim/m/" + kv.second));
    kv.second = d;
  }
  std::string words_path = conf[4].second[0] == '/' ? conf[4].second : "/cesim/m/" + conf[4].second;

  const Line *fl = find(p, "fill");
  mem::fill(fl ? (int)fl->i("mode", 2) : 2, fl ? fl->i("seed", 1) : 1);
  uint64_t h = 0;
  int64_t good = 0, refused = 0;
  for (size_t q = 0; q < p.size(); ++q) {
    const Line &l = p[q];
    if (l.op != "read") continue;
    Rng r(l.i("seed", 1));
    bool list = l.has("list");
    int file = (int)mod(l.i("file"), list ? 3 : 2);    // configuration, words, list
    // configuration
    std::vector<std::string> cl;
    int sp = (int)mod(l.i("space"), 3);
    for (auto &kv : conf) {
      std::string k = kv.first;
      if (sp == 2) for (auto &c : k) if (r.chance(0.5)) c = (char)toupper(c);
      cl.push_back(sp == 0 ? k + "=" + kv.second : sp == 1 ? k + " = " + kv.second : std::string(r.n(3), ' ') + k + std::string(r.n(3), '\t') + "=" + std::string(r.n(3), ' ') + kv.second + std::string(r.n(3), ' '));
    }
    if (l.i("shuffle")) for (size_t i = cl.size() - 1; i > 0; --i) std::swap(cl[i], cl[r.n(i + 1)]);
    for (auto &d : p)
      if (d.op == "deco") {
        std::string s;
        int64_t len = std::max<int64_t>(0, std::min<int64_t>(10000, d.i("line")));
        if (mod(d.i("kind"), 3) == 0) { s = "#"; while ((int64_t)s.size() < len) s += "= fst=nothing.fst x"[s.size() % 19]; s.resize(std::max<int64_t>(1, len)); }
        else if (mod(d.i("kind"), 3) == 1) s = std::string(len, ' ');
        cl.insert(cl.begin() + mod(d.i("at"), (int64_t)cl.size() + 1), s);
      }
    // words
    std::vector<std::string> wl;
    for (size_t i = 0; i < m.words.size(); ++i) wl.push_back(m.words[i] + " " + std::to_string(i));
    if (l.i("shuffle")) for (size_t i = wl.size() - 1; i > 0; --i) std::swap(wl[i], wl[r.n(i + 1)]);
    // list
    std::vector<std::string> sl, names;
    for (int i = 0; i < std::min<int64_t>(8, l.i("list")); ++i) {
      std::string n = "n" + std::to_string(i);
      int64_t len = std::max<int64_t>(1, std::min<int64_t>(10000, l.i("namelen", 3))) - 1 - 12;
      while ((int64_t)n.size() < len) n += (char)('a' + (n.size() * 11 + i) % 26);
      names.push_back(n);
      sl.push_back(n + " /cesim/a.wav");
    }
    bool bad = l.has("bad");
    std::string what = "intact";
    size_t bad_at = 0;
    if (bad) {
      std::vector<std::string> &v = file == 0 ? cl : file == 1 ? wl : sl;
      bad_at = (size_t)mod(l.i("where"), (int64_t)v.size() + 1);
      static const char *C[] = {"beam", "beam 12", "beam=", "a=b=c", "# x\rbeam", "=", "beam = ", "x"};
      static const char *W[] = {"", "two words 7", "name x7", "name 7x", "name -1", "name 99999999999999999999", "name 2147483648", "name ?"};
      static const char *S[] = {"", "two words 7", "x y z", "a  b", "q r s t", "lonely", "u v w", "single"};
      std::string s = file == 0 ? C[mod(l.i("bad"), 8)] : file == 1 ? W[mod(l.i("bad"), 8)] : S[mod(l.i("bad"), 8)];
      if (file == 0 && mod(l.i("bad"), 8) == 4) s = "beam";
      if (s.empty() && bad_at == v.size() && bad_at > 0) --bad_at;   // (an empty last line need not be a line)
      v.insert(v.begin() + bad_at, s);
      what = "malformed line \"" + s + "\"";
      count("fault.malformed_line");
    }
    std::string ct = lay(cl, l, 1), wt = lay(wl, l, 2), st = lay(sl, l, 3);
    io::put("/cesim/m/model.conf", ct);
    io::put(words_path, wt);
    io::put("/cesim/list.scp", st);
    bool eio = l.has("eio") && !bad;
    if (eio) {
      std::string path = file == 0 ? "/cesim/m/model.conf" : file == 1 ? words_path : "/cesim/list.scp";
      int64_t at = (int64_t)(std::max(0.0, std::min(1.0, l.f("eio"))) * io::get(path).size());
      io::add_fault(path, "eio", at, mod(l.i("times"), 3), EIO);
      what = "read error at byte " + std::to_string(at) + " of " + std::to_string(io::get(path).size());
    }
    bool zero = l.has("zero") && !bad && !eio;
    if (zero) {   // what a crash leaves of a block that was never written
      std::string path = file == 0 ? "/cesim/m/model.conf" : file == 1 ? words_path : "/cesim/list.scp", s = io::get(path);
      size_t at = std::min<size_t>(s.empty() ? 0 : s.size() - 1, (size_t)(std::max(0.0, std::min(1.0, l.f("zero"))) * s.size()));
      size_t len = (size_t)std::max<int64_t>(1, std::min<int64_t>(8192, l.i("zlen", 1)));
      if (s.empty()) zero = false;
      else {
        std::fill(s.begin() + at, s.begin() + std::min(s.size(), at + len), '\0');
        io::put(path, s);
        what = "zeros from byte " + std::to_string(at) + " of " + std::to_string(s.size());
        count("fault.block_of_zeros");
      }
    }
    static const char *FN[] = {"the configuration", "the word list", "the file list"};
    what += std::string(bad || eio || zero ? " in " : ", ") + (bad || eio || zero ? FN[file] : "");
    char lt[120];
    snprintf(lt, sizeof lt, "(line ends %lld, %s final newline, reads of at most %lld)", (long long)mod(l.i("eol"), 3), l.i("nonl") ? "no" : "with a", (long long)l.i("short"));
    what += lt;
    if (l.i("short") > 0) io::short_reads((int)l.i("short"), l.i("seed"));
    bool must_fail = (bad || eio || zero);
    if (!list) {
      ce_stt_t *rec = load("/cesim/m/model.conf");
      if (must_fail) {
        if (rec) fail("error-hidden", "%s: a recognizer is returned", what.c_str());
        if (last_error().empty()) fail("no-message", "%s: loading fails without a message", what.c_str());
        ++refused;
      } else {
        if (!rec) fail("layout-refused", "%s: loading fails: %s", what.c_str(), last_error().c_str());
        std::string got = decode1(rec, a, total).hyp;
        if (got != want) fail("layout-differs", "%s: the words read are \"%s\" instead of \"%s\"", what.c_str(), cut(got, 700).c_str(), cut(want, 700).c_str());
        unload(rec);
        ++good;
      }
    } else {
      Cli c = run_cli({"/cesim/m/model.conf", "/cesim/list.scp"});
      std::string lines;
      for (auto &n : names) lines += n + " " + want + "\n";
      if (must_fail) {
        if (c.status == 0) fail("error-hidden", "%s: the program exits with status 0", what.c_str());
        if (bad && file == 2) {
          std::string first;
          for (size_t i = 0; i < bad_at && i < names.size(); ++i) first += names[i] + " " + want + "\n";
          if (c.out.compare(0, first.size(), first) != 0) fail("layout-differs", "%s: the lines before it are \"%s\"", what.c_str(), cut(c.out, 700).c_str());
        }
        ++refused;
      } else {
        if (c.status != 0) fail("layout-refused", "%s: the program exits with status %d: %s", what.c_str(), c.status, cut(c.out, 700).c_str());
        if (c.out != lines) fail("layout-differs", "%s: the program prints \"%s\" instead of \"%s\"", what.c_str(), cut(c.out, 700).c_str(), cut(lines, 700).c_str());
        ++good;
      }
      ev("cli %d %llx", c.status, (unsigned long long)fnv(c.out));
    }
    ev("read %zu %lld %lld", q, (long long)good, (long long)refused);
    io::clear_faults();
    io::short_reads(0, 0);
    h = mix(h ^ fnv(l.str()));
  }
  count("accepted", good);
  count("refused", refused);
  if (good + refused > 0) nontrivial();
  state(h ^ fnv(want));
}
static Reg c20({"C20", c20_gen, c20_run,
  "word lists, configurations and file lists in random layouts (LF, CRLF or mixed, with and without final newline, shuffled lines, comments, blanks, lines around multiples of the reader's 4096-byte piece), "
  "short reads, read errors at any byte, malformed lines, blocks of zeros; a transcript that spells the whole list against the expected text; non-trivial: at least one load"});
}  // namespace
