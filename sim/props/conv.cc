// C24: the model converters: lossless, and a failed conversion is never mistaken for a model.
// The converters are processes of their own: the preloaded shim (conv/shim.c) is their I/O seam.
#include "../sim.h"
#include "../model.h"
#include "am.h"
#include "nnet.h"
#include "fst.h"
#include "vector.h"
#include "configuration.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <memory>
using namespace sim;
using namespace pocketkaldi;

namespace {
int clampi(int64_t v, int lo, int hi) { return (int)std::max<int64_t>(lo, std::min<int64_t>(hi, v)); }

// ------------------------------------------------------------- real files, below a private directory
struct Scratch {
  std::string dir;
  Scratch() {
    char t[] = "/tmp/cesim-conv-XXXXXX";
    if (!mkdtemp(t)) broken("mkdtemp");
    dir = t;
    mkdir((dir + "/d").c_str(), 0755);
  }
  std::string d() const { return dir + "/d"; }
  void clear() {
    for (std::string p : {dir + "/d", dir}) {
      DIR *h = opendir(p.c_str());
      if (!h) continue;
      while (dirent *e = readdir(h)) if (e->d_name[0] != '.') unlink((p + "/" + e->d_name).c_str());
      closedir(h);
      rmdir(p.c_str());
    }
  }
};
void spill(const std::string &p, const std::string &s) {
  int fd = (int)syscall(SYS_openat, AT_FDCWD, p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) broken("cannot write %s", p.c_str());
  size_t o = 0;
  while (o < s.size()) { ssize_t k = syscall(SYS_write, fd, s.data() + o, s.size() - o); if (k <= 0) broken("write %s", p.c_str()); o += k; }
  syscall(SYS_close, fd);
}
struct Blob { bool there = false; std::string b; };
Blob slurp(const std::string &p) {
  Blob r;
  int fd = (int)syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY);
  if (fd < 0) return r;
  r.there = true;
  char buf[65536];
  ssize_t k;
  while ((k = syscall(SYS_read, fd, buf, sizeof buf)) > 0) r.b.append(buf, k);
  syscall(SYS_close, fd);
  return r;
}

struct Attempt {
  Line conv;
  std::vector<Line> faults;
  const Line *cut = nullptr;
};
struct Outcome { int exit_code = 0, sig = 0; std::map<std::string, int> fired; };

// Runs one converter to its end. Everything about it (environment, faults) is decided here.
Outcome run_tool(const Scratch &s, const std::string &tool, const std::vector<std::string> &args, const std::vector<Line> &faults, uint64_t seed,
                 const std::string &in = "/dev/null", const std::string &out = "/dev/null") {
  std::string fs;
  for (auto &f : faults) {
    std::string k = f.s("kind");
    if (k != "full" && k != "short" && k != "eintr" && k != "crash" && k != "open" && k != "close" && k != "rerr" && k != "meta") continue;
    static const int errs[] = {ENOSPC, EIO, EDQUOT, EACCES, EMFILE, ENFILE};
    char b[160];
    snprintf(b, sizeof b, "%s:%lld:%d:%lld:%d;", k.c_str(), (long long)std::max<int64_t>(0, f.i("at")), errs[clampi(f.i("err"), 0, 5)],
             (long long)std::max<int64_t>(0, f.i("times")), clampi(f.i("max", 7), 1, 4096));
    fs += b;
  }
  std::string report = s.dir + "/report";
  unlink(report.c_str());
  std::vector<std::string> env = {"PATH=/usr/local/bin:/usr/bin:/bin", "HOME=" + s.dir, "LC_ALL=C.UTF-8", "PYTHONHASHSEED=0", "OPENBLAS_NUM_THREADS=1", "OMP_NUM_THREADS=1",
                                  std::string("PYTHONPATH=") + CESIM_STUB, std::string("LD_PRELOAD=") + CESIM_SHIM, "CONV_DIR=" + s.d(), "CONV_REPORT=" + report,
                                  "CONV_SEED=" + std::to_string(seed % 1000000007), "CONV_FAULTS=" + fs};
  if (out != "/dev/null") env.push_back("CONV_FD1=1");
  std::vector<std::string> av = {CESIM_PYTHON, "-S", "-B", std::string(CESIM_TOOLS) + "/" + tool};
  for (auto &a : args) av.push_back(a);
  std::vector<char *> a, e;
  for (auto &x : av) a.push_back(const_cast<char *>(x.c_str()));
  for (auto &x : env) e.push_back(const_cast<char *>(x.c_str()));
  a.push_back(nullptr);
  e.push_back(nullptr);
  pid_t pid = fork();
  if (pid < 0) broken("fork");
  if (pid == 0) {
    int i = (int)syscall(SYS_openat, AT_FDCWD, in.c_str(), O_RDONLY);
    int o = (int)syscall(SYS_openat, AT_FDCWD, out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    int n = (int)syscall(SYS_openat, AT_FDCWD, getenv("CESIM_CONV_STDERR") ? "/dev/tty" : "/dev/null", O_WRONLY);
    dup2(i, 0);
    dup2(o, 1);
    if (!getenv("CESIM_CONV_STDERR")) dup2(n, 2);
    for (int k = 3; k < 64; ++k) syscall(SYS_close, k);
    alarm(100);
    if (chdir(s.dir.c_str())) _exit(121);
    execve(a[0], a.data(), e.data());
    _exit(121);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Outcome r;
  if (WIFEXITED(st)) r.exit_code = WEXITSTATUS(st);
  else r.sig = WTERMSIG(st);
  if (r.exit_code == 121) broken("cannot start %s", CESIM_PYTHON);
  std::string rep = slurp(report).b;
  for (size_t p = 0; p < rep.size();) {
    size_t q = rep.find('\n', p);
    if (q == std::string::npos) break;
    ++r.fired[rep.substr(p, q - p)];
    p = q + 1;
  }
  for (auto &f : r.fired) count(("fault." + f.first).c_str(), f.second);
  return r;
}

// ------------------------------------------------------------- drawn inputs
// A number as the tools that write these texts print it, and its value
std::string num(Rng &r, double v) {
  char b[64];
  switch (r.n(6)) {
    case 0: snprintf(b, sizeof b, "%.4f", v); break;
    case 1: snprintf(b, sizeof b, "%.9g", v); break;
    case 2: snprintf(b, sizeof b, "%.3e", v); break;
    default: snprintf(b, sizeof b, "%.7g", v);
  }
  return b;
}
std::string plain(Rng &r, double v) {   // without an exponent sign: what the scalar reader takes
  (void)r;
  char b[64];
  snprintf(b, sizeof b, "%.6g", v);
  return b;
}

struct Job {
  std::string kind, text, vocab;
  int64_t announced = 0;                // an input cut before this byte has lost something it announced
  std::vector<int> ints;                // trans
  std::vector<float> floats;            // cmvn, unigram
  model::Model m;                       // am
  model::Hclg g;                        // fst
  int64_t expected = 0;                 // bytes of output, roughly
};
std::string vec_text(Rng &r, std::vector<float> &v, int n, double lo, double hi, bool positive = false) {
  std::string s = " [ ";
  for (int i = 0; i < n; ++i) {
    double x = lo + (hi - lo) * r.unit();
    std::string t = r.chance(0.03) ? "0" : r.chance(0.03) ? std::to_string((int)x) : r.chance(0.02) ? "1e-05" : num(r, x);
    if (positive && !(strtod(t.c_str(), nullptr) > 0)) t = num(r, hi);
    v.push_back((float)strtod(t.c_str(), nullptr));
    s += t + " ";
  }
  return s + "]\n";
}
void am_job(Rng &r, int size, Job *j) {
  model::Model &m = j->m;
  m.L = m.R = 0;
  m.chunk = r.range(1, 20);
  int blocks = r.range(1, 3), dim = 40;
  struct Comp { std::string name, body; };
  std::vector<Comp> comps;
  std::string desc = "input-node name=input dim=40\n", prev = "input";
  const char *sep = r.chance(0.3) ? "." : "_";
  for (int b = 0; b < blocks; ++b) {
    bool last = b == blocks - 1;
    std::string input = prev;
    if (r.chance(0.6)) {
      std::vector<int> idx;
      int lo = -(int)r.n(4), hi = (int)r.n(4);
      for (int k = lo; k <= hi; ++k) if (k == lo || k == hi || r.chance(0.5)) idx.push_back(k);
      if (idx.empty()) idx.push_back(0);
      if (r.chance(0.15)) for (size_t k = idx.size() - 1; k > 0; --k) std::swap(idx[k], idx[r.n(k + 1)]);
      input = "Append(";
      for (size_t k = 0; k < idx.size(); ++k) {
        if (k) input += r.chance(0.1) ? "," : ", ";
        input += idx[k] == 0 && r.chance(0.8) ? prev : "Offset(" + prev + ", " + std::to_string(idx[k]) + ")";
      }
      input += ")";
      model::Layer s, n;
      s.type = 6;
      s.idx = idx;
      n.type = 9;
      n.left = -std::min(0, *std::min_element(idx.begin(), idx.end()));
      n.right = std::max(0, *std::max_element(idx.begin(), idx.end()));
      m.layers.push_back(s);
      m.layers.push_back(n);
      m.L += n.left;
      m.R += n.right;
      dim *= (int)idx.size();
    }
    auto node = [&](const std::string &name, const std::string &in) {
      desc += "component-node name=" + name + " component=" + name + " input=" + in + "\n";
      prev = name;
    };
    int out = last ? r.range(2, 4 + size / 8) : r.range(1, 4 + size / 4);
    model::Layer a;
    a.type = 0;
    a.rows = dim;
    a.cols = out;
    a.W.resize((size_t)dim * out);
    std::string W = " [\n";
    double sc = 1.5 / sqrt((double)dim);
    for (int o = 0; o < out; ++o) {
      W += "  ";
      for (int i = 0; i < dim; ++i) {
        std::string t = r.chance(0.01) ? "0" : r.chance(0.01) ? "1.2e-06" : num(r, sc * r.gauss());
        a.W[(size_t)i * out + o] = (float)strtod(t.c_str(), nullptr);
        W += t + " ";
      }
      W += o == out - 1 ? "]\n" : "\n";
    }
    std::string nm = "affine" + std::string(sep) + std::to_string(b + 1);
    std::string B = vec_text(r, a.b, out, -1, 1);
    comps.push_back({nm, "<NaturalGradientAffineComponent> <MaxChange> 0.75 <LearningRate> 0.001 <LinearParams> " + W + "<BiasParams> " + B +
                             "<RankIn> 20 <RankOut> 80 <UpdatePeriod> 4 <NumSamplesHistory> 2000 <Alpha> 4 </NaturalGradientAffineComponent> \n"});
    node(nm, input);
    m.layers.push_back(a);
    dim = out;
    if (!last || r.chance(0.2)) {
      if (r.chance(0.8)) {
        nm = "relu" + std::string(sep) + std::to_string(b + 1);
        std::vector<float> avg;
        comps.push_back({nm, "<RectifiedLinearComponent> <Dim> " + std::to_string(dim) + " <ValueAvg> " + vec_text(r, avg, dim, 0, 1) + "<DerivAvg>  [ ]\n<Count> 0 </RectifiedLinearComponent> \n"});
        node(nm, prev);
        model::Layer y;
        y.type = 1;
        m.layers.push_back(y);
      }
      if (r.chance(0.6)) {
        nm = "bn" + std::string(sep) + std::to_string(b + 1);
        std::string eps = plain(r, r.chance(0.5) ? 0.001 : 0.01 * (1 + r.n(9))), rms = plain(r, r.chance(0.5) ? 1 : 0.1 * (1 + r.n(15)));
        std::vector<float> mean, var;
        std::string ms = vec_text(r, mean, dim, -1, 1), vs = vec_text(r, var, dim, 0.1, 3, true);
        comps.push_back({nm, "<BatchNormComponent> <Dim> " + std::to_string(dim) + " <BlockDim> " + std::to_string(dim) + " <Epsilon> " + eps + " <TargetRms> " + rms + " <TestMode> F <Count> 4000 <StatsMean> " + ms +
                                 "<StatsVar> " + vs + "</BatchNormComponent> \n"});
        node(nm, prev);
        model::Layer y;
        y.type = 7;
        for (int i = 0; i < dim; ++i) {
          double s = pow(var[i] + strtod(eps.c_str(), nullptr), -0.5) * strtod(rms.c_str(), nullptr);
          y.W.push_back((float)s);
          y.b.push_back((float)(-mean[i] * s));
        }
        m.layers.push_back(y);
      }
    }
    if (last && r.chance(0.7)) {
      nm = "logsoftmax";
      comps.push_back({nm, "<LogSoftmaxComponent> <Dim> " + std::to_string(dim) + " <ValueAvg>  [ ]\n<DerivAvg>  [ ]\n<Count> 0 </LogSoftmaxComponent> \n"});
      node(nm, prev);
      model::Layer y;
      y.type = 8;
      m.layers.push_back(y);
    }
  }
  m.P = dim;
  m.T = 4;
  m.words = {"<eps>", "a"};
  m.tid2pdf.assign(4, 0);
  m.g.fin.assign(1, 0);
  m.g.arcs.resize(1);
  desc += "output-node name=output input=" + prev + " objective=linear\n";
  if (r.chance(0.15)) for (size_t k = comps.size() - 1; k > 0; --k) std::swap(comps[k], comps[r.n(k + 1)]);
  std::string &t = j->text;
  if (r.chance(0.5)) t = "<TransitionModel> \n<Topology> \n</Topology> \n<Triples> 2 \n1 0 0 \n1 1 1 \n</Triples> \n<LogProbs> \n [ 0 -0.5 -0.9 ]\n</LogProbs> \n</TransitionModel> \n";
  t += "<Nnet3> \n" + desc + "\n<NumComponents> " + std::to_string(comps.size()) + " \n";
  for (auto &c : comps) t += "<ComponentName> " + c.name + " " + c.body;
  t += "</Nnet3> <LeftContext> " + std::to_string(m.L) + " <RightContext> " + std::to_string(m.R) + " <Priors> " + vec_text(r, m.prior, m.P, 0.01, 1, true);
  j->announced = (int64_t)t.size() - 1;   // up to and including the closing bracket
  j->expected = (int64_t)(m.nnet_bytes().size() + m.prior_bytes().size());
}
std::string word(Rng &r, int i) {
  static const char *const tails[] = {"", "\xe4\xbd\xa0\xe5\xa5\xbd", "'s", "\xc3\xa9", "-x", "(2)"};
  return "w" + std::to_string(i) + tails[r.chance(0.3) ? r.n(6) : 0];
}
void lm_job(Rng &r, int size, bool prune, Job *j) {
  int W = r.range(2, 3 + size * 20);
  std::vector<std::string> ws;
  for (int i = 0; i < W; ++i) ws.push_back(word(r, i));
  ws[0] = "<s>";
  ws[1] = "</s>";
  std::vector<int> id(W);
  int at = r.chance(0.7) ? 1 : 0;
  for (int i = 0; i < W; ++i) { id[i] = at; at += r.chance(0.03) ? 1 + (int)r.n(20) : 1; }
  if (r.chance(0.7)) for (int i = W - 1; i > 0; --i) std::swap(id[i], id[r.n(i + 1)]);
  bool in_arpa_all = r.chance(0.5);
  j->floats.assign(*std::max_element(id.begin(), id.end()) + 1, INFINITY);
  if (j->floats.size() > 1 && std::find(id.begin(), id.end(), 0) == id.end()) j->vocab = "<eps> 0\n";
  for (int i = 0; i < W; ++i) j->vocab += ws[i] + (r.chance(0.1) ? "\t" : " ") + std::to_string(id[i]) + "\n";
  std::string uni, big;
  int n = 0, nb = 0;
  for (int i = 0; i < W; ++i) {
    std::string p = i == 0 ? "-99" : num(r, -7 * r.unit());
    if (i >= 2 && !in_arpa_all && r.chance(0.1)) continue;
    j->floats[id[i]] = i == 0 ? 0.0f : (float)(-strtod(p.c_str(), nullptr) * 2.302585092994045684);
    uni += p + "\t" + ws[i] + (r.chance(0.5) ? "\t" + num(r, -r.unit()) : "") + "\n";
    ++n;
  }
  if (r.chance(0.4)) { uni += "-5.1\t<unk>\n"; ++n; }
  bool grams = r.chance(0.7);
  if (grams)
    for (int i = 0; i < 1 + W / 2; ++i) { big += num(r, -3 * r.unit()) + "\t" + ws[r.n(W)] + " " + ws[r.n(W)] + "\n"; ++nb; }
  std::string &t = j->text;
  if (prune && r.chance(0.3)) t += "iARPA\n";
  if (r.chance(0.5)) t += "\n";
  t += "\\data\\\nngram " + std::string(r.chance(0.5) ? "1=" : "1= ") + std::to_string(n) + "\n";
  if (grams) t += "ngram 2=" + std::to_string(nb) + "\n";
  t += "\n\\1-grams:\n" + uni + (r.chance(0.9) ? "\n" : "");
  if (grams) t += "\\2-grams:\n" + big + "\n";
  t += "\\end\\";
  j->announced = (int64_t)t.size();
  t += "\n";
  j->expected = prune ? (int64_t)(uni.size() * 2 / 3) : 12 + 4 * (int64_t)j->floats.size();
}
void fst_job(Rng &r, int size, Job *j) {
  int S = r.range(1, 2 + size * 3);
  model::Hclg &g = j->g;
  g.start = (int)r.n(S);
  g.fin.assign(S, INFINITY);
  g.arcs.resize(S);
  int V = r.range(1, 4 + size);
  std::string &t = j->text;
  t = "fst " + std::to_string(S) + " " + std::to_string(g.start) + "\n";
  int na = 0;
  for (int s = 0; s < S; ++s) {
    std::string f = "inf";
    if (r.chance(0.4)) { f = r.chance(0.3) ? "0" : num(r, 5 * r.unit() - 1); g.fin[s] = (float)strtod(f.c_str(), nullptr); }
    int k = r.chance(0.2) ? 0 : r.range(1, 6);
    t += "state " + f + " " + std::to_string(k) + "\n";
    for (int i = 0; i < k; ++i) {
      std::string w = r.chance(0.1) ? "0" : num(r, 8 * r.unit() - 2);
      model::Arc a;
      a.next = (int)r.n(S);
      a.il = (int)r.n(V + 1);
      a.ol = r.chance(0.5) ? 0 : (int)r.n(V + 1);
      a.w = (float)strtod(w.c_str(), nullptr);
      g.arcs[s].push_back(a);
      t += std::to_string(a.next) + " " + std::to_string(a.il) + " " + std::to_string(a.ol) + " " + w + " ;\n";
      ++na;
    }
  }
  t += "end\n";
  j->announced = (int64_t)t.size();
  j->expected = 48 + 8 * S + 16 * na;
}
Job make_job(const Line &l) {
  Job j;
  j.kind = l.s("kind", "trans");
  Rng r((uint64_t)l.i("seed", 1) * 2654435761u + 17);
  int size = clampi(l.i("size", 10), 1, 200);
  if (j.kind == "am") am_job(r, std::min(size, 100), &j);
  else if (j.kind == "unigram" || j.kind == "prune") lm_job(r, size, j.kind == "prune", &j);
  else if (j.kind == "fst") fst_job(r, size, &j);
  else if (j.kind == "cmvn") {
    j.text = " [\n";
    for (int row = 0; row < 2; ++row) {
      j.text += "  ";
      for (int i = 0; i < 41; ++i) {
        std::string t = i == 40 ? (row ? "0" : num(r, 1e5 * r.unit())) : num(r, (row ? 1e8 : 1e6) * (r.unit() - 0.3));
        if (row == 0) j.floats.push_back((float)strtod(t.c_str(), nullptr));
        j.text += t + " ";
      }
      if (row == 0) j.text += "\n";
    }
    j.announced = (int64_t)j.text.size() - 2;   // within the last number nothing is lost that is kept
    j.text += "]\n";
    j.expected = 12 + 4 * 41;
  } else {
    j.kind = "trans";
    int n = r.range(1, 2 + size * 25), pdfs = r.range(1, 1 + size * 30);
    j.text = std::to_string(pdfs) + "\n" + std::to_string(n) + "\n";
    for (int t = 0; t <= n; ++t) {
      j.ints.push_back(t == 0 && r.chance(0.5) ? -1 : (int)r.n(pdfs));
      j.text += std::to_string(t) + " ";
      j.announced = (int64_t)j.text.size();   // the last line's number cannot be told from a shorter one
      j.text += std::to_string(j.ints.back()) + "\n";
    }
    j.expected = 12 + 4 * (n + 1);
  }
  return j;
}

// ------------------------------------------------------------- what an output file is
enum What { REFUSED, EXACT, OTHER };
std::string g_why;
bool close_to(float a, float b) {
  if (a == b || (std::isinf(a) && std::isinf(b) && (a > 0) == (b > 0))) return true;
  if (!std::isfinite(a) || !std::isfinite(b)) return false;
  return fabs((double)a - b) <= 2e-7 * std::max(fabs((double)a), fabs((double)b)) + 1e-44;
}
template <class T> What read_vector(const std::string &bytes, const std::vector<T> &want) {
  io::put("/cesim/c/v.bin", bytes);
  mem::Sut s;
  util::ReadableFile fd;
  Vector<T> v;
  if (!fd.Open("/cesim/c/v.bin").ok()) return REFUSED;
  if (!v.Read(&fd).ok()) return REFUSED;
  char b[200];
  if (v.Dim() != (int)want.size()) {
    snprintf(b, sizeof b, "%d values instead of %zu", v.Dim(), want.size());
    g_why = b;
    return OTHER;
  }
  for (int i = 0; i < v.Dim(); ++i)
    if (!close_to((float)v(i), (float)want[i])) {
      snprintf(b, sizeof b, "value %d is %.9g instead of %.9g", i, (double)v(i), (double)want[i]);
      g_why = b;
      return OTHER;
    }
  return EXACT;
}
What read_fst(const std::string &bytes, const model::Hclg &g) {
  io::put("/cesim/c/g.bin", bytes);
  mem::Sut s;
  util::ReadableFile fd;
  Fst f;
  if (!fd.Open("/cesim/c/g.bin").ok()) return REFUSED;
  if (!f.Read(&fd).ok()) return REFUSED;
  char b[200];
  if (f.StartState() != g.start) { g_why = "another start state"; return OTHER; }
  typedef std::pair<std::pair<int, int>, std::pair<int, float>> A;
  for (size_t k = 0; k < g.fin.size(); ++k) {
    if (!close_to(f.Final((int)k), g.fin[k])) {
      snprintf(b, sizeof b, "final cost of state %zu is %.9g instead of %.9g", k, f.Final((int)k), g.fin[k]);
      g_why = b;
      return OTHER;
    }
    std::vector<A> got, want;
    for (auto &a : g.arcs[k]) want.push_back({{a.il, a.ol}, {a.next, a.w}});
    Fst::ArcIterator it = f.IterateArcs((int)k);
    while (const FstArc *a = it.Next()) {
      got.push_back({{a->input_label, a->output_label}, {a->next_state, a->weight}});
      if (got.size() > 100000) break;
    }
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    bool same = got.size() == want.size();
    for (size_t i = 0; same && i < got.size(); ++i)
      same = got[i].first == want[i].first && got[i].second.first == want[i].second.first && close_to(got[i].second.second, want[i].second.second);
    if (!same) {
      snprintf(b, sizeof b, "the arcs of state %zu (%zu read, %zu in the input)", k, got.size(), want.size());
      g_why = b;
      return OTHER;
    }
    // and each label is found by a lookup
    for (auto &a : g.arcs[k]) {
      FstArc x;
      if (!f.GetArc((int)k, a.il, &x) || x.input_label != a.il) {
        snprintf(b, sizeof b, "no arc with label %d found in state %zu", a.il, k);
        g_why = b;
        return OTHER;
      }
    }
  }
  return EXACT;
}
What read_am(const std::string &nnet, const std::string &prior, const model::Model &m) {
  model::Model x = m;
  x.install("/cesim/c/");
  io::put("/cesim/c/nnet.bin", nnet);
  io::put("/cesim/c/prior.bin", prior);
  AcousticModel am;
  {
    mem::Sut s;
    Configuration conf;
    Status st = conf.Read(x.conf());
    if (!st.ok()) broken("configuration: %s", st.what().c_str());
    if (!am.Read(conf).ok()) return REFUSED;
    util::ReadableFile fd;
    Nnet n;
    if (fd.Open("/cesim/c/nnet.bin").ok() && n.Read(&fd).ok() && (n.left_context() != m.L || n.right_context() != m.R)) {
      g_why = "other contexts";
      return OTHER;
    }
  }
  model::Mat feats, rows;
  Rng r(99);
  for (int t = 0; t < 6; ++t) {
    std::vector<double> v(40);
    for (auto &z : v) z = (float)(2 * r.gauss());
    feats.push_back(v);
  }
  AcousticModel::Instance inst;
  Matrix<float> out;
  auto take = [&] {
    for (int i = 0; i < out.NumRows(); ++i) {
      std::vector<double> v(out.NumCols());
      for (int c = 0; c < out.NumCols(); ++c) v[c] = out.Row(i)(c);
      rows.push_back(v);
    }
  };
  for (auto &f : feats) {
    Vector<float> v(40);
    for (int i = 0; i < 40; ++i) v(i) = (float)f[i];
    { mem::Sut s; am.Process(&inst, v, &out); }
    take();
  }
  { mem::Sut s; am.EndOfStream(&inst, &out); }
  take();
  model::Mat want = model::scores(m, feats);
  char b[200];
  if (rows.size() != want.size()) { g_why = "another number of rows"; return OTHER; }
  double worst = 0;
  for (size_t t = 0; t < rows.size(); ++t) {
    if ((int)rows[t].size() != m.P) { g_why = "another number of outputs"; return OTHER; }
    double big = 1;
    for (double v : want[t]) big = std::max(big, fabs(v));
    for (int c = 0; c < m.P; ++c) {
      double d = fabs(rows[t][c] - want[t][c]);
      if (!(d <= 3e-5 * big)) {
        snprintf(b, sizeof b, "score of frame %zu, output %d is %.7f instead of %.7f", t, c, rows[t][c], want[t][c]);
        g_why = b;
        return OTHER;
      }
      worst = std::max(worst, d / big);
    }
  }
  count_max("worst_relative_difference_e9", (int64_t)(worst * 1e9));
  return EXACT;
}

// ------------------------------------------------------------- the property
void c24_gen(Rng &r, Plan &p, const Tier &t) {
  static const char *const kinds[] = {"trans", "fst", "unigram", "cmvn", "prune", "am"};
  const char *kind = kinds[r.chance(0.2) ? 5 : r.n(5)];
  p.push_back(Line("fill").set("mode", (int)r.n(5)).set("seed", (int64_t)r.n(1000000)));
  int n = r.range(1, t.thorough ? 5 : 3);
  for (int i = 0; i < n; ++i) {
    int size = r.chance(0.5) ? r.range(1, 12) : r.chance(0.8) ? r.range(10, 60) : r.range(60, 200);
    Line c = Line("conv").set("kind", kind).set("seed", (int64_t)r.n(100000000)).set("size", size);
    p.push_back(c);
    int64_t E = make_job(c).expected;
    double what = r.unit();
    if (what < 0.25) {
      if (r.chance(0.5)) p.push_back(Line("fault").set("kind", "short").set("max", r.chance(0.5) ? r.range(1, 64) : r.range(64, 4096)));
      if (r.chance(0.3)) p.push_back(Line("fault").set("kind", "eintr").set("at", r.range(1, 6)).set("times", r.range(1, 3)));
    } else if (what < 0.85) {
      static const char *const ks[] = {"full", "full", "crash", "crash", "close", "open", "rerr", "meta"};
      Line f = Line("fault").set("kind", ks[r.n(8)]);
      std::string k = f.s("kind");
      if (k == "open" || k == "close" || k == "meta") f.set("at", r.range(1, 3));
      else if (k == "rerr") f.set("at", r.chance(0.3) ? 0 : (int)r.n(1 + std::max<int64_t>(1, E * 3)));
      else f.set("at", r.chance(0.1) ? (int)r.n(16) : r.chance(0.2) ? (int)std::max<int64_t>(0, E - (int)r.n(9)) : (int)r.n(1 + E));
      f.set("err", (int)r.n(k == "open" ? 6 : 3));
      if (k == "open") f.set("err", 3 + (int)r.n(3));
      if (r.chance(0.3)) f.set("times", 1);
      p.push_back(f);
      if (r.chance(0.3)) p.push_back(Line("fault").set("kind", "short").set("max", r.range(1, 4096)));
    } else {
      p.push_back(Line("cut").set("permille", r.chance(0.5) ? 999 - (int)r.n(20) : (int)r.n(1000)));
    }
  }
}
void c24_run(const Plan &p) {
  const Line *fl = find(p, "fill");
  mem::fill(fl ? (int)fl->i("mode", 2) : 2, fl ? fl->i("seed", 1) : 1);
  std::vector<Attempt> as;
  for (auto &l : p) {
    if (l.op == "conv" && as.size() < 6) { as.emplace_back(); as.back().conv = l; }
    else if (l.op == "fault" && !as.empty()) as.back().faults.push_back(l);
    else if (l.op == "cut" && !as.empty()) as.back().cut = &l;
  }
  if (as.empty()) return;
  std::map<std::string, Blob> disk;          // outputs, by name, as the last attempt left them
  std::vector<std::string> history;
  int good = 0, failed = 0;
  for (size_t n = 0; n < as.size(); ++n) {
    Attempt &a = as[n];
    Job j = make_job(a.conv);
    std::string text = j.text;
    bool cut = false;
    if (a.cut) {
      int64_t at = j.announced * clampi(a.cut->i("permille"), 0, 999) / 1000;
      if (at < j.announced) { text.resize((size_t)at); cut = true; }
    }
    std::string in = "in.txt", out = "out-" + j.kind;
    std::vector<std::string> names;
    if (j.kind == "am") names = {out + ".nnet", out + ".prior"};
    else names = {out};
    Scratch s;
    spill(s.d() + "/in.txt", text);
    if (!j.vocab.empty()) spill(s.d() + "/vocab.txt", j.vocab);
    for (auto &x : names) if (disk[x].there) spill(s.d() + "/" + x, disk[x].b);
    std::string o = s.d() + "/" + out, i1 = s.d() + "/in.txt", voc = s.d() + "/vocab.txt";
    uint64_t seed = (uint64_t)a.conv.i("seed", 1) + 1000 * n;
    Outcome r;
    Outcome second;                          // prune: its output goes through the next converter
    Blob uni;
    if (j.kind == "am") r = run_tool(s, "convert_am.py", {i1, o}, a.faults, seed);
    else if (j.kind == "trans") r = run_tool(s, "convert_trans.py", {i1, o}, a.faults, seed);
    else if (j.kind == "cmvn") r = run_tool(s, "convert_cmvn_stats.py", {i1, o}, a.faults, seed);
    else if (j.kind == "unigram") r = run_tool(s, "convert_unigram.py", {i1, voc, o}, a.faults, seed);
    else if (j.kind == "fst") r = run_tool(s, "convert_fstfmt.py", {i1, o}, a.faults, seed);
    else {
      r = run_tool(s, "prune_lm.py", {}, a.faults, seed, i1, o);
      second = run_tool(s, "convert_unigram.py", {o, voc, s.d() + "/uni"}, {}, seed);
      uni = slurp(s.d() + "/uni");
    }
    std::map<std::string, Blob> before, after;
    for (auto &x : names) { before[x] = disk[x]; after[x] = slurp(s.d() + "/" + x); disk[x] = after[x]; }
    s.clear();
    int hard = 0;
    for (auto &f : r.fired) if (f.first != "eintr" && f.first.compare(0, 5, "short")) hard += f.second;
    bool crashed = r.fired.count("crash") != 0;
    uint64_t h = fnv(j.kind);
    for (auto &x : names) h = fnv(after[x].b.data(), after[x].b.size(), h);
    ev("conv %s hard %d cut %d exit %d sig %d files %016llx", j.kind.c_str(), hard, cut, r.exit_code, r.sig, (unsigned long long)h);
    state(mix(h) ^ mix(hard * 7 + cut) ^ mix(r.exit_code * 31 + r.sig));
    count(("conversions_" + j.kind).c_str());
    if (cut) count("fault.input_ends_early");
    std::string tag = j.kind + " conversion " + std::to_string(n);
    if (!crashed && r.sig) fail("killed", "%s ended by signal %d", tag.c_str(), r.sig);
    bool ok = !crashed && r.exit_code == 0;
    if (cut && ok) fail("truncated-accepted", "%s exits 0 on an input that ends after %zu of %lld bytes", tag.c_str(), text.size(), (long long)j.announced);
    if (!hard && !cut && !ok) fail("intact-refused", "%s exits %d on an intact input, with no failure", tag.c_str(), r.exit_code);
    // what it left behind
    g_why.clear();
    if (hard && ok) { count("success_after_a_failed_call"); tag += std::string(" (a call it made had failed: ") + r.fired.begin()->first + ")"; }
    auto judge = [&](const std::string &x, What w) {
      bool same = !ok && before[x].there && after[x].there && before[x].b == after[x].b;
      if (w == REFUSED && ok) fail("not-loadable", "%s exits 0, and the recogniser refuses %s (%zu bytes)", tag.c_str(), x.c_str(), after[x].b.size());
      if (w == OTHER && !same) fail(ok ? "not-exact" : "wrong-model-left", "%s exits %d, and %s is taken for a model with %s", tag.c_str(), r.exit_code, x.c_str(), g_why.c_str());
      count(w == EXACT ? "left_exact" : w == REFUSED ? "left_refused" : "left_unchanged");
    };
    if (j.kind == "prune") {
      bool ok2 = second.exit_code == 0 && !second.sig;
      if (ok && !ok2) fail("not-loadable", "%s exits 0, and the unigram converter refuses what it wrote", tag.c_str());
      if (ok2) { What w = uni.there ? read_vector<float>(uni.b, j.floats) : REFUSED; if (w != EXACT) fail(ok ? "not-exact" : "wrong-model-left", "%s exits %d; converted on: %s", tag.c_str(), r.exit_code, g_why.c_str()); }
    } else {
      for (auto &x : names)
        if (ok && !after[x].there) fail("no-output", "%s exits 0 and leaves no %s", tag.c_str(), x.c_str());
      if (j.kind == "am") {
        // a file that is what it was before may belong to another network
        if (after[names[0]].there && (ok || !before[names[0]].there || before[names[0]].b != after[names[0]].b)) judge(names[0], read_am(after[names[0]].b, j.m.prior_bytes(), j.m));
        if (after[names[1]].there) judge(names[1], read_vector<float>(after[names[1]].b, j.m.prior));
      } else if (after[out].there) {
        judge(out, j.kind == "trans" ? read_vector<int32_t>(after[out].b, j.ints) : j.kind == "fst" ? read_fst(after[out].b, j.g) : read_vector<float>(after[out].b, j.floats));
      }
    }
    (ok ? good : failed)++;
  }
  count("conversions_ok", good);
  count("conversions_failed", failed);
  nontrivial();
}
static Reg c24({"C24", c24_gen, c24_run,
  "one to three conversions to the same target, each of a drawn network, transition table, graph, back-off model or statistics, with short reads and writes, interruptions, full disks, I/O errors, "
  "failing opens and closes, a crash after any byte, or an input that ends early; the exit status against what was injected, and every file left behind against the input through the recogniser's own "
  "loaders; non-trivial: every run"});
}  // namespace
