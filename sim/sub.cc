// Sub-runs: a part of a simulated run in a forked copy of the process.
#include "sim.h"
#include "internal.h"
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <stdexcept>
#include <algorithm>

namespace sim {
std::string pristine(std::function<std::string()> fn) {
  int pfd[2];
  if (pipe(pfd)) broken("pipe");
  pid_t pid = fork();
  if (pid < 0) broken("fork");
  if (pid == 0) {
    ::close(pfd[0]);
    std::string s;
    try {
      s = fn();
    } catch (std::exception &e) {
      fail("uncaught-exception", "exception escaped: %s", e.what());
    }
    size_t off = 0;
    while (off < s.size()) {
      ssize_t k = ::write(pfd[1], s.data() + off, s.size() - off);
      if (k <= 0) break;
      off += k;
    }
    _exit(0);
  }
  ::close(pfd[1]);
  std::string s;
  char b[65536];
  ssize_t k;
  while ((k = ::read(pfd[0], b, sizeof b)) > 0) s.append(b, k);
  ::close(pfd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (g_shm->status != 0) _exit(3);
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    if (WIFSIGNALED(st)) { ::signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
    _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 98);
  }
  return s;
}
}  // namespace sim

namespace sim {
namespace sched {
Config config(const Plan &p) {
  Config c;
  c.seed = 1; c.gap = 0; c.conf = 0; c.sync = 0; c.hold = 0; c.spurious = false; c.start_delay = 0; c.use_explicit = true;
  for (auto &l : p) {
    if (l.op == "sched") {
      c.seed = (uint64_t)l.i("seed", 1);
      c.gap = l.f("gap", 0);
      c.conf = l.f("conf", 0);
      c.sync = l.f("sync", 0);
      c.hold = l.f("hold", 0);
      c.spurious = l.i("spurious") != 0;
      c.use_explicit = l.i("explicit") != 0 || c.gap <= 0;
    } else if (l.op == "switch") {
      c.explicit_at.push_back({(uint64_t)l.i("at"), (int)l.i("to")});
    }
  }
  if (!c.use_explicit) c.explicit_at.clear();
  std::sort(c.explicit_at.begin(), c.explicit_at.end());
  return c;
}
}  // namespace sched
}  // namespace sim
