// Exhaustive-enumeration harness kernel.
//
// A suite enumerates cases (vectors of ints) deterministically; every case is
// executed on the real code. Cases are sharded over worker processes. The case
// being executed is always in a shared slot, so a crash or hang is attributed
// to it. A failing case is re-executed in fresh processes before it is
// reported.
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace vh {
using Case = std::vector<int32_t>;
struct Fail {
  std::string msg;
};
[[noreturn]] inline void fail(const char *fmt, ...) {
  char b[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  throw Fail{b};
}
#define VH_CHECK(c, ...)                                                       \
  do {                                                                         \
    if (!(c))                                                                  \
      ::vh::fail(__VA_ARGS__);                                                 \
  } while (0)

constexpr int kMaxCase = 512;
struct Slot {
  std::atomic<uint64_t> beat;
  uint64_t evals, nontrivial, states, transitions, distinct;
  int32_t status; // 0 running 1 done 2 failed
  int32_t n;
  int32_t c[kMaxCase];
  char msg[2048];
  int32_t nsamples;
  struct {
    int32_t n;
    int32_t c[48];
  } samples[3];
};
inline Slot *g_slot = nullptr;
inline Slot &st() { return *g_slot; }
inline int g_worker = 0, g_nworkers = 1;
inline bool g_thorough = false;
inline bool g_replay = false;
inline std::string g_scratch = "/tmp";

inline void mark(const int32_t *p, size_t n) {
  Slot &s = *g_slot;
  if (n > kMaxCase)
    n = kMaxCase;
  memcpy(s.c, p, n * 4);
  s.n = (int)n;
  s.beat.store(s.beat.load(std::memory_order_relaxed) + 1,
               std::memory_order_relaxed);
}
inline void mark(const Case &c) { mark(c.data(), c.size()); }
inline void sample(const Case &c) {
  Slot &s = *g_slot;
  if (s.nsamples < 3) {
    auto &x = s.samples[s.nsamples++];
    x.n = (int)std::min<size_t>(c.size(), 48);
    memcpy(x.c, c.data(), x.n * 4);
  }
}
inline double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

using Visit = std::function<void(const Case &)>;
struct Suite {
  std::string name;
  std::string rule;
  std::function<void(const Visit &)> gen;
  std::function<void(const Case &)> run;
  bool fork_each = false;
  double timeout = 30; // seconds without progress before a case counts as hung
  std::function<std::string(const Case &)> describe = {};
  bool dynamic = false; // cases of very different cost: workers take the next one
};
inline std::atomic<uint64_t> *g_next = nullptr;

inline std::string esc(const std::string &s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (ch < 32 || ch >= 127) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else
      o += ch;
  }
  return o;
}
inline std::string jcase(const int32_t *c, int n) {
  std::string o = "[";
  for (int i = 0; i < n; i++)
    o += (i ? "," : "") + std::to_string(c[i]);
  return o + "]";
}

// Runs one case in a fresh process. 0 ok, 1 failed (msg), 2 crashed, 3 hung.
inline int run_isolated(const Suite &s, const Case &c, double timeout,
                        std::string &msg) {
  Slot *sh = (Slot *)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE,
                          MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  fflush(stdout);
  fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    setpgid(0, 0);
    g_slot = sh;
    mark(c);
    try {
      s.run(c);
    } catch (Fail &f) {
      strncpy(sh->msg, f.msg.c_str(), sizeof sh->msg - 1);
      sh->status = 2;
      _exit(7);
    } catch (...) {
      strcpy(sh->msg, "unexpected exception");
      sh->status = 2;
      _exit(7);
    }
    sh->status = 1;
    _exit(0);
  }
  double t0 = now();
  int st = 0, r = 0;
  while (true) {
    pid_t w = waitpid(p, &st, WNOHANG);
    if (w == p)
      break;
    double el = now() - t0;
    if (el > timeout) {
      kill(-p, SIGKILL);
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      msg = "the case did not terminate";
      munmap(sh, sizeof *sh);
      return 3;
    }
    usleep(el < 0.05 ? 200 : 5000);
  }
  kill(-p, SIGKILL);
  if (sh->status == 2) {
    msg = sh->msg;
    r = 1;
  } else if (sh->status == 1) {
    r = 0;
  } else {
    char b[128];
    if (WIFSIGNALED(st))
      snprintf(b, sizeof b, "the process died with signal %d", WTERMSIG(st));
    else
      snprintf(b, sizeof b, "the process exited early with status %d",
               WEXITSTATUS(st));
    msg = b;
    r = 2;
  }
  munmap(sh, sizeof *sh);
  return r;
}

inline void worker_body(const Suite &s) {
  Slot *me = g_slot;
  uint64_t idx = 0;
  bool dyn = s.dynamic && g_next;
  uint64_t mine = dyn ? g_next->fetch_add(1) : 0;
  Visit v = [&](const Case &c) {
    uint64_t i = idx++;
    if (dyn ? i != mine : i % g_nworkers != (uint64_t)g_worker)
      return;
    if (dyn)
      mine = g_next->fetch_add(1);
    mark(c);
    me->evals++;
    if (me->nsamples < 3)
      sample(c);
    if (!s.fork_each) {
      s.run(c);
      return;
    }
    me->status = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      try {
        s.run(c);
      } catch (Fail &f) {
        strncpy(me->msg, f.msg.c_str(), sizeof me->msg - 1);
        me->status = 2;
        _exit(7);
      } catch (...) {
        strcpy(me->msg, "unexpected exception");
        me->status = 2;
        _exit(7);
      }
      me->status = 1;
      _exit(0);
    }
    int st;
    while (waitpid(p, &st, 0) < 0)
      ;
    if (me->status == 2)
      _exit(7);
    if (me->status != 1) {
      snprintf(me->msg, sizeof me->msg, "process ended early (status 0x%x)",
               st);
      me->status = 2;
      _exit(7);
    }
    me->status = 0;
  };
  try {
    s.gen(v);
  } catch (Fail &f) {
    strncpy(me->msg, f.msg.c_str(), sizeof me->msg - 1);
    me->status = 2;
    _exit(7);
  } catch (...) {
    strcpy(me->msg, "unexpected exception");
    me->status = 2;
    _exit(7);
  }
  me->status = 1;
  _exit(0);
}

struct Outcome {
  bool violated = false;
  bool error = false;
  std::string json;
};

// Re-runs one whole shard; true if it fails again (or hangs).
inline bool rerun_shard(const Suite &s, int w, int n) {
  Slot *sh = (Slot *)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE,
                          MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pid_t p = fork();
  if (p == 0) {
    setpgid(0, 0);
    g_worker = w;
    g_nworkers = n;
    g_slot = sh;
    g_next = nullptr;
    worker_body(s);
  }
  uint64_t beat = 0;
  double last = now();
  int stt = 0;
  while (waitpid(p, &stt, WNOHANG) != p) {
    uint64_t b = sh->beat.load();
    if (b != beat) {
      beat = b;
      last = now();
    } else if (now() - last > s.timeout) {
      kill(-p, SIGKILL);
      waitpid(p, &stt, 0);
      break;
    }
    usleep(2000);
  }
  bool bad = sh->status != 1;
  munmap(sh, sizeof *sh);
  return bad;
}

inline Outcome run_suite(const Suite &s, int nworkers) {
  Outcome out;
  double t0 = now();
  Slot *slots = (Slot *)mmap(nullptr, sizeof(Slot) * nworkers,
                             PROT_READ | PROT_WRITE,
                             MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<pid_t> pids(nworkers);
  std::vector<uint64_t> beat(nworkers, 0);
  std::vector<double> last(nworkers, now());
  fflush(stdout);
  fflush(stderr);
  if (s.dynamic) {
    if (!g_next)
      g_next = (std::atomic<uint64_t> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_next->store(0);
  }
  for (int i = 0; i < nworkers; i++) {
    pid_t p = fork();
    if (p == 0) {
      setpgid(0, 0);
      g_worker = i;
      g_nworkers = nworkers;
      g_slot = &slots[i];
      worker_body(s);
    }
    pids[i] = p;
  }
  int live = nworkers, bad = -1;
  std::string why;
  while (live > 0 && bad < 0) {
    for (int i = 0; i < nworkers; i++) {
      if (!pids[i])
        continue;
      int stt;
      pid_t w = waitpid(pids[i], &stt, WNOHANG);
      if (w == pids[i]) {
        pids[i] = 0;
        live--;
        if (slots[i].status == 2) {
          bad = i;
          why = slots[i].msg;
        } else if (slots[i].status != 1) {
          bad = i;
          char b[100];
          snprintf(b, sizeof b, "worker ended with status 0x%x", stt);
          why = b;
        }
        if (bad >= 0)
          break;
        continue;
      }
      uint64_t bt = slots[i].beat.load(std::memory_order_relaxed);
      if (bt != beat[i]) {
        beat[i] = bt;
        last[i] = now();
      } else if (now() - last[i] > s.timeout) {
        bad = i;
        why = "no progress";
        break;
      }
    }
    usleep(2000);
  }
  Case bc;
  if (bad >= 0)
    bc.assign(slots[bad].c, slots[bad].c + slots[bad].n);
  for (int i = 0; i < nworkers; i++)
    if (pids[i]) {
      kill(-pids[i], SIGKILL);
      kill(pids[i], SIGKILL);
      int stt;
      waitpid(pids[i], &stt, 0);
    }
  uint64_t ev = 0, nt = 0, sts = 0, tr = 0;
  std::string samples;
  int ns = 0;
  for (int i = 0; i < nworkers; i++) {
    ev += slots[i].evals;
    nt += slots[i].nontrivial + (slots[i].states ? 0 : slots[i].distinct);
    sts += slots[i].states;
    tr += slots[i].transitions;
    for (int k = 0; k < slots[i].nsamples && ns < 4; k++, ns++) {
      Case c(slots[i].samples[k].c, slots[i].samples[k].c + slots[i].samples[k].n);
      std::string d = s.describe ? s.describe(c) : "";
      samples += std::string(ns ? "," : "") + "{\"case\":" +
                 jcase(c.data(), (int)c.size()) + ",\"text\":\"" + esc(d) + "\"}";
    }
  }
  std::string fj = "null";
  if (bad >= 0) {
    // Replay before report.
    std::string m1, m2;
    int r1 = run_isolated(s, bc, s.timeout * 2, m1);
    int r2 = r1 ? run_isolated(s, bc, s.timeout * 2, m2) : 0;
    if (r1 && r2) {
      out.violated = true;
      std::string d = s.describe ? s.describe(bc) : "";
      fj = "{\"suite\":\"" + s.name + "\",\"case\":" +
           jcase(bc.data(), (int)bc.size()) + ",\"message\":\"" + esc(m1) +
           "\",\"text\":\"" + esc(d) + "\"}";
    } else if (rerun_shard(s, bad, nworkers)) {
      // The failure needs the state left by earlier cases of the same shard.
      out.violated = true;
      std::string d = s.describe ? s.describe(bc) : "";
      Case sc = {-770077, bad, nworkers};
      fj = "{\"suite\":\"" + s.name + "\",\"case\":" +
           jcase(sc.data(), (int)sc.size()) + ",\"message\":\"" +
           esc(why + " (after the earlier cases of shard " +
               std::to_string(bad) + "/" + std::to_string(nworkers) + ")") +
           "\",\"text\":\"" + esc(d) + "\"}";
    } else {
      out.error = true;
      fprintf(stderr,
              "suite %s: worker failed (%s) but the case %s replays clean\n",
              s.name.c_str(), why.c_str(),
              jcase(bc.data(), (int)bc.size()).c_str());
    }
  }
  char b[256];
  snprintf(b, sizeof b,
           "\"evaluations\":%lu,\"nontrivial\":%lu,\"states\":%lu,"
           "\"transitions\":%lu,\"wall_s\":%.3f",
           ev, nt, sts, tr, now() - t0);
  out.json = "{\"name\":\"" + s.name + "\",\"rule\":\"" + esc(s.rule) + "\"," +
             b + ",\"samples\":[" + samples + "],\"failure\":" + fj + "}";
  munmap(slots, sizeof(Slot) * nworkers);
  return out;
}

// usage: prog --out FILE [--thorough] [--workers N] [--scratch DIR] SUITE...
//        prog --replay SUITE i i i ...
inline int main_(int argc, char **argv, const std::vector<Suite> &suites) {
  std::string outp, replay;
  int nw = 8;
  std::vector<std::string> want;
  Case rc;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--out")
      outp = argv[++i];
    else if (a == "--thorough")
      g_thorough = true;
    else if (a == "--workers")
      nw = atoi(argv[++i]);
    else if (a == "--scratch")
      g_scratch = argv[++i];
    else if (a == "--replay") {
      replay = argv[++i];
      while (++i < argc)
        rc.push_back(atoi(argv[i]));
    } else
      want.push_back(a);
  }
  if (!replay.empty()) {
    g_replay = true;
    for (auto &s : suites)
      if (s.name == replay) {
        std::string m;
        if (rc.size() == 3 && rc[0] == -770077) {
          bool b = rerun_shard(s, rc[1], rc[2]);
          printf("%s\n", b ? "FAILS" : "passes");
          return b ? 1 : 0;
        }
        int r = run_isolated(s, rc, s.timeout * 2, m);
        printf("%s: %s\n", r ? "FAILS" : "passes", m.c_str());
        return r ? 1 : 0;
      }
    fprintf(stderr, "no suite %s\n", replay.c_str());
    return 2;
  }
  std::string all;
  bool viol = false, err = false;
  for (auto &w : want) {
    bool found = false;
    for (auto &s : suites)
      if (s.name == w) {
        found = true;
        auto o = run_suite(s, nw);
        all += (all.empty() ? "" : ",") + o.json;
        viol |= o.violated;
        err |= o.error;
      }
    if (!found) {
      fprintf(stderr, "no suite %s\n", w.c_str());
      return 2;
    }
    if (viol)
      break;
  }
  FILE *f = fopen(outp.c_str(), "w");
  if (!f)
    return 2;
  fprintf(f, "{\"suites\":[%s]}\n", all.c_str());
  fclose(f);
  return viol ? 1 : err ? 3 : 0;
}
} // namespace vh
