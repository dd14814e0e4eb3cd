// C07: every schedule of small concurrent programs over the index of source
// labels and over the stream offsets.
#include "explore.h"
#include "vh.h"
#include <algorithm>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
using vh::Case;
using vh::Visit;
extern "C" {
void bm_init();
bool bm_set(size_t);
void bm_range(size_t, size_t);
bool bm_get(size_t);
size_t bm_size();
uint64_t so_inc(size_t, size_t);
}
struct Op {
  int b, n; // n = 0: set(b)
};
static const std::vector<Op> OPS = {{0, 0}, {7, 0}, {8, 0}, {15, 0}, {39, 0}, {0, 1}, {0, 8}, {0, 9}, {3, 3}, {3, 5}, {3, 13}, {7, 2}, {7, 10}, {8, 8}, {12, 8}, {4, 20}, {30, 10}};
constexpr int OFF = 100; // code 100 + 10*source + length: a stream read
struct Log {
  uint64_t ret[sched::kThreads][4];
  bool bit[40];
  uint64_t size;
};
static Log *g_log;
static std::vector<std::vector<int>> decode(const Case &c) {
  std::vector<std::vector<int>> p;
  for (size_t i = 2, k = 0; k < (size_t)c[1]; k++) {
    int n = c[i++];
    p.emplace_back(c.begin() + i, c.begin() + i + n);
    i += n;
  }
  return p;
}
static Case mk(int bound, const std::vector<std::vector<int>> &p) {
  Case c{bound, (int)p.size()};
  for (auto &q : p) {
    c.push_back((int)q.size());
    c.insert(c.end(), q.begin(), q.end());
  }
  return c;
}
static std::string show(const Case &c) {
  std::string o = "at most " + std::to_string(c[0]) + " preemptions:";
  for (auto &p : decode(c)) {
    o += o.back() == ':' ? " " : " || ";
    for (size_t i = 0; i < p.size(); i++) {
      o += i ? "; " : "";
      if (p[i] >= OFF)
        o += "stream " + std::to_string((p[i] - OFF) / 10) + " +" + std::to_string((p[i] - OFF) % 10);
      else if (OPS[p[i]].n)
        o += "flag " + std::to_string(OPS[p[i]].n) + " from " + std::to_string(OPS[p[i]].b);
      else
        o += "flag " + std::to_string(OPS[p[i]].b);
    }
  }
  return o;
}
static void judge(const std::vector<std::vector<int>> &prog, int st, const std::string &sc) {
  auto &run = *sched::g_run;
  VH_CHECK(run.outcome != 2, "the threads deadlock [schedule %s]", sc.c_str());
  VH_CHECK(run.outcome != 3, "the threads do not get on [schedule %s]", sc.c_str());
  VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0 && run.outcome == 1, "the process died, status %d [schedule %s]", st, sc.c_str());
  bool want[40] = {}, ranged[40] = {};
  int top = -1, falses[40] = {}, sets[40] = {};
  std::map<int, std::vector<std::pair<uint64_t, int>>> streams;
  for (size_t t = 0; t < prog.size(); t++) {
    std::map<int, uint64_t> last;
    for (size_t i = 0; i < prog[t].size(); i++) {
      int c = prog[t][i];
      uint64_t r = g_log->ret[t][i];
      if (c >= OFF) {
        int s = (c - OFF) / 10, n = (c - OFF) % 10;
        streams[s].push_back({r, n});
        auto it = last.find(s);
        VH_CHECK(it == last.end() || r >= it->second, "stream %d goes back for thread %zu [schedule %s]", s, t, sc.c_str());
        last[s] = r + n;
        continue;
      }
      Op o = OPS[c];
      for (int b = o.b; b < o.b + std::max(o.n, 1); b++) {
        want[b] = true;
        top = std::max(top, b);
        if (o.n)
          ranged[b] = true;
      }
      if (!o.n) {
        sets[o.b]++;
        falses[o.b] += !r;
      }
    }
  }
  for (int b = 0; b < 40; b++) {
    VH_CHECK(g_log->bit[b] == want[b], "%s is %sflagged [schedule %s]", ("bit " + std::to_string(b)).c_str(), g_log->bit[b] ? "wrongly " : "not ",
             sc.c_str());
    if (sets[b])
      VH_CHECK(falses[b] <= 1 && (ranged[b] || falses[b] == 1), "bit %d: %d requests were told they flagged it first [schedule %s]", b, falses[b],
               sc.c_str());
  }
  VH_CHECK((int)g_log->size == (top < 0 ? 0 : top / 8 + 1), "the size is %lu with bit %d flagged last [schedule %s]", (unsigned long)g_log->size, top,
           sc.c_str());
  for (auto &kv : streams) {
    std::sort(kv.second.begin(), kv.second.end());
    uint64_t at = 0;
    for (auto &x : kv.second) {
      VH_CHECK(x.first == at, "stream %d: a block starts at %lu, expected %lu [schedule %s]", kv.first, (unsigned long)x.first, (unsigned long)at,
               sc.c_str());
      at += x.second;
    }
  }
}
static double g_t0;
static void run(const Case &c) {
  if (!g_log)
    g_log = (Log *)mmap(nullptr, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (!g_t0)
    g_t0 = vh::now();
  double el = vh::now() - g_t0, B = vh::g_thorough ? 1200 : 90;
  int bound = c[0];
  if (!vh::g_replay && el > B / 2)
    bound = std::min(bound, el > B ? 0 : 1);
  sched::g_deadline = vh::g_replay ? 0 : std::max(g_t0 + 1.2 * B, vh::now() + 5);
  auto prog = decode(c);
  auto s = sched::explore(
      bound,
      [&] {
        memset(g_log, 0, sizeof *g_log);
        bm_init();
        std::vector<std::function<void()>> bodies;
        for (size_t t = 0; t < prog.size(); t++)
          bodies.push_back([&, t] {
            for (size_t i = 0; i < prog[t].size(); i++) {
              int k = prog[t][i];
              uint64_t r = 0;
              if (k >= OFF)
                r = so_inc((k - OFF) / 10, (k - OFF) % 10);
              else if (OPS[k].n)
                bm_range(OPS[k].b, OPS[k].n);
              else
                r = bm_set(OPS[k].b);
              g_log->ret[t][i] = r;
            }
          });
        sched::execute(bodies);
        for (int b = 0; b < 40; b++)
          g_log->bit[b] = bm_get(b);
        g_log->size = bm_size();
        _exit(0);
      },
      [&](int st, const std::string &sc) { judge(prog, st, sc); }, [&] { vh::mark(c); });
  vh::st().states += s.runs;
  vh::st().transitions += s.points;
  vh::st().nontrivial += s.runs > 1 && bound == c[0] && !s.truncated;
}
int main(int argc, char **argv) {
  std::vector<vh::Suite> S;
  S.push_back({"c07_index", "every program of two threads (up to two operations each) and three threads flagging bits and ranges, every schedule up to the bound",
               [](const Visit &v) {
                 int n = (int)OPS.size();
                 for (int a = 0; a < n; a++)
                   for (int b = a; b < n; b++)
                     v(mk(vh::g_thorough ? 5 : 3, {{a}, {b}}));
                 for (int a = 0; a < n; a++)
                   for (int b = a; b < n; b++)
                     for (int c = b; c < n; c++)
                       v(mk(vh::g_thorough ? 3 : 1, {{a}, {b}, {c}}));
                 for (int a = 0; a < n; a++)
                   for (int b = 0; b < n; b++)
                     for (int c = 0; c < n; c++)
                       v(mk(vh::g_thorough ? 3 : 1, {{a, b}, {c}}));
               },
               run, false, 60, show, true});
  S.push_back({"c07_streams", "every program of two and three threads consuming one or two streams, every schedule up to the bound",
               [](const Visit &v) {
                 std::vector<int> R{OFF + 1, OFF + 3, OFF + 12, OFF};
                 for (int a : R)
                   for (int b : R)
                     for (int c : R)
                       for (int d : R) {
                         v(mk(8, {{a, b}, {c, d}}));
                         if (a <= b && b <= c)
                           v(mk(6, {{a, d}, {b}, {c}}));
                         for (int e : R)
                           for (int f : R)
                             if (vh::g_thorough)
                               v(mk(4, {{a, b}, {c, d}, {e, f}}));
                       }
               },
               run, false, 60, show, true});
  return vh::main_(argc, argv, S);
}
