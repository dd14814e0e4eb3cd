// C06, C07: every schedule (up to a number of preemptions) of small concurrent
// programs over the runtime's entry points, judged by the trace they leave.
#include "dfsw.h"
#include "explore.h"
#include "tdag.h"
#include "vh.h"
#include <algorithm>
#include <sys/stat.h>
using vh::Case;
using vh::Visit;
extern "C" void vh_shadow_clear();

static std::string g_dir, g_db;
static void raw_put(const std::string &p, const std::string &c) {
  FILE *f = fopen(p.c_str(), "w");
  VH_CHECK(f, "harness: %s", p.c_str());
  fwrite(c.data(), 1, c.size(), f);
  fclose(f);
}
static void fixtures() {
  if (!g_dir.empty())
    return;
  g_dir = vh::g_scratch + "/conc" + std::to_string(vh::g_worker) + (vh::g_replay ? "r" : "");
  mkdir(g_dir.c_str(), 0755);
  VH_CHECK(chdir(g_dir.c_str()) == 0, "harness: chdir");
  raw_put("in", std::string(400, 'x'));
  for (int t = 0; t < sched::kThreads; t++)
    raw_put("own" + std::to_string(t), "owned-" + std::to_string(t));
  mkfifo("fin", 0644);
  mkfifo("fout", 0644);
  g_db = g_dir + "/c.tdag";
}

// ---- what the threads did, shared with the judging process
enum Kind { SRC, OPENED, UNION, SINK, CFLOG, ENTER, LEAVE, FENTRY, FEXIT, MARK };
struct Did {
  int kind;
  int fd;
  int n;
  uint32_t a, b, r;
  char name[24];
  uint32_t lab[160];
  int srcname; // which file: 0 in, 1 fin, 2 fout, 10+t own, 20+t out, 30 an argument
  int64_t off; // -1 stream
};
struct Log {
  int n[sched::kThreads];
  Did d[sched::kThreads][8];
  uint32_t base; // first of the 12 labels read before
  uint32_t pre[4]; // derived labels made before
  int order;
  int started;
};
static Log *g_log;
static Did &did(int t, int kind) {
  Did &d = g_log->d[t][g_log->n[t]++];
  memset(&d, 0, sizeof d);
  d.kind = kind;
  return d;
}
static int g_fin, g_fout, g_in;

// ---- operations
static const char *OPS[] = {"stream read", "stream read long", "file read", "file read long", "open, read, close", "union", "union same",
                            "union chain", "mark shared", "mark own", "branch log", "enter+leave", "call shared name", "call own name",
                            "write", "write again", "open, write, close", "argv"};
enum { O_SR, O_SRL, O_FR, O_FRL, O_ORC, O_U, O_US, O_UC, O_MS, O_MO, O_CF, O_EL, O_FS, O_FO, O_W, O_W2, O_OWC, O_AV, O_N };
static void note_labels(Did &d, const uint8_t *b, int n) {
  d.n = n;
  for (int i = 0; i < n && i < 160; i++)
    d.lab[i] = dfsan_read_label(b + i, 1);
}
static uint8_t g_buf[sched::kThreads][8][160];
static void op(int t, int o, int seq) {
  lab r = 0, va[1] = {0};
  uint8_t *b = g_buf[t][seq];
  uint32_t B = g_log->base;
  switch (o) {
  case O_SR:
  case O_SRL: {
    int want = o == O_SR ? 3 : 70;
    int n = (int)__dfsw_read(g_fin, b, want, 0, 0, 0, &r);
    Did &d = did(t, SRC);
    d.fd = g_fin;
    d.srcname = 1;
    d.off = -1;
    d.r = want;
    note_labels(d, b, n);
    break;
  }
  case O_FR:
  case O_FRL: {
    int want = o == O_FR ? 2 : 66, off = 100 + 80 * t + 3 * seq;
    int n = (int)__dfsw_pread(g_in, b, want, off, 0, 0, 0, 0, &r);
    Did &d = did(t, SRC);
    d.fd = g_in;
    d.srcname = 0;
    d.off = off;
    d.r = want;
    note_labels(d, b, n);
    break;
  }
  case O_ORC: {
    std::string nm = "own" + std::to_string(t);
    int fd = __dfsw_open(nm.c_str(), O_RDONLY, 0, 0, va, &r);
    {
      Did &d = did(t, OPENED);
      d.fd = fd;
      d.srcname = 10 + t;
    }
    int n = (int)__dfsw_read(fd, b, 2, 0, 0, 0, &r);
    Did &d = did(t, SRC);
    d.fd = fd;
    d.srcname = 10 + t;
    d.off = 0;
    d.r = 2;
    note_labels(d, b, n);
    __dfsw_close(fd, 0, &r);
    break;
  }
  case O_U:
  case O_US: {
    Did &d = did(t, UNION);
    d.a = o == O_US ? B + 1 : B + t;
    d.b = o == O_US ? B + 5 : B + 7;
    lab x = d.a, y = d.b;
    d.r = __polytracker_union_table(x, y);
    break;
  }
  case O_UC: {
    lab x = B + t, y = B + 8, z = g_log->pre[0];
    Did &d = did(t, UNION);
    d.a = x;
    d.b = y;
    d.r = __polytracker_union_table(x, y);
    lab q = d.r;
    Did &e = did(t, UNION);
    e.a = q;
    e.b = z;
    e.r = __polytracker_union_table(q, z);
    break;
  }
  case O_MS:
  case O_MO: {
    Did &d = did(t, MARK);
    d.a = o == O_MS ? g_log->pre[0] : t == 0 ? g_log->pre[1] : g_log->pre[2];
    __polytracker_log_conditional_branch(d.a);
    break;
  }
  case O_CF: {
    Did &d = did(t, CFLOG);
    d.a = 0x12345 * (t + 1) + seq;
    d.b = B + t + 1;
    r = 0;
    __dfsw___polytracker_log_tainted_control_flow(1, d.a, d.b, 0, &r);
    break;
  }
  case O_EL: {
    Did &d = did(t, ENTER);
    d.a = 500 * (t + 1) + seq;
    __polytracker_enter_function(d.a);
    Did &e = did(t, LEAVE);
    e.a = d.a;
    __polytracker_leave_function(e.a);
    break;
  }
  case O_FS:
  case O_FO: {
    Did &d = did(t, FENTRY);
    snprintf(d.name, sizeof d.name, o == O_FS ? "shared" : "fn-%d-%d", t, seq);
    char nm[24];
    strcpy(nm, d.name);
    d.r = __polytracker_log_func_entry(nm, (uint16_t)strlen(nm));
    uint32_t id = d.r;
    memset(nm, 'Z', sizeof nm);
    Did &e = did(t, FEXIT);
    e.a = id;
    strcpy(e.name, d.name);
    __polytracker_log_func_exit((uint16_t)id);
    break;
  }
  case O_W:
  case O_W2: {
    b[0] = b[1] = b[2] = 'w';
    dfsan_set_label(B + t, b, 1);
    dfsan_set_label(0, b + 1, 1);
    dfsan_set_label(B + 4 + t, b + 2, 1);
    int n = (int)__dfsw_write(g_fout, b, 3, 0, 0, 0, &r);
    Did &d = did(t, SINK);
    d.fd = g_fout;
    d.srcname = 2;
    d.off = -1;
    note_labels(d, b, n);
    break;
  }
  case O_OWC: {
    std::string nm = "out" + std::to_string(t);
    int fd = __dfsw_open(nm.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0, 0, va, &r, 0644);
    {
      Did &d = did(t, OPENED);
      d.fd = fd;
      d.srcname = 20 + t;
    }
    b[0] = b[1] = 'w';
    dfsan_set_label(B + t, b, 1);
    dfsan_set_label(B + t + 1, b + 1, 1);
    int n = (int)__dfsw_write(fd, b, 2, 0, 0, 0, &r);
    Did &d = did(t, SINK);
    d.fd = fd;
    d.srcname = 20 + t;
    d.off = 0;
    note_labels(d, b, n);
    __dfsw_close(fd, 0, &r);
    break;
  }
  case O_AV: {
    memcpy(b, "argue", 6);
    dfsan_set_label(0, b, 6);
    char *av[2] = {(char *)b, nullptr};
    __polytracker_taint_argv(1, av);
    {
      Did &d = did(t, OPENED);
      d.fd = -1;
      d.srcname = 30;
    }
    Did &d = did(t, SRC);
    d.srcname = 30;
    d.off = 0;
    d.r = 5;
    note_labels(d, b, 5);
    break;
  }
  }
}
static std::vector<std::vector<int>> g_prog;
static void child() {
  int nul = ::open("/dev/null", O_WRONLY);
  dup2(nul, 1);
  dup2(nul, 2);
  ::close(nul);
  unlink(g_db.c_str());
  setenv("POLYDB", g_db.c_str(), 1);
  setenv("POLYTRACKER_TAINT_ARGV", "1", 1);
  __taint_start();
  lab r, va[1] = {0};
  g_in = __dfsw_open("in", O_RDONLY, 0, 0, va, &r);
  g_fin = __dfsw_open("fin", O_RDWR, 0, 0, va, &r);
  g_fout = __dfsw_open("fout", O_RDWR | O_NONBLOCK, 0, 0, va, &r);
  static uint8_t b[12];
  __dfsw_read(g_in, b, 12, 0, 0, 0, &r);
  uint32_t B = dfsan_read_label(b, 1);
  g_log->base = B;
  auto U = [](lab x, lab y) { return __polytracker_union_table(x, y); };
  // Three derived labels sharing parts: {0,2}, {0,2,4}, {0,2,6,9}.
  g_log->pre[0] = U(B, B + 2);
  g_log->pre[1] = U(g_log->pre[0], B + 4);
  g_log->pre[2] = U(U(g_log->pre[0], B + 6), B + 9);
  std::string fill(400, 's');
  ssize_t w = ::write(g_fin, fill.data(), fill.size());
  (void)w;
  std::vector<std::function<void()>> bodies;
  for (size_t t = 0; t < g_prog.size(); t++)
    bodies.push_back([t] {
      for (size_t i = 0; i < g_prog[t].size(); i++)
        op((int)t, g_prog[t][i], (int)i);
    });
  g_log->started = 1;
  sched::execute(bodies);
  exit(0);
}
using Ev = std::vector<uint64_t>;
// Is `all` an interleaving of the threads' sequences (each in order)?
static bool interleaves(const std::vector<std::vector<Ev>> &per, const std::vector<Ev> &all) {
  size_t tot = 0;
  for (auto &p : per)
    tot += p.size();
  if (tot != all.size())
    return false;
  std::set<std::vector<size_t>> cur{std::vector<size_t>(per.size(), 0)};
  for (auto &e : all) {
    std::set<std::vector<size_t>> nx;
    for (auto &c : cur)
      for (size_t t = 0; t < per.size(); t++)
        if (c[t] < per[t].size() && per[t][c[t]] == e) {
          auto d = c;
          d[t]++;
          nx.insert(d);
        }
    cur.swap(nx);
    if (cur.empty())
      return false;
  }
  return true;
}
static void judge(int st, const std::string &sc, bool only_index) {
  auto &run = *sched::g_run;
  VH_CHECK(run.outcome != 2, "the threads deadlock [schedule %s]", sc.c_str());
  VH_CHECK(run.outcome != 3, "the threads do not get on [schedule %s]", sc.c_str());
  if (!WIFEXITED(st))
    vh::fail("the process died with signal %d [schedule %s]", WTERMSIG(st), sc.c_str());
  VH_CHECK(WEXITSTATUS(st) == 0 && run.outcome == 1, "the run stopped with status %d [schedule %s]", WEXITSTATUS(st), sc.c_str());
  try {
    Tdag t;
    std::string e = t.open(g_db);
    VH_CHECK(e.empty(), "%s", e.c_str());
    size_t NT = g_prog.size(), NL = t.nlabels();
    uint32_t B = g_log->base;
    auto file = [&](int s) -> std::string {
      return s == 0 ? "in" : s == 1 ? "fin" : s == 2 ? "fout" : s == 30 ? "argv[0]" : s < 20 ? "own" + std::to_string(s - 10) : "out" + std::to_string(s - 20);
    };
    // sources: the three opened before, then one per open
    std::vector<std::vector<Ev>> per(NT);
    std::vector<Ev> all;
    std::map<std::string, std::vector<unsigned>> where;
    VH_CHECK(t.nsrc() >= 3, "sources are missing");
    for (size_t i = 0; i < t.nsrc(); i++) {
      auto s = t.src(i);
      where[s.name].push_back(i);
      if (i >= 3) {
        uint64_t k = 0;
        for (char c : s.name)
          k = k * 131 + (unsigned char)c;
        all.push_back({k, (uint64_t)s.fd});
      }
    }
    for (size_t i = 0; i < NT; i++)
      for (int k = 0; k < g_log->n[i]; k++) {
        Did &d = g_log->d[i][k];
        if (d.kind != OPENED)
          continue;
        uint64_t h = 0;
        for (char c : file(d.srcname))
          h = h * 131 + (unsigned char)c;
        per[i].push_back({h, (uint64_t)d.fd});
      }
    VH_CHECK(interleaves(per, all), "the recorded sources are not those that were opened, each once and in order");
    auto source_of = [&](size_t th, int k, int s) -> unsigned {
      // the m-th open of that file by this thread
      int m = -1;
      for (int q = 0; q <= k; q++)
        if (g_log->d[th][q].kind == OPENED && g_log->d[th][q].srcname == s)
          m++;
      auto &v = where[file(s)];
      size_t ix = m < 0 ? 0 : m;
      VH_CHECK(ix < v.size(), "source %s is missing", file(s).c_str());
      return v[ix];
    };
    // labels handed out by reads
    std::map<uint32_t, std::pair<unsigned, uint64_t>> given;
    for (int i = 0; i < 12; i++)
      given[B + i] = {0, (uint64_t)i};
    std::map<unsigned, std::vector<std::pair<uint64_t, int>>> streams;
    std::set<unsigned> args;
    for (size_t i = 0; i < NT; i++)
      for (int k = 0; k < g_log->n[i]; k++) {
        Did &d = g_log->d[i][k];
        if (d.kind != SRC)
          continue;
        VH_CHECK(d.n == (int)d.r, "a read of %u bytes delivered %d", d.r, d.n);
        unsigned s = 0;
        if (d.srcname == 30) {
          VH_CHECK(t.is_src(d.lab[0]), "thread %zu: an argument carries label %u, not a source label", i, d.lab[0]);
          s = t.expand(d.lab[0]).begin()->first;
          VH_CHECK(s < t.nsrc() && t.src(s).name == "argv[0]", "thread %zu: an argument is attributed to source %u", i, s);
          VH_CHECK(args.insert(s).second, "two arguments share source %u", s);
        } else
          s = source_of(i, k, d.srcname);
        uint64_t off0 = 0;
        for (int j = 0; j < d.n; j++) {
          uint32_t l = d.lab[j];
          VH_CHECK(l && l < NL, "thread %zu read a byte that carries no valid label (%u)", i, l);
          VH_CHECK(j == 0 || l == d.lab[0] + j, "the labels of one read are not consecutive");
          VH_CHECK(t.is_src(l), "label %u given to a byte thread %zu read is not a source label", l, i);
          auto x = *t.expand(l).begin();
          VH_CHECK(x.first == s, "thread %zu: a byte read from %s is attributed to source %u", i, file(d.srcname).c_str(), x.first);
          if (j == 0)
            off0 = x.second;
          uint64_t want = d.off >= 0 ? (uint64_t)d.off + j : off0 + j;
          VH_CHECK(x.second == want, "thread %zu: a byte read at offset %lu is recorded with offset %lu", i, (unsigned long)want,
                   (unsigned long)x.second);
          VH_CHECK(given.emplace(l, x).second, "label %u was given to two bytes", l);
        }
        if (d.off < 0)
          streams[s].push_back({off0, d.n});
      }
    for (auto &kv : streams) {
      std::sort(kv.second.begin(), kv.second.end());
      uint64_t at = 0;
      for (auto &x : kv.second) {
        VH_CHECK(x.first == at, "stream offsets of source %u are not disjoint and consecutive: a block starts at %lu, expected %lu", kv.first,
                 (unsigned long)x.first, (unsigned long)at);
        at += x.second;
      }
    }
    // index
    for (uint32_t l = 0; l < NL; l++) {
      bool src = given.count(l);
      VH_CHECK(t.is_src(l) == src, "label %u is %sa source label but %s", l, t.is_src(l) ? "" : "not ", src ? "was given to a byte" : "never was given out");
      VH_CHECK(t.bit(l) == src, "the index %s label %u", src ? "misses" : "wrongly flags", l);
    }
    if (NL) {
      uint64_t bits = t.sec(5).size * 8;
      VH_CHECK(bits > given.rbegin()->first, "the size of the index does not cover label %u", given.rbegin()->first);
      VH_CHECK(bits < (uint64_t)given.rbegin()->first + 65, "the index is larger than its last flagged label needs");
    }
    if (only_index)
      return;
    // unions
    std::set<uint32_t> made;
    auto ex = [&](uint32_t l) { return t.expand(l); };
    for (int i = 0; i < 3; i++)
      made.insert(g_log->pre[i]);
    for (size_t i = 0; i < NT; i++)
      for (int k = 0; k < g_log->n[i]; k++) {
        Did &d = g_log->d[i][k];
        if (d.kind != UNION)
          continue;
        VH_CHECK(d.r && d.r < NL, "thread %zu: a combination returned label %u, only %zu exist", i, d.r, NL);
        auto x = ex(d.a), y = ex(d.b);
        x.insert(y.begin(), y.end());
        VH_CHECK(ex(d.r) == x, "thread %zu: label %u does not denote the union of labels %u and %u", i, d.r, d.a, d.b);
        made.insert(d.r);
      }
    // every derived label was returned to somebody (pre[2] was made in two steps)
    int extra = 0;
    for (uint32_t l = 1; l < NL; l++)
      if (!given.count(l) && !made.count(l))
        extra++;
    VH_CHECK(extra <= 1, "%d labels exist that no request returned", extra - 1);
    // marks
    std::set<uint32_t> want;
    std::function<void(uint32_t)> clo = [&](uint32_t l) {
      if (!l || !want.insert(l).second)
        return;
      if (t.is_src(l))
        return;
      uint64_t v = t.raw(l);
      uint32_t a = (v >> 31) & 0x7fffffff, b = v & 0x7fffffff;
      if (a < b)
        for (uint32_t x = a; x <= b; x++)
          clo(x);
      else {
        clo(a);
        clo(b);
      }
    };
    for (size_t i = 0; i < NT; i++)
      for (int k = 0; k < g_log->n[i]; k++)
        if (g_log->d[i][k].kind == MARK)
          clo(g_log->d[i][k].a);
    for (uint32_t l = 1; l < NL; l++)
      VH_CHECK(t.cf(l) == (want.count(l) > 0), "label %u is %smarked as affecting control flow", l, t.cf(l) ? "" : "not ");
    // output records
    std::map<unsigned, std::vector<std::pair<uint64_t, int>>> outs;
    std::vector<std::vector<Ev>> sper(NT);
    std::vector<Ev> sall;
    std::map<unsigned, std::map<uint64_t, uint32_t>> rec;
    for (size_t i = 0; i < t.nsink(); i++) {
      auto s = t.sink(i);
      VH_CHECK(rec[s.idx].emplace(s.off, s.label).second, "two records for offset %lu of output %u", (unsigned long)s.off, s.idx);
      sall.push_back({s.idx, s.label});
    }
    for (size_t i = 0; i < NT; i++)
      for (int k = 0; k < g_log->n[i]; k++) {
        Did &d = g_log->d[i][k];
        if (d.kind != SINK)
          continue;
        unsigned s = source_of(i, k, d.srcname);
        for (int j = 0; j < d.n; j++)
          if (d.lab[j])
            sper[i].push_back({s, d.lab[j]});
      }
    VH_CHECK(interleaves(sper, sall), "the output records are not those of the writes, each once and in order");
    // each write occupies a block of its own: match greedily by its labels
    for (size_t i = 0; i < NT; i++)
      for (int k = 0; k < g_log->n[i]; k++) {
        Did &d = g_log->d[i][k];
        if (d.kind != SINK)
          continue;
        unsigned s = source_of(i, k, d.srcname);
        bool ok = false;
        for (uint64_t base = 0; base < 40 && !ok; base += (d.off < 0 ? d.n : 40)) {
          bool m = true;
          for (int j = 0; j < d.n; j++) {
            auto it = rec[s].find(base + j);
            uint32_t l = it == rec[s].end() ? 0 : it->second;
            m &= l == d.lab[j];
          }
          if (m) {
            for (int j = 0; j < d.n; j++)
              rec[s].erase(base + j);
            ok = true;
          }
        }
        VH_CHECK(ok, "thread %zu: a write is not recorded at offsets of its own", i);
      }
    // control-flow log
    std::vector<std::vector<Ev>> cper(NT), fper(NT);
    std::vector<Ev> call, fall;
    for (auto &c : t.cflog())
      call.push_back({(uint64_t)c.kind, c.fn, c.kind == 2 ? c.label : 0});
    std::map<std::string, uint32_t> ids;
    for (size_t i = 0; i < NT; i++)
      for (int k = 0; k < g_log->n[i]; k++) {
        Did &d = g_log->d[i][k];
        if (d.kind == CFLOG)
          cper[i].push_back({2, d.a, d.b});
        if (d.kind == ENTER)
          cper[i].push_back({0, d.a, 0});
        if (d.kind == LEAVE)
          cper[i].push_back({1, d.a, 0});
        if (d.kind == FENTRY) {
          VH_CHECK(d.r < t.nfn() && t.fn(d.r) == d.name, "function id %u does not name %s", d.r, d.name);
          auto it = ids.emplace(d.name, d.r).first;
          VH_CHECK(it->second == d.r, "function %s has two ids", d.name);
          fper[i].push_back({0, d.r});
        }
        if (d.kind == FEXIT)
          fper[i].push_back({1, d.a});
      }
    VH_CHECK(interleaves(cper, call), "the control-flow log is not an interleaving of the threads' events");
    for (size_t i = 0; i < t.nev(); i++)
      fall.push_back({(uint64_t)t.ev(i).first, t.ev(i).second});
    VH_CHECK(interleaves(fper, fall), "the function events are not an interleaving of the threads' events");
    VH_CHECK(t.nfn() == ids.size(), "%zu functions are recorded, %zu were called", t.nfn(), ids.size());
  } catch (vh::Fail &f) {
    vh::fail("%s [schedule %s]", f.msg.c_str(), sc.c_str());
  }
}
// case: bound, nthreads, then per thread: length, ops
static std::vector<std::vector<int>> decode(const Case &c) {
  std::vector<std::vector<int>> p;
  for (size_t i = 2, k = 0; k < (size_t)c[1]; k++) {
    int n = c[i++];
    p.emplace_back(c.begin() + i, c.begin() + i + n);
    i += n;
  }
  return p;
}
// The exploration is exhaustive up to the bound as long as it fits the time; a
// change of the code that makes many more operations depend on the schedule
// lowers the bound for the remaining programs rather than giving no answer.
static double g_t0;
static double budget() { return vh::g_thorough ? 1500 : 120; }
static void run(const Case &c, bool only_index) {
  fixtures();
  if (!g_t0)
    g_t0 = vh::now();
  double el = vh::now() - g_t0, B = budget();
  int bound = c[0];
  if (!vh::g_replay && el > B / 2)
    bound = std::min(bound, el > B ? 0 : 1);
  sched::g_deadline = vh::g_replay ? 0 : std::max(g_t0 + 1.2 * B, vh::now() + 5);
  if (!g_log)
    g_log = (Log *)mmap(nullptr, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_prog = decode(c);
  auto s = sched::explore(
      bound,
      [&] {
        memset(g_log, 0, sizeof *g_log);
        child();
      },
      [&](int st, const std::string &sc) { judge(st, sc, only_index); }, [&] { vh::mark(c); });
  vh::st().states += s.runs;
  vh::st().transitions += s.points;
  vh::st().nontrivial += s.runs > 1 && bound == c[0] && !s.truncated;
  if (getenv("VH_STATS"))
    fprintf(stderr, "runs %lu restarts %lu maxdec %lu hot %d ops %lu\n", s.runs, s.restarts, s.maxdec, sched::g_run->nhot, s.ops / s.runs);
}
static Case mk(int bound, const std::vector<std::vector<int>> &p) {
  Case c{bound, (int)p.size()};
  for (auto &q : p) {
    c.push_back((int)q.size());
    c.insert(c.end(), q.begin(), q.end());
  }
  return c;
}
static std::string show(const Case &c) {
  std::string o = "at most " + std::to_string(c[0]) + " preemptions:";
  for (auto &p : decode(c)) {
    o += o.back() == ':' ? " " : " || ";
    for (size_t i = 0; i < p.size(); i++)
      o += std::string(i ? "; " : "") + OPS[p[i]];
  }
  return o;
}
static const std::vector<int> REP = {O_SR, O_FRL, O_ORC, O_US, O_UC, O_MO, O_CF, O_EL, O_FS, O_W, O_OWC};
int main(int argc, char **argv) {
  std::vector<vh::Suite> S;
  auto all = [](const Case &c) { run(c, false); };
  auto idx = [](const Case &c) { run(c, true); };
  S.push_back({"c06_pairs", "every pair of operations run by two threads, every schedule up to the preemption bound",
               [](const Visit &v) {
                 for (int a = 0; a < O_N; a++)
                   for (int b = a; b < O_N; b++)
                     v(mk(vh::g_thorough ? 4 : 3, {{a}, {b}}));
               },
               all, false, 60, show, true});
  S.push_back({"c06_seqs", "every pair of two-operation sequences over a representative alphabet, every schedule up to the preemption bound",
               [](const Visit &v) {
                 auto &R = REP;
                 for (size_t a = 0; a < R.size(); a++)
                   for (size_t b = 0; b < R.size(); b++)
                     for (size_t c = 0; c < R.size(); c++)
                       for (size_t d = 0; d < R.size(); d++) {
                         if (a * 100 + b > c * 100 + d)
                           continue;
                         v(mk(vh::g_thorough ? 2 : 1, {{R[a], R[b]}, {R[c], R[d]}}));
                       }
               },
               all, false, 60, show, true});
  S.push_back({"c06_three", "every triple of operations run by three threads, every schedule up to the preemption bound",
               [](const Visit &v) {
                 auto &R = REP;
                 for (size_t a = 0; a < R.size(); a++)
                   for (size_t b = a; b < R.size(); b++)
                     for (size_t c = b; c < R.size(); c++)
                       v(mk(vh::g_thorough ? 3 : 1, {{R[a]}, {R[b]}, {R[c]}}));
               },
               all, false, 60, show, true});
  S.push_back({"c07_reads", "every combination of short and long stream and file reads by two and three threads, every schedule up to the bound",
               [](const Visit &v) {
                 std::vector<int> R{O_SR, O_SRL, O_FR, O_FRL, O_US};
                 for (int a : R)
                   for (int b : R)
                     for (int c : R) {
                       v(mk(vh::g_thorough ? 4 : 2, {{a, b}, {c}}));
                       if (a <= b && b <= c)
                         v(mk(vh::g_thorough ? 3 : 2, {{a}, {b}, {c}}));
                     }
               },
               idx, false, 60, show, true});
  return vh::main_(argc, argv, S);
}
