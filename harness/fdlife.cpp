// One descriptor number through its lifetimes: tracked files, tracked pipes and
// untracked connections that get the number one after another, closed through
// the wrappers or behind the runtime's back (by a library, dup2, ...), starting
// from a standard stream or from nothing.
#include "io.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

enum LifeOp { FILE_ = 0, FIFO_, UNTR, FOPEN, CLOSE, RAWCLOSE, READ, WRITE, FCLOSE_STD };
static const char *NAMES[] = {"open file", "open pipe", "untracked connection", "fopen file", "close", "closed elsewhere", "read", "write", "fclose"};
struct Plan {
  std::vector<int> opens, slots; // slot: -1 ordinary, 0..2 standard
  bool rd, wr;
};
static Plan PL[3] = {{{FILE_, UNTR, FOPEN}, {-1, 0, 2}, true, false}, {{FIFO_, UNTR, FILE_}, {-1, 0}, true, false}, {{FILE_, FIFO_, UNTR}, {-1, 1, 2}, false, true}};

// [slot, ops...]
static void gen(int pi, const Visit &v) {
  const Plan &P = PL[pi];
  fixtures();
  size_t len = vh::g_thorough ? 10 : 8;
  for (int slot : P.slots) {
    Case c{slot};
    std::function<void(int, bool)> rec = [&](int cur, bool must) { // cur: -1 closed, 100 standard stream, else the opening op
      if (c.size() - 1 == len) {
        v(c);
        return;
      }
      auto go = [&](int op, int next, bool m) {
        c.push_back(op);
        rec(next, m);
        c.pop_back();
      };
      if (cur == -1) {
        for (int o : P.opens)
          if (!must || o != UNTR)
            go(o, o, false);
        return;
      }
      int last = c.size() > 1 ? c.back() : -1;
      if (last != READ && last != WRITE) { // one transfer per life
        if (P.rd && !(cur == 100 && slot != 0))
          go(READ, cur, false);
        if (P.wr && !(cur == 100 && slot == 0))
          go(WRITE, cur, false);
      }
      go(CLOSE, -1, false);
      if (cur != UNTR && cur != FOPEN)
        go(RAWCLOSE, -1, true);
      if (cur == 100 && slot == 0)
        go(FCLOSE_STD, -1, false);
    };
    rec(slot < 0 ? -1 : 100, false);
  }
}

struct ExpSink {
  std::string name;
  int fd;
  size_t src;
  uint64_t off;
  lab l;
};
static std::vector<std::pair<std::string, int>> g_src;
static std::vector<ExpSink> g_sinks;
static int high(int fd) {
  int n = fcntl(fd, F_DUPFD, 100);
  VH_CHECK(n >= 100, "harness: dup");
  ::close(fd);
  return n;
}
static void run(const Case &c) {
  fixtures();
  int slot = c[0], peer = -1;
  for (int i = 0; i < 3; i++) {
    int sv[2];
    VH_CHECK(::socketpair(AF_UNIX, SOCK_STREAM, 0, sv) == 0, "harness");
    int a = high(sv[0]), b = high(sv[1]);
    VH_CHECK(dup2(a, i) == i, "harness");
    ::close(a);
    if (i == slot)
      peer = b;
  }
  for (const char *e : {"POLYTRACKER_STDIN_SOURCE", "POLYTRACKER_STDOUT_SINK", "POLYTRACKER_STDERR_SINK"})
    unsetenv(e);
  static const char *ENV[] = {"POLYTRACKER_STDIN_SOURCE", "POLYTRACKER_STDOUT_SINK", "POLYTRACKER_STDERR_SINK"};
  static const char *STD[] = {"/dev/stdin", "/dev/stdout", "/dev/stderr"};
  if (slot >= 0)
    setenv(ENV[slot], "1", 1);
  start_runtime();
  setvbuf(stdout, nullptr, _IONBF, 0);
  g_src.clear();
  g_sinks.clear();
  if (slot >= 0)
    g_src.push_back({STD[slot], slot});
  RL r0;
  int keep = __dfsw_open("w/A", O_RDONLY, 0, 0, nullptr, &r0);
  VH_CHECK(keep >= 0, "harness: open");
  g_src.push_back({"w/A", keep});
  Buf tb(4);
  RL r1;
  VH_CHECK(__dfsw_read(keep, tb.p(), 4, 0, 0, 0, &r1) == 4, "harness: read");
  lab tl[4];
  for (int i = 0; i < 4; i++)
    tl[i] = tb.at(i);
  int fd = slot, cur = slot < 0 ? -1 : 100;
  size_t src = 0; // index of the current source
  uint64_t roff = 0, woff = 0;
  FILE *f = nullptr;
  for (size_t k = 1; k < c.size(); k++) {
    int op = c[k];
    RL r;
    switch (op) {
    case FILE_:
      fd = __dfsw_open("w/BIG", O_RDWR, 0, 0, nullptr, &r);
      VH_CHECK(fd >= 0, "harness: open");
      g_src.push_back({"w/BIG", fd});
      break;
    case FIFO_:
      fd = __dfsw_open("w/F1", O_RDWR | O_NONBLOCK, 0, 0, nullptr, &r);
      VH_CHECK(fd >= 0, "harness: open");
      g_src.push_back({"w/F1", fd});
      break;
    case FOPEN:
      f = __dfsw_fopen("w/BIG", "r+", 0, 0, &r);
      VH_CHECK(f, "harness: fopen");
      fd = fileno(f);
      g_src.push_back({"w/BIG", fd});
      break;
    case UNTR: {
      int sv[2];
      VH_CHECK(::socketpair(AF_UNIX, SOCK_STREAM, 0, sv) == 0, "harness");
      fd = sv[0];
      peer = high(sv[1]);
      break;
    }
    case CLOSE:
    case FCLOSE_STD:
    case RAWCLOSE:
      if (op == RAWCLOSE)
        ::close(fd);
      else if (op == FCLOSE_STD)
        VH_CHECK(__dfsw_fclose(stdin, 0, &r) == 0, "fclose fails");
      else if (cur == FOPEN)
        VH_CHECK(__dfsw_fclose(f, 0, &r) == 0, "fclose fails");
      else
        VH_CHECK(__dfsw_close(fd, 0, &r) == 0, "close fails");
      if (cur == UNTR || cur == 100)
        ::close(peer);
      cur = -1;
      break;
    case READ: {
      bool tracked = cur != UNTR;
      if (cur == FIFO_ || cur == UNTR || cur == 100)
        VH_CHECK(::write(cur == FIFO_ ? fd : peer, "xyz", 3) == 3, "harness: feed");
      Buf b(5);
      long n = __dfsw_read(fd, b.p(), 3, 0, 0, 0, &r);
      VH_CHECK(n == 3, "read returned %ld", n);
      r.zero("read");
      Live lv;
      for (int i = 0; i < 5; i++) {
        if (i >= 3 || !tracked) {
          VH_CHECK(b.at(i) == PRE, "a byte that was not delivered from a tracked input (byte %d) carries label %u", i, b.at(i));
          continue;
        }
        expect_source(lv.t, b.at(i), g_src[src].first, fd, roff + i, "read", i);
        auto s = lv.t.expand(b.at(i));
        VH_CHECK(s.begin()->first == src, "byte %d is attributed to source number %u instead of %zu", i, s.begin()->first, src);
      }
      roff += 3;
      break;
    }
    case WRITE: {
      Buf b(3);
      dfsan_set_label(0, b.p(), 3);
      dfsan_set_label(tl[k % 4], b.p(), 1);
      dfsan_set_label(tl[(k + 1) % 4], b.p() + 2, 1);
      memcpy(b.p(), "uvw", 3);
      long n = __dfsw_write(fd, b.p(), 3, 0, 0, 0, &r);
      VH_CHECK(n == 3, "write returned %ld", n);
      if (cur != UNTR) {
        g_sinks.push_back({g_src[src].first, fd, src, woff, tl[k % 4]});
        g_sinks.push_back({g_src[src].first, fd, src, woff + 2, tl[(k + 1) % 4]});
      }
      woff += 3;
      break;
    }
    }
    if (op <= FOPEN) {
      cur = op;
      if (op != UNTR)
        src = g_src.size() - 1;
      roff = woff = 0;
    }
    vh::st().transitions++;
  }
  vh::st().nontrivial++;
  end_case([](Tdag &t) {
    VH_CHECK(t.nsrc() == g_src.size(), "%zu sources are recorded instead of %zu", t.nsrc(), g_src.size());
    for (size_t i = 0; i < g_src.size(); i++)
      VH_CHECK(t.src(i).name == g_src[i].first && t.src(i).fd == g_src[i].second, "source %zu is recorded as '%s' (fd %d) instead of '%s' (fd %d)", i,
               t.src(i).name.c_str(), t.src(i).fd, g_src[i].first.c_str(), g_src[i].second);
    VH_CHECK(t.nsink() == g_sinks.size(), "%zu output records instead of %zu", t.nsink(), g_sinks.size());
    for (size_t i = 0; i < g_sinks.size(); i++) {
      auto s = t.sink(i);
      VH_CHECK(s.idx == g_sinks[i].src && s.off == g_sinks[i].off && s.label == g_sinks[i].l, "output record %zu: source %u offset %lu label %u instead of %zu, %lu, %u", i, s.idx,
               s.off, s.label, g_sinks[i].src, g_sinks[i].off, g_sinks[i].l);
    }
  });
}
int main(int argc, char **argv) {
  std::vector<vh::Suite> S;
  static const char *N[] = {"c14_life", "c15_life", "c16_life"};
  for (int i = 0; i < 3; i++) {
    vh::Suite s;
    s.name = N[i];
    s.rule = "every sequence of lifetimes of one descriptor number (tracked files and pipes, untracked connections, standard streams; closed through the wrappers or elsewhere) up to the bound";
    s.fork_each = true;
    s.gen = [i](const Visit &v) { gen(i, v); };
    s.run = run;
    s.describe = [](const Case &c) {
      std::string o = c[0] < 0 ? "" : "standard stream " + std::to_string(c[0]);
      for (size_t k = 1; k < c.size(); k++)
        o += std::string(o.empty() ? "" : "; ") + NAMES[c[k]];
      return o;
    };
    S.push_back(s);
  }
  vh::Suite s;
  s.name = "c14_dev";
  s.rule = "mappings of a device without a size, of several lengths and offsets";
  s.fork_each = true;
  s.gen = [](const Visit &v) {
    for (int n : {1, 2, 100, 4095, 4096, 4097, 9000})
      for (int o : {0, 4096, 1 << 20})
        for (int sh : {0, 1})
          v({n, o, sh});
  };
  s.run = [](const Case &c) {
    fixtures();
    start_runtime();
    RL r, r2;
    int fd = __dfsw_open("/dev/zero", O_RDWR, 0, 0, nullptr, &r);
    VH_CHECK(fd >= 0, "open of /dev/zero fails");
    uint8_t *p = (uint8_t *)__dfsw_mmap(nullptr, c[0], PROT_READ | PROT_WRITE, c[2] ? MAP_SHARED : MAP_PRIVATE, fd, c[1], 0, 0, 0, 0, 0, 0, &r2);
    VH_CHECK(p != MAP_FAILED, "mmap of /dev/zero fails with errno %d", errno);
    {
      Live lv;
      for (int i = 0; i < c[0]; i++)
        expect_source(lv.t, dfsan_read_label(p + i, 1), "/dev/zero", fd, (uint64_t)c[1] + i, "mmap", i);
    }
    vh::st().nontrivial++;
    end_case();
  };
  s.describe = [](const Case &c) { return "map " + std::to_string(c[0]) + " bytes of /dev/zero at " + std::to_string(c[1]); };
  S.push_back(s);
  return vh::main_(argc, argv, S);
}
