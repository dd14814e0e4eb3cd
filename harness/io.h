// Shared machinery for the suites that drive the tracked input/output calls.
// Each case runs in its own process: the real runtime is started, the calls
// are made through the DFSan wrapper ABI, and shadow memory plus the trace
// file (read back with tdag.h) are compared with what really happened.
#pragma once
#include "dfsw.h"
#include "tdag.h"
#include "vh.h"
#include <arpa/inet.h>
#include <errno.h>
#include <functional>
#include <memory>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/resource.h>
#include <sys/stat.h>

using vh::Case;
using vh::Visit;

static const lab UNSET = 0xABCDEF01u; // never a valid label
static std::string g_dir;             // per-worker directory
static bool g_fix = false;

static void put(const std::string &p, const std::string &c, int mode = 0644) {
  int fd = ::open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, mode);
  VH_CHECK(fd >= 0, "harness: cannot create %s", p.c_str());
  size_t n = 0;
  while (n < c.size()) {
    ssize_t r = ::write(fd, c.data() + n, c.size() - n);
    VH_CHECK(r > 0, "harness: write");
    n += r;
  }
  ::close(fd);
}
static std::string slurp(const std::string &p) {
  std::string r;
  int fd = ::open(p.c_str(), O_RDONLY);
  if (fd < 0)
    return "<missing>";
  char b[4096];
  ssize_t n;
  while ((n = ::read(fd, b, sizeof b)) > 0)
    r.append(b, n);
  ::close(fd);
  return r;
}
// File contents: A has newlines and an embedded NUL-free text, N has NULs,
// BIG spans more than one page.
static std::string big_content() {
  std::string s;
  for (int i = 0; i < 5000; i++)
    s += (char)(1 + (i * 7) % 255);
  return s;
}
static void fixtures() {
  if (g_fix)
    return;
  g_fix = true;
  signal(SIGPIPE, SIG_IGN);
  g_dir = vh::g_scratch + "/io" + std::to_string(vh::g_worker) +
          (vh::g_replay ? "r" : "");
  mkdir(g_dir.c_str(), 0755);
  VH_CHECK(chdir(g_dir.c_str()) == 0, "harness: chdir");
  for (const char *t : {"w", "p"}) {
    mkdir(t, 0755);
    std::string d = std::string(t) + "/";
    put(d + "A", "ab\ncdefg\nhi");
    put(d + "B", "0123456");
    put(d + "N", std::string("x\0y\n\0\0z\nq", 9));
    put(d + "E", "");
    put(d + "H", std::string("\xff\x80\n\x7f\xfe", 5));
    put(d + "BIG", big_content());
    put(d + "S", "sparse");
    VH_CHECK(truncate((d + "S").c_str(), 3ll << 32) == 0, "harness: truncate");
    put(d + "T", "top");
    if (truncate((d + "T").c_str(), 1ll << 54) != 0)
      VH_CHECK(truncate((d + "T").c_str(), 1ll << 43) == 0, "harness: truncate");
    mkfifo((d + "F1").c_str(), 0644);
    mkfifo((d + "F2").c_str(), 0644);
  }
}

// Closing resets the connection: no port stays behind in TIME_WAIT.
static void nolinger(int fd) {
  struct linger l {1, 0};
  setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
}
// A loopback listener; waits while the ports of earlier cases are still taken.
static int listener(sockaddr_in &sa) {
  for (int i = 0; i < 500; i++) {
    int ls = ::socket(AF_INET, SOCK_STREAM, 0), one = 1;
    setsockopt(ls, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    nolinger(ls);
    sa = {};
    sa.sin_family = AF_INET;
    sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t sl = sizeof sa;
    if (::bind(ls, (sockaddr *)&sa, sl) == 0 && ::listen(ls, 2) == 0 && ::getsockname(ls, (sockaddr *)&sa, &sl) == 0)
      return ls;
    ::close(ls);
    usleep(20000);
  }
  vh::fail("harness: listen");
}

struct IO {
  std::string db;
  std::function<void(Tdag &)> at_end;
};
static IO g_io;

// atexit handler registered before the runtime's own: runs after the trace has
// been finalized.
static void final_check() {
  int st = 1;
  try {
    Tdag t;
    std::string e = t.open(g_io.db);
    VH_CHECK(e.empty(), "%s", e.c_str());
    if (g_io.at_end)
      g_io.at_end(t);
  } catch (vh::Fail &f) {
    strncpy(vh::st().msg, f.msg.c_str(), sizeof vh::st().msg - 1);
    st = 2;
  }
  vh::st().status = st;
  _exit(st == 1 ? 0 : 7);
}

static void start_runtime(const char *db = nullptr) {
  g_io.db = db ? db : g_dir + "/t.tdag";
  unlink(g_io.db.c_str());
  setenv("POLYDB", g_io.db.c_str(), 1);
  atexit(final_check);
  __taint_start();
}
// Ends the case: orderly exit, then final_check.
[[noreturn]] static void end_case(std::function<void(Tdag &)> f = {}) {
  g_io.at_end = f;
  __dfsw_exit(0, 0);
  _exit(9);
}

// Result label that must be defined by the call.
struct RL {
  lab v = UNSET;
  lab *operator&() { return &v; }
  void check(const char *what) {
    VH_CHECK(v != UNSET, "%s left the taint of its result undefined", what);
  }
  void zero(const char *what) {
    check(what);
    VH_CHECK(v == 0, "%s: untainted result carries label %u", what, v);
  }
};

// A buffer with margins whose shadow starts out with a recognisable label.
static const lab PRE = 0x7000001;
struct Buf {
  static constexpr size_t M = 32;
  std::vector<uint8_t> v;
  size_t n;
  Buf(size_t cap) : v(cap + 2 * M, 0xEE), n(cap) { relabel(); }
  uint8_t *p() { return v.data() + M; }
  void relabel() { dfsan_set_label(PRE, v.data(), v.size()); }
  lab at(long i) { return dfsan_read_label(v.data() + M + i, 1); }
};

struct Live {
  Tdag t;
  Live() {
    std::string e = t.open(g_io.db);
    VH_CHECK(e.empty(), "%s", e.c_str());
  }
};

static std::string show(const std::set<std::pair<unsigned, uint64_t>> &s) {
  std::string o = "{";
  for (auto &x : s)
    o += "(" + std::to_string(x.first) + "," + std::to_string(x.second) + ")";
  return o + "}";
}

// Label l must denote exactly byte `off` of the source opened as `name`.
static void expect_source(Tdag &t, lab l, const std::string &name, int fd,
                          uint64_t off, const char *what, long i) {
  VH_CHECK(l != 0 && l != PRE, "%s: byte %ld delivered from %s is not labelled", what, i, name.c_str());
  VH_CHECK(l < 0x7fffffff && (t.raw(l) >> 63), "%s: byte %ld carries label %u, not an input-byte label", what, i, l);
  auto s = t.expand(l);
  auto [idx, o] = *s.begin();
  auto src = t.src(idx);
  VH_CHECK(src.name == name && (fd == -2 || src.fd == fd),
           "%s: byte %ld of %s (fd %d) is attributed to source '%s' (fd %d)", what, i, name.c_str(), fd,
           src.name.c_str(), src.fd);
  VH_CHECK(o == off, "%s: byte %ld at offset %lu of %s is labelled with offset %lu", what, i, off, name.c_str(), o);
}

// Operation tables and bounded enumeration of operation sequences.
struct Abs {
  int s[8] = {0};
};
template <class W> struct Op {
  std::string name;
  std::function<bool(Abs &)> en; // enabled; updates the abstract state
  std::function<void(W &)> run;
};
template <class W>
static void enumerate(const std::vector<Op<W>> &ops, int depth, const Visit &v,
                      std::function<bool(const Case &)> worth = {}, Case prefix = {}) {
  Case c = prefix;
  size_t base = prefix.size();
  std::function<void(Abs)> rec = [&](Abs a) {
    // every step is checked, so longer sequences subsume their prefixes
    if ((int)(c.size() - base) == depth) {
      if (!worth || worth(c))
        v(c);
      return;
    }
    for (size_t i = 0; i < ops.size(); i++) {
      Abs b = a;
      if (!ops[i].en(b))
        continue;
      c.push_back(i);
      rec(b);
      c.pop_back();
    }
  };
  rec(Abs{});
}
template <class W>
static std::string describe_ops(const std::vector<Op<W>> &ops, const Case &c, size_t from = 0) {
  std::string o;
  for (size_t i = from; i < c.size(); i++)
    o += (o.empty() ? "" : "; ") + (c[i] < (int)ops.size() ? ops[c[i]].name : "?");
  return o;
}
