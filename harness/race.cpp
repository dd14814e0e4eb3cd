// C33: tracked calls of two threads, interleaved at every library-call boundary.
// The library calls the wrappers make are routed here by the linker (--wrap);
// every call and every mutex acquisition is a scheduling point. One thread runs
// at a time; a case names the points at which the other thread takes over.
#include "io.h"
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>

static thread_local int t_me = -1;
static sem_t g_sem[2];
static bool g_done[2];
static int g_step;
static std::vector<int> g_switch;
static std::string g_err;

static void handoff() {
  int o = 1 - t_me;
  sem_post(&g_sem[o]);
  while (sem_wait(&g_sem[t_me]) != 0)
    ;
}
static void point() {
  if (t_me < 0)
    return;
  int e = errno, s = g_step++;
  vh::st().transitions++;
  for (int x : g_switch)
    if (x == s && !g_done[1 - t_me])
      handoff();
  errno = e;
}
#define WRAP(ret, name, params, args)                                                                                  \
  extern "C" ret __real_##name params;                                                                                 \
  extern "C" ret __wrap_##name params {                                                                                \
    point();                                                                                                           \
    ret r = __real_##name args;                                                                                        \
    point();                                                                                                           \
    return r;                                                                                                          \
  }
extern "C" int __real_open(const char *, int, ...);
extern "C" int __wrap_open(const char *p, int f, ...) {
  va_list a;
  va_start(a, f);
  int m = va_arg(a, int);
  va_end(a);
  point();
  int r = __real_open(p, f, m);
  point();
  return r;
}
extern "C" int __real_open64(const char *, int, ...);
extern "C" int __wrap_open64(const char *p, int f, ...) {
  va_list a;
  va_start(a, f);
  int m = va_arg(a, int);
  va_end(a);
  point();
  int r = __real_open64(p, f, m);
  point();
  return r;
}
WRAP(int, close, (int a), (a))
WRAP(FILE *, fopen, (const char *a, const char *b), (a, b))
WRAP(FILE *, fopen64, (const char *a, const char *b), (a, b))
WRAP(int, fclose, (FILE * a), (a))
WRAP(ssize_t, read, (int a, void *b, size_t c), (a, b, c))
WRAP(ssize_t, pread, (int a, void *b, size_t c, off_t d), (a, b, c, d))
WRAP(ssize_t, write, (int a, const void *b, size_t c), (a, b, c))
WRAP(ssize_t, recv, (int a, void *b, size_t c, int d), (a, b, c, d))
WRAP(off_t, lseek, (int a, off_t b, int c), (a, b, c))
WRAP(size_t, fread, (void *a, size_t b, size_t c, FILE *d), (a, b, c, d))
WRAP(int, fgetc, (FILE * a), (a))
WRAP(int, connect, (int a, const sockaddr *b, socklen_t c), (a, b, c))
WRAP(int, accept, (int a, sockaddr *b, socklen_t *c), (a, b, c))
WRAP(int, getsockname, (int a, sockaddr *b, socklen_t *c), (a, b, c))
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t *);
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (t_me < 0)
    return __real_pthread_mutex_lock(m);
  point();
  while (pthread_mutex_trylock(m) != 0) {
    if (g_done[1 - t_me]) {
      g_err = "a thread waits for a lock that is never released";
      return __real_pthread_mutex_lock(m);
    }
    handoff();
  }
  return 0;
}
extern "C" int __real_pthread_rwlock_rdlock(pthread_rwlock_t *);
extern "C" int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  if (t_me < 0)
    return __real_pthread_rwlock_rdlock(m);
  point();
  while (pthread_rwlock_tryrdlock(m) != 0)
    handoff();
  return 0;
}
extern "C" int __real_pthread_rwlock_wrlock(pthread_rwlock_t *);
extern "C" int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  if (t_me < 0)
    return __real_pthread_rwlock_wrlock(m);
  point();
  while (pthread_rwlock_trywrlock(m) != 0)
    handoff();
  return 0;
}

struct Want {
  std::string what, name;
  int fd;
  uint64_t off;
  lab l;
};
struct T {
  int t;
  int x = -1, y = -1, ff = -1, ls = -1, c = -1, peer = -1, feed = -1;
  FILE *f = nullptr, *g = nullptr;
  uint64_t pos = 0; // stream bytes read from the pipe
  uint8_t tb[4];
  lab tl[4];
  std::vector<Want> rd, wr;
  const char *own() { return t ? "w/B" : "w/A"; }
  const char *cross() { return t ? "w/A" : "w/B"; }
  std::string own_data() { return t ? "0123456" : "ab\ncdefg\nhi"; }
  std::string cross_data() { return t ? "ab\ncdefg\nhi" : "0123456"; }
  void got(const char *what, const std::string &name, int fd, uint64_t off, const uint8_t *b, size_t n) {
    for (size_t i = 0; i < n; i++)
      rd.push_back({what, name, fd, off + i, dfsan_read_label(b + i, 1)});
    vh::st().nontrivial++;
  }
  void data(const char *what, const std::string &d, size_t off, const uint8_t *b, long n, size_t want) {
    if (n != (long)want || d.compare(off, want, (const char *)b, want))
      vh::fail("%s by thread %d did not deliver the file's bytes", what, t);
  }
};
static sockaddr_in g_addr[2];
static void setup(T &s, int t) {
  s.t = t;
  RL r;
  lab va[2] = {0, 0};
  s.x = __dfsw_open(s.own(), O_RDONLY, 0, 0, va, &r);
  s.f = __dfsw_fopen(t ? "w/BIG" : "w/N", "r", 0, 0, &r);
  std::string fifo = t ? "w/F2" : "w/F1";
  int rw = ::open(fifo.c_str(), O_RDWR | O_NONBLOCK);
  s.feed = fcntl(rw, F_DUPFD, 300);
  s.ff = __dfsw_open(fifo.c_str(), O_RDONLY | O_NONBLOCK, 0, 0, va, &r);
  ::close(rw);
  VH_CHECK(::write(s.feed, "PQRSTUVW", 8) == 8, "harness: feed");
  int ls = listener(g_addr[t]);
  s.ls = fcntl(ls, F_DUPFD, 300);
  ::close(ls);
  int fd = __dfsw_open("w/BIG", O_RDONLY, 0, 0, va, &r);
  VH_CHECK(__dfsw_read(fd, s.tb, 4, 0, 0, 0, &r) == 4, "harness: read");
  __dfsw_close(fd, 0, &r);
  for (int i = 0; i < 4; i++)
    s.tl[i] = dfsan_read_label(s.tb + i, 1);
}
static void close_x(T &s) {
  RL r;
  int rc = __dfsw_close(s.x, 0, &r);
  VH_CHECK(rc == 0, "close returned %d", rc);
}
static void read_x(T &s) {
  RL r;
  uint8_t b[4];
  long n = __dfsw_read(s.x, b, 2, 0, 0, 0, &r);
  s.data("read", s.own_data(), 0, b, n, 2);
  s.got("read", s.own(), s.x, 0, b, 2);
}
static void pread_x(T &s) {
  RL r;
  uint8_t b[4];
  long n = __dfsw_pread(s.x, b, 3, 2, 0, 0, 0, 0, &r);
  s.data("pread", s.own_data(), 2, b, n, 3);
  s.got("pread", s.own(), s.x, 2, b, 3);
}
static void open_y(T &s) {
  RL r;
  lab va[2] = {0, 0};
  uint8_t b[4];
  s.y = __dfsw_open(s.cross(), O_RDONLY, 0, 0, va, &r);
  VH_CHECK(s.y >= 0, "open failed");
  long n = __dfsw_read(s.y, b, 3, 0, 0, 0, &r);
  s.data("read", s.cross_data(), 0, b, n, 3);
  s.got("read", s.cross(), s.y, 0, b, 3);
}
static void close_y(T &s) {
  RL r;
  VH_CHECK(__dfsw_close(s.y, 0, &r) == 0, "close failed");
}
static void fclose_f(T &s) {
  RL r;
  VH_CHECK(__dfsw_fclose(s.f, 0, &r) == 0, "fclose failed");
}
static void fopen_g(T &s) {
  RL r;
  uint8_t b[4];
  s.g = __dfsw_fopen(s.cross(), "r", 0, 0, &r);
  VH_CHECK(s.g, "fopen failed");
  int fd = fileno(s.g);
  int c = __dfsw_fgetc(s.g, 0, &r);
  VH_CHECK(c == s.cross_data()[0], "fgetc returned %d", c);
  s.rd.push_back({"fgetc", s.cross(), fd, 0, r.v});
  long n = __dfsw_fread(b, 1, 2, s.g, 0, 0, 0, 0, &r);
  s.data("fread", s.cross_data(), 1, b, n, 2);
  s.got("fread", s.cross(), fd, 1, b, 2);
}
static void fclose_g(T &s) {
  RL r;
  VH_CHECK(__dfsw_fclose(s.g, 0, &r) == 0, "fclose failed");
}
static void open_w(T &s) {
  RL r;
  lab va[2] = {0, 0};
  std::string p = s.t ? "w/O1" : "w/O2";
  s.y = __dfsw_open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0, 0, va, &r, 0644);
  VH_CHECK(s.y >= 0, "open failed");
  VH_CHECK(__dfsw_write(s.y, s.tb, 3, 0, 0, 0, &r) == 3, "write failed");
  for (int i = 0; i < 3; i++)
    s.wr.push_back({"write", p, s.y, (uint64_t)i, s.tl[i]});
  vh::st().nontrivial++;
}
static void read_fifo(T &s) {
  RL r;
  uint8_t b[4];
  long n = __dfsw_read(s.ff, b, 3, 0, 0, 0, &r);
  s.data("read", "PQRSTUVW", s.pos, b, n, 3);
  s.got("read", s.t ? "w/F2" : "w/F1", s.ff, s.pos, b, 3);
  s.pos += 3;
}
static std::string sock_name(int fd) {
  int me = t_me;
  t_me = -1;
  sockaddr_in l{}, m{};
  socklen_t n = sizeof l;
  ::getsockname(fd, (sockaddr *)&l, &n);
  n = sizeof m;
  ::getpeername(fd, (sockaddr *)&m, &n);
  t_me = me;
  return "socket:127.0.0.1:" + std::to_string(ntohs(l.sin_port)) + "-127.0.0.1:" + std::to_string(ntohs(m.sin_port));
}
static void plain(std::function<void()> f) { // not part of the schedule
  int me = t_me;
  t_me = -1;
  f();
  t_me = me;
}
static void connect_c(T &s) {
  RL r;
  s.c = ::socket(AF_INET, SOCK_STREAM, 0);
  nolinger(s.c);
  VH_CHECK(__dfsw_connect(s.c, (sockaddr *)&g_addr[s.t], sizeof g_addr[0], 0, 0, 0, &r) == 0, "connect failed");
  plain([&] {
    int p = ::accept(s.ls, nullptr, nullptr);
    s.peer = fcntl(p, F_DUPFD, 300);
    nolinger(p);
    ::close(p);
    VH_CHECK(::write(s.peer, "uvw", 3) == 3, "harness: feed");
  });
  uint8_t b[4];
  long n = __dfsw_recv(s.c, b, 3, 0, 0, 0, 0, 0, &r);
  s.data("recv", "uvw", 0, b, n, 3);
  s.got("recv", sock_name(s.c), s.c, 0, b, 3);
}
static void accept_c(T &s) {
  RL r;
  plain([&] {
    int p = ::socket(AF_INET, SOCK_STREAM, 0);
    s.peer = fcntl(p, F_DUPFD, 300);
    nolinger(p);
    ::close(p);
    VH_CHECK(::connect(s.peer, (sockaddr *)&g_addr[s.t], sizeof g_addr[0]) == 0, "harness: connect");
    VH_CHECK(::write(s.peer, "uvw", 3) == 3, "harness: feed");
  });
  s.c = __dfsw_accept(s.ls, nullptr, nullptr, 0, 0, 0, &r);
  VH_CHECK(s.c >= 0, "accept failed");
  uint8_t b[4];
  long n = __dfsw_recv(s.c, b, 3, 0, 0, 0, 0, 0, &r);
  s.data("recv", "uvw", 0, b, n, 3);
  s.got("recv", sock_name(s.c), s.c, 0, b, 3);
}
static void close_c(T &s) {
  RL r;
  VH_CHECK(__dfsw_close(s.c, 0, &r) == 0, "close failed");
}
struct Prog {
  const char *name;
  std::vector<void (*)(T &)> ops;
};
static const std::vector<Prog> P = {
    {"close", {close_x}},
    {"open+read", {open_y}},
    {"close; open+read", {close_x, open_y}},
    {"open+read; close", {open_y, close_y}},
    {"fclose", {fclose_f}},
    {"fopen+fgetc+fread", {fopen_g}},
    {"fclose; open+read", {fclose_f, open_y}},
    {"fopen+fgetc+fread; fclose", {fopen_g, fclose_g}},
    {"read; pread", {read_x, pread_x}},
    {"read; close", {read_x, close_x}},
    {"open+write", {open_w}},
    {"close; open+write", {close_x, open_w}},
    {"two pipe reads", {read_fifo, read_fifo}},
    {"connect+recv", {connect_c}},
    {"accept+recv; close", {accept_c, close_c}},
};
static T g_t[2];
static int g_prog[2];
static void *body(void *a) {
  long me = (long)a;
  while (sem_wait(&g_sem[me]) != 0)
    ;
  t_me = me;
  try {
    for (auto f : P[g_prog[me]].ops) {
      f(g_t[me]);
      point();
    }
  } catch (vh::Fail &f) {
    if (g_err.empty())
      g_err = f.msg;
  }
  g_done[me] = true;
  t_me = -1;
  sem_post(&g_sem[1 - me]);
  return nullptr;
}
static void run_case(const Case &c) {
  g_prog[0] = c[0];
  g_prog[1] = c[1];
  g_switch.assign(c.begin() + 3, c.end());
  for (const char *f : {"w/O1", "w/O2"})
    unlink(f);
  start_runtime();
  for (int t = 0; t < 2; t++)
    setup(g_t[t], t);
  sem_init(&g_sem[0], 0, 0);
  sem_init(&g_sem[1], 0, 0);
  pthread_t th[2];
  for (long t = 0; t < 2; t++)
    VH_CHECK(pthread_create(&th[t], nullptr, body, (void *)t) == 0, "harness: thread");
  sem_post(&g_sem[c[2]]);
  for (int t = 0; t < 2; t++)
    pthread_join(th[t], nullptr);
}
static void verify(Tdag &t) {
  for (int i = 0; i < 2; i++)
    for (auto &w : g_t[i].rd)
      expect_source(t, w.l, w.name, w.fd, w.off, w.what.c_str(), w.off);
  using Rec = std::tuple<std::string, int, uint64_t, lab>;
  std::vector<Rec> a, b;
  for (int i = 0; i < 2; i++)
    for (auto &w : g_t[i].wr)
      a.push_back({w.name, w.fd, w.off, w.l});
  for (size_t i = 0; i < t.nsink(); i++) {
    auto s = t.sink(i);
    VH_CHECK(s.idx < t.nsrc(), "output record %zu refers to entry %u, which does not exist", i, s.idx);
    auto e = t.src(s.idx);
    b.push_back({e.name, e.fd, s.off, s.label});
  }
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  VH_CHECK(a == b, "%zu tainted bytes were written but the output records (%zu) are not exactly those", a.size(), b.size());
}
// Number of scheduling points of a pair when nothing is interrupted.
static int measure(int p0, int p1, int first) {
  int fd[2];
  VH_CHECK(pipe(fd) == 0, "harness: pipe");
  pid_t p = fork();
  if (p == 0) {
    ::close(fd[0]);
    int n = 40;
    try {
      run_case({p0, p1, first});
      n = g_step;
    } catch (vh::Fail &) {
    }
    (void)!::write(fd[1], &n, sizeof n);
    _exit(0);
  }
  ::close(fd[1]);
  int n = 40, st;
  if (::read(fd[0], &n, sizeof n) != sizeof n)
    n = 40;
  ::close(fd[0]);
  waitpid(p, &st, 0);
  return std::min(n, 60);
}
int main(int argc, char **argv) {
  std::vector<vh::Suite> suites;
  vh::Suite s;
  s.name = "c33_race";
  s.rule = "two threads opening, reading, writing and closing descriptors, streams, pipes and sockets of their own: every "
           "pair of programs, every interleaving at library-call boundaries and lock acquisitions with up to two (thorough: "
           "three) preemptions";
  s.fork_each = true;
  s.timeout = 60;
  s.gen = [](const Visit &v) {
    fixtures();
    for (int a = 0; a < (int)P.size(); a++)
      for (int b = a; b < (int)P.size(); b++)
        for (int first = 0; first < 2; first++) {
          int n = measure(a, b, first) + 2, k = vh::g_thorough ? 3 : 2;
          std::function<void(Case, int, int)> rec = [&](Case c, int from, int left) {
            v(c);
            if (left)
              for (int i = from; i < n; i++) {
                Case d = c;
                d.push_back(i);
                rec(d, i + 1, left - 1);
              }
          };
          rec({a, b, first}, 0, k);
        }
  };
  s.run = [](const Case &c) {
    fixtures();
    run_case(c);
    if (!g_err.empty())
      vh::fail("%s", g_err.c_str());
    end_case(verify);
  };
  s.describe = [](const Case &c) {
    std::string o = std::string("thread 0: ") + P[c[0]].name + "; thread 1: " + P[c[1]].name + "; thread " +
                    std::to_string(c[2]) + " first, switching at points";
    for (size_t i = 3; i < c.size(); i++)
      o += " " + std::to_string(c[i]);
    return o;
  };
  suites.push_back(s);
  return vh::main_(argc, argv, suites);
}
