// C32: intercepted system queries (time, limits, files, polling, signals,
// addresses, users, threads) behave as the originals, and what they deliver
// carries no stale taint.
#include "io.h"
#include <arpa/inet.h>
#include <dlfcn.h>
#include <link.h>
#include <poll.h>
#include <pthread.h>
#include <pwd.h>
#include <sched.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/un.h>
#include <sys/wait.h>

extern "C" {
int __dfsw_stat(const char *, struct stat *, lab, lab, lab *);
int __dfsw_fstat(int, struct stat *, lab, lab, lab *);
int __dfsw_clock_gettime(clockid_t, struct timespec *, lab, lab, lab *);
char *__dfsw_getcwd(char *, size_t, lab, lab, lab *);
char *__dfsw_get_current_dir_name(lab *);
int __dfsw_gethostname(char *, size_t, lab, lab, lab *);
int __dfsw_getrlimit(int, struct rlimit *, lab, lab, lab *);
int __dfsw_getrusage(int, struct rusage *, lab, lab, lab *);
int __dfsw_nanosleep(const struct timespec *, struct timespec *, lab, lab, lab *);
int __dfsw_socketpair(int, int, int, int *, lab, lab, lab, lab, lab *);
time_t __dfsw_time(time_t *, lab, lab *);
char *__dfsw_ctime_r(const time_t *, char *, lab, lab, lab *);
struct tm *__dfsw_localtime_r(const time_t *, struct tm *, lab, lab, lab *);
int __dfsw_inet_pton(int, const char *, void *, lab, lab, lab, lab *);
int __dfsw_getpwuid_r(id_t, struct passwd *, char *, size_t, struct passwd **, lab, lab, lab, lab, lab, lab *);
int __dfsw_poll(struct pollfd *, nfds_t, int, lab, lab, lab, lab *);
int __dfsw_sched_getaffinity(pid_t, size_t, cpu_set_t *, lab, lab, lab, lab *);
int __dfsw_select(int, fd_set *, fd_set *, fd_set *, struct timeval *, lab, lab, lab, lab, lab, lab *);
int __dfsw_sigemptyset(sigset_t *, lab, lab *);
int __dfsw_sigaction(int, const struct sigaction *, struct sigaction *, lab, lab, lab, lab *);
int __dfsw_gettimeofday(struct timeval *, struct timezone *, lab, lab, lab *);
void *__dfsw_dlopen(const char *, int, lab, lab, lab *);
int __dfsw_dl_iterate_phdr(int (*)(void *, struct dl_phdr_info *, size_t, void *, lab, lab, lab, lab *), void *, void *, lab, lab, lab *);
int __dfsw_getsockopt(int, int, int, void *, socklen_t *, lab, lab, lab, lab, lab, lab *);
int __dfsw_getsockname(int, struct sockaddr *, socklen_t *, lab, lab, lab, lab *);
int __dfsw_getpeername(int, struct sockaddr *, socklen_t *, lab, lab, lab, lab *);
int __dfsw_epoll_wait(int, struct epoll_event *, int, int, lab, lab, lab, lab, lab *);
int __dfsw_sigaltstack(const stack_t *, stack_t *, lab, lab, lab *);
sighandler_t __dfsw_signal(int, void *(*)(void *, int, lab, lab *), sighandler_t, lab, lab, lab *);
int __dfsw_pthread_join(pthread_t, void **, lab, lab, lab *);
pid_t __dfsw_fork(lab *);
ssize_t __dfsw_recvmsg(int, struct msghdr *, int, lab, lab, lab, lab *);
int __dfsw_recvmmsg(int, struct mmsghdr *, unsigned, int, struct timespec *, lab, lab, lab, lab, lab, lab *);
int __dfsw_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *, void *, lab, lab *), void *, void *, lab, lab, lab, lab, lab *);
}

static lab g_first = 0;
static lab L(int i) { return g_first + i; }
static void setup() {
  if (g_first)
    return;
  fixtures();
  std::string s(250, 'x');
  put("labels", s);
  mkdir("sub", 0755);
  g_io.db = g_dir + "/y.tdag";
  unlink(g_io.db.c_str());
  setenv("POLYDB", g_io.db.c_str(), 1);
  __taint_start();
  RL r;
  lab va[1] = {0};
  int fd = __dfsw_open("labels", O_RDONLY, 0, 0, va, &r);
  static uint8_t b[250];
  VH_CHECK(__dfsw_read(fd, b, 250, 0, 0, 0, &r) == 250, "harness: read");
  ::close(fd);
  g_first = dfsan_read_label(b, 1);
}
static std::string g_what;
// A labelled buffer: every byte starts out with a stale label.
struct Out {
  std::vector<uint8_t> v, w; // replacement, original
  size_t n;
  static constexpr size_t M = 24;
  Out(size_t n) : v(n + 2 * M, 0x5a), w(n + 2 * M, 0x5a), n(n) { dfsan_set_label(L(3), v.data(), v.size()); }
  void *p() { return v.data() + M; }
  void *q() { return w.data() + M; }
  // bytes [0, written) must carry label l, the others keep theirs
  void labels(size_t written, lab l = 0) {
    for (size_t i = 0; i < v.size(); i++) {
      bool in = i >= M && i < M + written;
      lab g = dfsan_read_label(v.data() + i, 1), x = in ? l : L(3);
      VH_CHECK(g == x, "%s: byte %ld of the result carries label %u instead of %u", g_what.c_str(), (long)i - (long)M, g, x);
    }
  }
  void same() { VH_CHECK(v == w, "%s: delivered data differs from the original call", g_what.c_str()); }
  void outside() {
    for (size_t i = 0; i < v.size(); i++)
      if (i < M || i >= M + n)
        VH_CHECK(v[i] == 0x5a && dfsan_read_label(v.data() + i, 1) == L(3), "%s: byte %ld outside the result changed", g_what.c_str(), (long)i - (long)M);
  }
};
static void rc(long a, int ea, long b, int eb) {
  VH_CHECK(a == b, "%s: result is %ld, the original gives %ld", g_what.c_str(), a, b);
  if (b < 0)
    VH_CHECK(ea == eb, "%s: errno is %d, the original gives %d", g_what.c_str(), ea, eb);
}
#define BOTH(x, y)                                                                                                                              \
  errno = 0;                                                                                                                                   \
  auto a = x;                                                                                                                                  \
  int ea = errno;                                                                                                                              \
  errno = 0;                                                                                                                                   \
  auto b = y;                                                                                                                                  \
  int eb = errno;

static volatile sig_atomic_t g_sig[4];
static siginfo_t g_si;
static void h1(int) { g_sig[0]++; }
static void h2(int) { g_sig[1]++; }
static void h3(int s, siginfo_t *si, void *) {
  g_sig[2]++;
  g_sig[3] = si && si->si_signo == s;
}
static int phdr_tramp(void *cb, struct dl_phdr_info *i, size_t s, void *d, lab, lab, lab, lab *r) {
  *r = 0;
  return ((int (*)(struct dl_phdr_info *, size_t, void *))cb)(i, s, d);
}
static int phdr_cb(struct dl_phdr_info *i, size_t s, void *d) {
  auto *v = (std::vector<std::string> *)d;
  v->push_back(i->dlpi_name);
  return (int)v->size() >= 3 ? 42 : 0;
}
static void *thr_tramp(void *fn, void *arg, lab al, lab *r) {
  *r = 0;
  VH_CHECK(al == 0, "a thread argument arrives with label %u", al);
  return ((void *(*)(void *))fn)(arg);
}
static void *thr(void *a) {
  dfsan_set_label(L(8), a, 1);
  *(int *)a += 1;
  return (char *)a + 7;
}

struct Sc {
  std::string name;
  std::function<void()> run;
};
static std::vector<Sc> SC;
static void add(const std::string &n, std::function<void()> f) { SC.push_back({n, f}); }
// the fields of a message header that receiving fills in
static void hdr_labels(struct mmsghdr *m, bool filled, bool many) {
  auto chk = [&](const void *p, size_t n, const char *what) {
    for (size_t i = 0; i < n; i++) {
      lab g = dfsan_read_label((const char *)p + i, 1);
      VH_CHECK(g == (filled ? 0 : L(3)), "%s: %s of the header carries label %u", g_what.c_str(), what, g);
    }
  };
  if (many)
    chk(&m->msg_len, sizeof m->msg_len, "length");
  chk(&m->msg_hdr.msg_namelen, sizeof m->msg_hdr.msg_namelen, "name length");
  chk(&m->msg_hdr.msg_controllen, sizeof m->msg_hdr.msg_controllen, "control length");
  chk(&m->msg_hdr.msg_flags, sizeof m->msg_hdr.msg_flags, "flags");
}
// leave stale labels on the heap memory the next allocations will get
static void stale_heap() {
  for (size_t n : {16, 64, 128, 4096, 8192}) {
    void *m = malloc(n);
    dfsan_set_label(L(4), m, n);
    free(m);
  }
  char *c = get_current_dir_name();
  if (c)
    dfsan_set_label(L(4), c, strlen(c) + 1);
  free(c);
}
static void build() {
  for (const char *path : {"labels", "sub", "nope", "", "labels/x", "."}) {
    std::string p = path;
    add("stat(" + p + ")", [=] {
      Out o(sizeof(struct stat));
      RL r;
      BOTH(__dfsw_stat(p.c_str(), (struct stat *)o.p(), 0, 0, &r), stat(p.c_str(), (struct stat *)o.q()));
      rc(a, ea, b, eb);
      r.zero("stat");
      o.same();
      o.labels(b == 0 ? o.n : 0);
    });
  }
  for (int k = 0; k < 4; k++)
    add("fstat " + std::to_string(k), [=] {
      int fd = k == 0 ? ::open("labels", O_RDONLY) : k == 1 ? ::open(".", O_RDONLY) : k == 2 ? -1 : 900;
      Out o(sizeof(struct stat));
      RL r;
      BOTH(__dfsw_fstat(fd, (struct stat *)o.p(), 0, 0, &r), fstat(fd, (struct stat *)o.q()));
      rc(a, ea, b, eb);
      r.zero("fstat");
      o.same();
      o.labels(b == 0 ? o.n : 0);
      if (k < 2)
        ::close(fd);
    });
  for (int clk : {CLOCK_REALTIME, CLOCK_MONOTONIC, CLOCK_PROCESS_CPUTIME_ID, 99999, -7777})
    add("clock_gettime(" + std::to_string(clk) + ")", [=] {
      Out o(sizeof(struct timespec));
      RL r;
      BOTH(__dfsw_clock_gettime(clk, (struct timespec *)o.p(), 0, 0, &r), clock_gettime(clk, (struct timespec *)o.q()));
      rc(a, ea, b, eb);
      r.zero("clock_gettime");
      o.outside();
      o.labels(b == 0 ? o.n : 0);
      if (b == 0) {
        auto *x = (struct timespec *)o.p(), *y = (struct timespec *)o.q();
        VH_CHECK(y->tv_sec - x->tv_sec <= 5 && y->tv_sec >= x->tv_sec, "clock_gettime: wrong time");
      }
    });
  for (int sz : {0, 1, 2, 4096, 64, 5000})
    add("getcwd(buf, " + std::to_string(sz) + ")", [=] {
      Out o(5000);
      RL r;
      BOTH(__dfsw_getcwd((char *)o.p(), sz, 0, 0, &r), getcwd((char *)o.q(), sz));
      rc(a ? 0 : -1, ea, b ? 0 : -1, eb);
      r.check("getcwd");
      VH_CHECK(!a || a == o.p(), "getcwd returned another buffer");
      o.same();
      if (b)
        o.labels(strlen(b) + 1);
      else
        o.labels(0);
    });
  add("getcwd(NULL)", [] {
    RL r;
    char *a = __dfsw_getcwd(nullptr, 0, 0, 0, &r), *b = getcwd(nullptr, 0);
    VH_CHECK(a && b && !strcmp(a, b), "getcwd(NULL): wrong result");
    VH_CHECK(dfsan_read_label(a, strlen(a) + 1) == 0, "getcwd(NULL): stale label");
    r.check("getcwd");
    RL r2;
    stale_heap();
    char *c = __dfsw_get_current_dir_name(&r2), *d = get_current_dir_name();
    VH_CHECK(c && d && !strcmp(c, d), "get_current_dir_name: wrong result");
    VH_CHECK(dfsan_read_label(c, strlen(c) + 1) == 0, "get_current_dir_name: stale label");
    r2.zero("get_current_dir_name");
  });
  for (int sz : {0, 1, 256})
    add("gethostname " + std::to_string(sz), [=] {
      Out o(256);
      RL r;
      BOTH(__dfsw_gethostname((char *)o.p(), sz, 0, 0, &r), gethostname((char *)o.q(), sz));
      rc(a, ea, b, eb);
      r.zero("gethostname");
      o.same();
      if (b == 0)
        o.labels(strlen((char *)o.q()) + 1);
    });
  for (int res : {(int)RLIMIT_NOFILE, (int)RLIMIT_STACK, 12345})
    add("getrlimit", [=] {
      Out o(sizeof(struct rlimit));
      RL r;
      BOTH(__dfsw_getrlimit(res, (struct rlimit *)o.p(), 0, 0, &r), getrlimit((__rlimit_resource_t)res, (struct rlimit *)o.q()));
      rc(a, ea, b, eb);
      r.zero("getrlimit");
      o.same();
      o.labels(b == 0 ? o.n : 0);
    });
  for (int who : {(int)RUSAGE_SELF, (int)RUSAGE_CHILDREN, 777})
    add("getrusage", [=] {
      Out o(sizeof(struct rusage));
      RL r;
      BOTH(__dfsw_getrusage(who, (struct rusage *)o.p(), 0, 0, &r), getrusage((__rusage_who_t)who, (struct rusage *)o.q()));
      rc(a, ea, b, eb);
      r.zero("getrusage");
      o.outside();
      o.labels(b == 0 ? o.n : 0);
    });
  for (int k = 0; k < 6; k++) // ok, invalid, interrupted; with and without remainder
    add("nanosleep " + std::to_string(k), [=] {
      struct timespec rq = {0, k / 2 == 0 ? 1000 : k / 2 == 1 ? -5 : 300000000};
      Out o(sizeof(struct timespec));
      RL r;
      auto arm = [&] {
        if (k / 2 != 2)
          return;
        signal(SIGALRM, h1);
        siginterrupt(SIGALRM, 1);
        struct itimerval it = {{0, 0}, {0, 5000}};
        setitimer(ITIMER_REAL, &it, nullptr);
      };
      arm();
      errno = 0;
      int a = __dfsw_nanosleep(&rq, k % 2 ? nullptr : (struct timespec *)o.p(), 0, 0, &r);
      int ea = errno;
      arm();
      errno = 0;
      int b = nanosleep(&rq, k % 2 ? nullptr : (struct timespec *)o.q());
      int eb = errno;
      rc(a, ea, b, eb);
      r.zero("nanosleep");
      o.outside();
      if (k == 4)
        o.labels(o.n);
    });
  for (int dom : {AF_UNIX, AF_INET, 4242})
    add("socketpair", [=] {
      Out o(sizeof(int) * 2);
      RL r;
      BOTH(__dfsw_socketpair(dom, SOCK_STREAM, 0, (int *)o.p(), 0, 0, 0, 0, &r), socketpair(dom, SOCK_STREAM, 0, (int *)o.q()));
      rc(a, ea, b, eb);
      r.zero("socketpair");
      o.outside();
      o.labels(b == 0 ? o.n : 0);
      for (int i = 0; i < 2 && b == 0; i++)
        ::close(((int *)o.p())[i]), ::close(((int *)o.q())[i]);
    });
  add("time", [] {
    RL r, r2;
    time_t a = __dfsw_time(nullptr, 0, &r), b = time(nullptr);
    VH_CHECK(b - a <= 5 && a <= b, "time: wrong");
    r.zero("time");
    Out o(sizeof(time_t));
    a = __dfsw_time((time_t *)o.p(), 0, &r2);
    time_t st;
    memcpy(&st, o.p(), sizeof st);
    VH_CHECK(a == st, "time: stored value differs");
    o.labels(o.n);
  });
  for (int k = 0; k < 4; k++)
    add("gettimeofday", [=] {
      Out o(sizeof(struct timeval)), z(sizeof(struct timezone));
      RL r;
      int a = __dfsw_gettimeofday(k & 1 ? (struct timeval *)o.p() : nullptr, k & 2 ? (struct timezone *)z.p() : nullptr, 0, 0, &r);
      VH_CHECK(a == 0, "gettimeofday failed");
      r.zero("gettimeofday");
      o.outside();
      o.labels(k & 1 ? o.n : 0);
      z.labels(k & 2 ? z.n : 0);
    });
  for (long t : {0l, 1l << 31, -1l, 1234567890l, (long)1 << 60})
    for (int tl = 0; tl < 2; tl++) {
      add("ctime_r", [=] {
        time_t tt = t;
        dfsan_set_label(tl ? L(20) : 0, &tt, sizeof tt);
        Out o(64);
        RL r;
        BOTH(__dfsw_ctime_r(&tt, (char *)o.p(), 0, 0, &r), ctime_r(&tt, (char *)o.q()));
        rc(a ? 0 : -1, ea, b ? 0 : -1, eb);
        r.check("ctime_r");
        o.same();
        if (b)
          o.labels(strlen(b) + 1, tl ? L(20) : 0);
        dfsan_set_label(0, &tt, sizeof tt);
      });
      add("localtime_r", [=] {
        time_t tt = t;
        dfsan_set_label(tl ? L(20) : 0, &tt, sizeof tt);
        Out o(sizeof(struct tm));
        RL r;
        BOTH(__dfsw_localtime_r(&tt, (struct tm *)o.p(), 0, 0, &r), localtime_r(&tt, (struct tm *)o.q()));
        rc(a ? 0 : -1, ea, b ? 0 : -1, eb);
        r.check("localtime_r");
        if (b) {
          o.same();
          o.labels(sizeof(struct tm), tl ? L(20) : 0);
        }
        dfsan_set_label(0, &tt, sizeof tt);
      });
    }
  for (const char *ad : {"1.2.3.4", "256.1.1.1", "", "::1", "fe80::1", "1.2.3", "abcd"})
    for (int af : {AF_INET, AF_INET6, 4242}) {
      std::string s = ad;
      add("inet_pton(" + s + ")", [=] {
        std::vector<char> in(s.begin(), s.end());
        in.push_back(0);
        dfsan_set_label(L(30), in.data(), in.size());
        Out o(16);
        RL r;
        BOTH(__dfsw_inet_pton(af, in.data(), o.p(), 0, 0, 0, &r), inet_pton(af, in.data(), o.q()));
        rc(a, ea, b, eb);
        r.check("inet_pton");
        o.same();
        if (b == 1)
          o.labels(af == AF_INET ? 4 : 16, L(30));
        dfsan_set_label(0, in.data(), in.size());
      });
    }
  for (long uid : {0l, 1l, 65534l, 987654l})
    for (int bl : {0, 3, 1024})
      add("getpwuid_r(" + std::to_string(uid) + ", " + std::to_string(bl) + ")", [=] {
        Out o(sizeof(struct passwd)), bf(bl), rs(sizeof(void *));
        memset(bf.p(), 'x', bl);
        memset(bf.q(), 'x', bl);
        RL r;
        BOTH(__dfsw_getpwuid_r(uid, (struct passwd *)o.p(), (char *)bf.p(), bl, (struct passwd **)rs.p(), 0, 0, 0, 0, 0, &r),
             getpwuid_r(uid, (struct passwd *)o.q(), (char *)bf.q(), bl, (struct passwd **)rs.q()));
        VH_CHECK(a == b, "getpwuid_r: result %d instead of %d", a, b);
        r.zero("getpwuid_r");
        bf.outside();
        rs.labels(rs.n);
        void *x, *y;
        memcpy(&x, rs.p(), 8);
        memcpy(&y, rs.q(), 8);
        VH_CHECK((x != nullptr) == (y != nullptr), "getpwuid_r: entry found or not");
        if (b == 0 && y) {
          o.labels(o.n);
          auto *pw = (struct passwd *)o.p(), *qw = (struct passwd *)o.q();
          for (auto f : {&passwd::pw_name, &passwd::pw_passwd, &passwd::pw_gecos, &passwd::pw_dir, &passwd::pw_shell}) {
            VH_CHECK(!strcmp(pw->*f, qw->*f), "getpwuid_r: fields differ");
            VH_CHECK(dfsan_read_label(pw->*f, strlen(pw->*f) + 1) == 0, "getpwuid_r: '%s' carries a stale label", pw->*f);
          }
        }
      });
  for (int n = 0; n <= 3; n++)
    for (int rd = 0; rd < 3; rd++)
      add("poll", [=] {
        int p[2];
        VH_CHECK(::pipe(p) == 0, "harness");
        if (rd == 1)
          (void)!::write(p[1], "x", 1);
        if (rd == 2)
          ::close(p[1]);
        Out o(sizeof(struct pollfd) * 3);
        for (auto *f : {(struct pollfd *)o.p(), (struct pollfd *)o.q()})
          for (int i = 0; i < 3; i++)
            f[i] = {i == 1 ? 950 : p[0], POLLIN, 77};
        RL r;
        BOTH(__dfsw_poll((struct pollfd *)o.p(), n, 0, 0, 0, 0, &r), poll((struct pollfd *)o.q(), n, 0));
        rc(a, ea, b, eb);
        r.zero("poll");
        o.same();
        for (int i = 0; i < 3; i++) {
          auto *f = (struct pollfd *)o.p() + i;
          VH_CHECK(dfsan_read_label(&f->revents, 2) == (i < n ? 0 : L(3)), "poll: label of revents %d", i);
          VH_CHECK(dfsan_read_label(&f->fd, 1) == L(3) && dfsan_read_label(&f->events, 1) == L(3), "poll: label of the request changed");
        }
        ::close(p[0]);
        if (rd != 2)
          ::close(p[1]);
      });
  for (size_t sz : {sizeof(cpu_set_t), (size_t)1, (size_t)8, (size_t)256})
    add("sched_getaffinity", [=] {
      Out o(256);
      RL r;
      BOTH(__dfsw_sched_getaffinity(0, sz, (cpu_set_t *)o.p(), 0, 0, 0, &r), sched_getaffinity(0, sz, (cpu_set_t *)o.q()));
      rc(a, ea, b, eb);
      r.zero("sched_getaffinity");
      o.same();
      if (b == 0)
        o.labels(sz);
    });
  for (int mask = 0; mask < 16; mask++)
    for (int rd = 0; rd < 3; rd++)
      add("select sets " + std::to_string(mask) + " readiness " + std::to_string(rd), [=] {
        int p[2];
        VH_CHECK(::pipe(p) == 0, "harness");
        if (rd == 1)
          (void)!::write(p[1], "x", 1);
        bool tmo = mask & 8;
        if (!tmo && !(mask & 2) && !(rd == 1 && (mask & 1))) {
          ::close(p[0]);
          ::close(p[1]);
          return; // would wait forever
        }
        Out rs(sizeof(fd_set)), ws(sizeof(fd_set)), es(sizeof(fd_set)), tv(sizeof(struct timeval));
        for (int k = 0; k < 2; k++) {
          auto g = [&](Out &o) { return (fd_set *)(k ? o.q() : o.p()); };
          FD_ZERO(g(rs));
          FD_ZERO(g(ws));
          FD_ZERO(g(es));
          FD_SET(p[0], g(rs));
          FD_SET(p[1], g(ws));
          FD_SET(p[0], g(es));
          *(struct timeval *)(k ? tv.q() : tv.p()) = {0, 1000};
        }
        int n = rd == 2 ? -1 : std::max(p[0], p[1]) + 1;
        RL r;
        BOTH(__dfsw_select(n, mask & 1 ? (fd_set *)rs.p() : nullptr, mask & 2 ? (fd_set *)ws.p() : nullptr, mask & 4 ? (fd_set *)es.p() : nullptr,
                           tmo ? (struct timeval *)tv.p() : nullptr, 0, 0, 0, 0, 0, &r),
             select(n, mask & 1 ? (fd_set *)rs.q() : nullptr, mask & 2 ? (fd_set *)ws.q() : nullptr, mask & 4 ? (fd_set *)es.q() : nullptr,
                    tmo ? (struct timeval *)tv.q() : nullptr));
        rc(a, ea, b, eb);
        r.zero("select");
        rs.same();
        ws.same();
        es.same();
        if (b >= 0) {
          rs.labels(mask & 1 ? rs.n : 0);
          ws.labels(mask & 2 ? ws.n : 0);
          es.labels(mask & 4 ? es.n : 0);
          tv.labels(tmo ? tv.n : 0);
        }
        ::close(p[0]);
        ::close(p[1]);
      });
  add("sigemptyset", [] {
    Out o(sizeof(sigset_t));
    RL r;
    VH_CHECK(__dfsw_sigemptyset((sigset_t *)o.p(), 0, &r) == 0 && sigemptyset((sigset_t *)o.q()) == 0, "sigemptyset failed");
    VH_CHECK(!sigismember((sigset_t *)o.p(), SIGINT), "sigemptyset: not empty");
    r.zero("sigemptyset");
    o.outside();
    o.labels(o.n);
  });
  add("dlopen", [] {
    RL r, r2, r3;
    void *a = __dfsw_dlopen("libm.so.6", RTLD_NOW, 0, 0, &r), *b = dlopen("libm.so.6", RTLD_NOW);
    VH_CHECK(a && a == b, "dlopen: handles differ");
    r.zero("dlopen");
    VH_CHECK(!__dfsw_dlopen("libnope.so.99", RTLD_NOW, 0, 0, &r2), "dlopen of a missing library succeeds");
    r2.zero("dlopen");
    VH_CHECK(__dfsw_dlopen(nullptr, RTLD_NOW, 0, 0, &r3) == dlopen(nullptr, RTLD_NOW), "dlopen(NULL) differs");
    r3.zero("dlopen");
  });
  add("dl_iterate_phdr", [] {
    std::vector<std::string> x, y;
    RL r;
    int a = __dfsw_dl_iterate_phdr(phdr_tramp, (void *)phdr_cb, &x, 0, 0, &r), b = dl_iterate_phdr(phdr_cb, &y);
    VH_CHECK(a == b && x == y, "dl_iterate_phdr: differs");
    r.zero("dl_iterate_phdr");
  });
  for (int opt : {SO_TYPE, SO_ERROR, SO_SNDBUF, SO_PEERCRED, 4242})
    for (int len : {0, 1, 4, 8, 64})
      for (int bad = 0; bad < 2; bad++)
        add("getsockopt", [=] {
          int sv[2];
          VH_CHECK(::socketpair(AF_UNIX, SOCK_STREAM, 0, sv) == 0, "harness");
          Out o(64), l(sizeof(socklen_t));
          *(socklen_t *)l.p() = *(socklen_t *)l.q() = len;
          int fd = bad ? 950 : sv[0];
          RL r;
          BOTH(__dfsw_getsockopt(fd, SOL_SOCKET, opt, o.p(), (socklen_t *)l.p(), 0, 0, 0, 0, 0, &r),
               getsockopt(fd, SOL_SOCKET, opt, o.q(), (socklen_t *)l.q()));
          rc(a, ea, b, eb);
          r.zero("getsockopt");
          o.same();
          l.same();
          o.labels(b == 0 ? *(socklen_t *)l.q() : 0);
          l.labels(b == 0 ? l.n : 0);
          ::close(sv[0]);
          ::close(sv[1]);
        });
  for (int which = 0; which < 2; which++)
    for (int fam = 0; fam < 3; fam++) // unix, inet connected, inet not connected
      for (int len : {0, 1, 2, 8, 16, 110, 128})
        for (int bad = 0; bad < 2; bad++)
          add(which ? "getpeername" : "getsockname", [=] {
            int sv[2] = {-1, -1};
            if (fam == 0)
              VH_CHECK(::socketpair(AF_UNIX, SOCK_STREAM, 0, sv) == 0, "harness");
            else {
              sv[0] = ::socket(AF_INET, SOCK_DGRAM, 0);
              struct sockaddr_in ad = {};
              ad.sin_family = AF_INET;
              ad.sin_port = htons(9);
              ad.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
              if (fam == 1)
                VH_CHECK(::connect(sv[0], (struct sockaddr *)&ad, sizeof ad) == 0, "harness");
            }
            Out o(128), l(sizeof(socklen_t));
            *(socklen_t *)l.p() = *(socklen_t *)l.q() = len;
            int fd = bad ? 950 : sv[0];
            RL r;
            auto w = which ? __dfsw_getpeername : __dfsw_getsockname;
            BOTH(w(fd, (struct sockaddr *)o.p(), (socklen_t *)l.p(), 0, 0, 0, &r),
                 which ? getpeername(fd, (struct sockaddr *)o.q(), (socklen_t *)l.q()) : getsockname(fd, (struct sockaddr *)o.q(), (socklen_t *)l.q()));
            rc(a, ea, b, eb);
            r.zero("getsockname");
            o.same();
            l.same();
            o.labels(b == 0 ? std::min<int>(len, *(socklen_t *)l.q()) : 0);
            l.labels(b == 0 ? l.n : 0);
            ::close(sv[0]);
            if (sv[1] >= 0)
              ::close(sv[1]);
          });
  for (int max : {0, 1, 2, 3})
    for (int rd = 0; rd < 4; rd++) // which of two pipes have data
      add("epoll_wait", [=] {
        int p[2][2], ep = epoll_create1(0);
        for (int i = 0; i < 2; i++) {
          VH_CHECK(::pipe(p[i]) == 0, "harness");
          struct epoll_event e = {};
          e.events = EPOLLIN;
          e.data.u64 = 100 + i;
          epoll_ctl(ep, EPOLL_CTL_ADD, p[i][0], &e);
          if (rd & (1 << i))
            (void)!::write(p[i][1], "x", 1);
        }
        Out o(sizeof(struct epoll_event) * 3);
        RL r;
        // Two instances over the same pipes: the ready list rotates.
        int ep2 = epoll_create1(0);
        for (int i = 0; i < 2; i++) {
          struct epoll_event e = {};
          e.events = EPOLLIN;
          e.data.u64 = 100 + i;
          epoll_ctl(ep2, EPOLL_CTL_ADD, p[i][0], &e);
        }
        BOTH(__dfsw_epoll_wait(ep, (struct epoll_event *)o.p(), max, 0, 0, 0, 0, 0, &r), epoll_wait(ep2, (struct epoll_event *)o.q(), max, 0));
        rc(a, ea, b, eb);
        r.zero("epoll_wait");
        o.labels(b > 0 ? b * sizeof(struct epoll_event) : 0);
        int n = b > 0 ? b : 0;
        std::set<uint64_t> s1, s2;
        for (int i = 0; i < n; i++)
          s1.insert(((struct epoll_event *)o.p())[i].data.u64), s2.insert(((struct epoll_event *)o.q())[i].data.u64);
        VH_CHECK(n == 1 || s1 == s2, "epoll_wait: other events");
        ::close(ep);
        ::close(ep2);
        for (auto &q : p)
          ::close(q[0]), ::close(q[1]);
      });
  for (int k = 0; k < 8; k++) // set / query / too small
    add("sigaltstack", [=] {
      static char st1[1 << 16], st2[1 << 16];
      for (int pass = 0; pass < 2; pass++) {
        stack_t s = {};
        s.ss_sp = pass ? st2 : st1;
        s.ss_size = k & 4 ? 10 : sizeof st1;
        Out o(sizeof(stack_t));
        stack_t cur;
        sigaltstack(nullptr, &cur);
        RL r;
        BOTH(__dfsw_sigaltstack(k & 1 ? &s : nullptr, k & 2 ? (stack_t *)o.p() : nullptr, 0, 0, &r), (k & 1) && (k & 4) ? -1 : 0);
        VH_CHECK(a == b, "sigaltstack: result %d", a);
        eb = ea;
        (void)eb;
        r.zero("sigaltstack");
        if (k & 2 && a == 0) {
          auto *x = (stack_t *)o.p();
          VH_CHECK(x->ss_sp == cur.ss_sp && x->ss_size == cur.ss_size && x->ss_flags == cur.ss_flags, "sigaltstack: the previous stack is wrong");
          o.labels(o.n);
        } else
          o.labels(0);
        stack_t now;
        sigaltstack(nullptr, &now);
        if ((k & 1) && !(k & 4))
          VH_CHECK(now.ss_sp == s.ss_sp && now.ss_size == s.ss_size, "sigaltstack: the stack was not installed");
      }
    });
  for (int k = 0; k < 2; k++)
    add("pthread_join", [=] {
      pthread_t t;
      static int val;
      dfsan_set_label(0, &val, sizeof val);
      VH_CHECK(pthread_create(&t, nullptr, thr, &val) == 0, "harness");
      Out o(sizeof(void *));
      RL r;
      int a = __dfsw_pthread_join(t, k ? (void **)o.p() : nullptr, 0, 0, &r);
      VH_CHECK(a == 0, "pthread_join failed");
      r.zero("pthread_join");
      if (k) {
        void *x;
        memcpy(&x, o.p(), sizeof x);
        VH_CHECK(x == (char *)&val + 7, "pthread_join: wrong result");
      }
      o.labels(k ? o.n : 0);
    });
  add("fork", [] {
    RL r;
    pid_t p = __dfsw_fork(&r);
    VH_CHECK(p >= 0, "fork failed");
    if (!p)
      _exit(r.v == 0 ? 7 : 8);
    r.zero("fork");
    int st = 0;
    VH_CHECK(waitpid(p, &st, 0) == p && WIFEXITED(st) && WEXITSTATUS(st) == 7, "fork: the child did not run");
  });
  // recvmsg / recvmmsg: scattered buffers, truncated messages, addresses, both.
  for (int msg : {0, 1, 5, 9})
    for (int n1 : {0, 1, 4})
      for (int n2 : {0, 3, 6})
        for (int fl = 0; fl < 3; fl++) // 0, MSG_TRUNC, with address and control
          for (int many = 0; many < 2; many++)
            add("recvmsg " + std::to_string(msg) + " into " + std::to_string(n1) + "+" + std::to_string(n2) + " " + std::to_string(fl), [=] {
              int sv[2];
              VH_CHECK(::socketpair(AF_UNIX, SOCK_DGRAM, 0, sv) == 0, "harness");
              for (int i = 0; i < 2; i++)
                VH_CHECK(::send(sv[1], "abcdefghijk", msg, 0) == msg, "harness");
              Out b1(n1), b2(n2), nm(64), ct(64), decoy(64);
              struct mmsghdr h[2];
              struct iovec io[2][3];
              memset(h, 0, sizeof h);
              for (int k = 0; k < 2; k++) {
                io[k][0] = {k ? b1.q() : b1.p(), (size_t)n1};
                io[k][1] = {k ? b2.q() : b2.p(), (size_t)n2};
                io[k][2] = {decoy.p(), 64}; // not part of the message
                h[k].msg_hdr.msg_iov = io[k];
                h[k].msg_hdr.msg_iovlen = 2;
                if (fl == 2) {
                  h[k].msg_hdr.msg_name = k ? nm.q() : nm.p();
                  h[k].msg_hdr.msg_namelen = 64;
                  h[k].msg_hdr.msg_control = k ? ct.q() : ct.p();
                  h[k].msg_hdr.msg_controllen = 64;
                }
              }
              int f = fl == 1 ? MSG_TRUNC : 0;
              dfsan_set_label(L(3), &h[0], sizeof h[0]);
              RL r;
              long a, b;
              errno = 0;
              if (many) {
                a = __dfsw_recvmmsg(sv[0], &h[0], 1, f, nullptr, 0, 0, 0, 0, 0, &r);
                b = recvmmsg(sv[0], &h[1], 1, f, nullptr);
                VH_CHECK(h[0].msg_len == h[1].msg_len, "recvmmsg: length %u instead of %u", h[0].msg_len, h[1].msg_len);
              } else {
                a = __dfsw_recvmsg(sv[0], &h[0].msg_hdr, f, 0, 0, 0, &r);
                b = recvmsg(sv[0], &h[1].msg_hdr, f);
              }
              rc(a, 0, b, 0);
              r.zero("recvmsg");
              b1.same();
              b2.same();
              nm.same();
              ct.same();
              VH_CHECK(h[0].msg_hdr.msg_flags == h[1].msg_hdr.msg_flags && h[0].msg_hdr.msg_namelen == h[1].msg_hdr.msg_namelen &&
                           h[0].msg_hdr.msg_controllen == h[1].msg_hdr.msg_controllen,
                       "recvmsg: message header differs");
              int g1 = std::min(msg, n1), g2 = std::min(msg - g1, n2);
              b1.labels(g1);
              b2.labels(g2);
              decoy.labels(0);
              hdr_labels(&h[0], true, many);
              dfsan_set_label(0, &h[0], sizeof h[0]);
              ::close(sv[0]);
              ::close(sv[1]);
            });
  for (int k = 0; k < 3; k++)
    add("pthread_create", [=] {
      pthread_attr_t at;
      pthread_attr_init(&at);
      pthread_attr_setstacksize(&at, 1 << 20);
      static int val;
      val = 5;
      pthread_t t;
      RL r;
      int a = __dfsw_pthread_create(&t, k == 1 ? &at : nullptr, thr_tramp, (void *)thr, &val, 0, 0, 0, L(9), &r);
      VH_CHECK(a == 0, "pthread_create failed: %d", a);
      r.zero("pthread_create");
      void *ret = nullptr;
      pthread_join(t, &ret);
      VH_CHECK(val == 6 && ret == (char *)&val + 7, "the thread did not run its routine with its argument");
      VH_CHECK(dfsan_read_label(&val, 1) == L(8), "a label set by a thread is lost");
      pthread_attr_destroy(&at);
    });
}
// ---- larger and unusual arguments
static int g_got[65];
static void hs(int s) { g_got[s] += 1; }
static void hs2(int s) { g_got[s] += 100; }
static void hs3(int s, siginfo_t *si, void *) { g_got[s] += si && si->si_signo == s ? 10000 : 0; }
static bool sig_ok(int s) { return s != SIGKILL && s != SIGSTOP && s != 32 && s != 33 && s != SIGSEGV && s != SIGBUS; }
static void build_scale() {
  for (int n : {4, 5, 8, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300})
    add("poll of " + std::to_string(n), [=] {
      int p[2], q[2];
      VH_CHECK(::pipe(p) == 0 && ::pipe(q) == 0, "harness");
      (void)!::write(p[1], "x", 1);
      Out o(sizeof(struct pollfd) * (n + 1));
      for (auto *f : {(struct pollfd *)o.p(), (struct pollfd *)o.q()})
        for (int i = 0; i <= n; i++)
          f[i] = {i % 5 == 3 ? 950 : i % 2 ? p[0] : q[0], POLLIN, 77};
      RL r;
      BOTH(__dfsw_poll((struct pollfd *)o.p(), n, 0, 0, 0, 0, &r), poll((struct pollfd *)o.q(), n, 0));
      rc(a, ea, b, eb);
      r.zero("poll");
      o.same();
      for (int i = 0; i <= n; i++) {
        auto *f = (struct pollfd *)o.p() + i;
        VH_CHECK(dfsan_read_label(&f->revents, 2) == (i < n ? 0 : L(3)), "%s: label of revents %d", g_what.c_str(), i);
        VH_CHECK(dfsan_read_label(&f->fd, 1) == L(3) && dfsan_read_label(&f->events, 1) == L(3), "%s: label of request %d changed", g_what.c_str(), i);
      }
      for (int x : {p[0], p[1], q[0], q[1]})
        ::close(x);
    });
  for (int n : {4, 7, 16, 17, 32, 33, 64, 65, 100, 129, 200, 255, 256, 257, 300})
    for (int max : {n / 2, n, n + 3})
      add("epoll_wait of " + std::to_string(max) + " with " + std::to_string(n) + " ready", [=] {
        int ep[2] = {epoll_create1(0), epoll_create1(0)};
        std::vector<int> fds;
        for (int i = 0; i < n; i++) {
          int p[2];
          VH_CHECK(::pipe(p) == 0, "harness");
          (void)!::write(p[1], "x", 1);
          for (int e : ep) {
            struct epoll_event ev = {};
            ev.events = EPOLLIN;
            ev.data.u64 = 1000 + i;
            epoll_ctl(e, EPOLL_CTL_ADD, p[0], &ev);
          }
          fds.push_back(p[0]);
          fds.push_back(p[1]);
        }
        Out o(sizeof(struct epoll_event) * (n + 4));
        RL r;
        BOTH(__dfsw_epoll_wait(ep[0], (struct epoll_event *)o.p(), max, 0, 0, 0, 0, 0, &r), epoll_wait(ep[1], (struct epoll_event *)o.q(), max, 0));
        rc(a, ea, b, eb);
        r.zero("epoll_wait");
        o.labels(b * sizeof(struct epoll_event));
        std::set<uint64_t> s1;
        for (int i = 0; i < b; i++)
          s1.insert(((struct epoll_event *)o.p())[i].data.u64);
        VH_CHECK((int)s1.size() == b, "%s: events are missing", g_what.c_str());
        for (int f : fds)
          ::close(f);
        ::close(ep[0]);
        ::close(ep[1]);
      });
  // messages scattered over many buffers, many messages at once, large messages
  for (int iov : {3, 4, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 257, 1000})
    for (int each : {1, 3, 40})
      for (int cut = 0; cut < 3; cut++)
        for (int many = 0; many < 2; many++)
          add("recvmsg into " + std::to_string(iov) + " buffers of " + std::to_string(each) + " (" + std::to_string(cut) + ")", [=] {
            int sv[2];
            VH_CHECK(::socketpair(AF_UNIX, SOCK_DGRAM, 0, sv) == 0, "harness");
            int msg = cut == 0 ? iov * each : cut == 1 ? iov * each * 2 / 3 : iov * each + 5;
            std::string data;
            for (int i = 0; i < msg; i++)
              data += (char)(i * 7 + i / 256);
            for (int i = 0; i < 2; i++)
              VH_CHECK(::send(sv[1], data.data(), msg, 0) == msg, "harness");
            Out o(iov * (each + 2));
            std::vector<struct iovec> io[2];
            struct mmsghdr h[2];
            memset(h, 0, sizeof h);
            for (int k = 0; k < 2; k++) {
              for (int i = 0; i < iov; i++) // two untouched bytes between buffers
                io[k].push_back({(char *)(k ? o.q() : o.p()) + i * (each + 2), (size_t)each});
              h[k].msg_hdr.msg_iov = io[k].data();
              h[k].msg_hdr.msg_iovlen = iov;
            }
            RL r;
            long a, b;
            if (many) {
              a = __dfsw_recvmmsg(sv[0], &h[0], 1, 0, nullptr, 0, 0, 0, 0, 0, &r);
              b = recvmmsg(sv[0], &h[1], 1, 0, nullptr);
              VH_CHECK(h[0].msg_len == h[1].msg_len, "recvmmsg: length %u instead of %u", h[0].msg_len, h[1].msg_len);
            } else {
              a = __dfsw_recvmsg(sv[0], &h[0].msg_hdr, 0, 0, 0, 0, &r);
              b = recvmsg(sv[0], &h[1].msg_hdr, 0);
            }
            rc(a, 0, b, 0);
            r.zero("recvmsg");
            o.same();
            for (int i = 0; i < iov * (each + 2); i++) {
              bool in = i % (each + 2) < each && i / (each + 2) * each + i % (each + 2) < msg;
              lab g = dfsan_read_label((char *)o.p() + i, 1);
              VH_CHECK(g == (in ? 0 : L(3)), "%s: byte %d of buffer %d carries label %u", g_what.c_str(), i % (each + 2), i / (each + 2), g);
            }
            o.outside();
            ::close(sv[0]);
            ::close(sv[1]);
          });
  for (int n : {2, 3, 5, 8, 9, 16, 17, 33, 64, 65, 100})
    for (int have : {n, n - 1})
      add("recvmmsg of " + std::to_string(n) + " with " + std::to_string(have) + " waiting", [=] {
        int sv[2][2];
        Out o(n * 20);
        std::vector<struct iovec> io[2];
        std::vector<struct mmsghdr> h[2];
        for (int k = 0; k < 2; k++) {
          sv[k][0] = ::socket(AF_INET, SOCK_DGRAM, 0);
          sv[k][1] = ::socket(AF_INET, SOCK_DGRAM, 0);
          struct sockaddr_in ad = {};
          ad.sin_family = AF_INET;
          ad.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
          socklen_t al = sizeof ad;
          VH_CHECK(::bind(sv[k][0], (struct sockaddr *)&ad, sizeof ad) == 0 && ::getsockname(sv[k][0], (struct sockaddr *)&ad, &al) == 0, "harness");
          int big = 1 << 20;
          setsockopt(sv[k][0], SOL_SOCKET, SO_RCVBUF, &big, sizeof big);
          for (int i = 0; i < have; i++)
            VH_CHECK(::sendto(sv[k][1], "0123456789abcdefghijklmn", i % 23, 0, (struct sockaddr *)&ad, sizeof ad) == i % 23, "harness");
          io[k].resize(n);
          h[k].resize(n);
          memset(h[k].data(), 0, n * sizeof(struct mmsghdr));
          for (int i = 0; i < n; i++) {
            io[k][i] = {(char *)(k ? o.q() : o.p()) + i * 20, 18};
            h[k][i].msg_hdr.msg_iov = &io[k][i];
            h[k][i].msg_hdr.msg_iovlen = 1;
          }
        }
        dfsan_set_label(L(3), h[0].data(), n * sizeof(struct mmsghdr));
        RL r;
        BOTH(__dfsw_recvmmsg(sv[0][0], h[0].data(), n, MSG_DONTWAIT, nullptr, 0, 0, 0, 0, 0, &r), recvmmsg(sv[1][0], h[1].data(), n, MSG_DONTWAIT, nullptr));
        rc(a, ea, b, eb);
        r.zero("recvmmsg");
        o.same();
        for (int i = 0; i < n; i++) {
          VH_CHECK(h[0][i].msg_len == h[1][i].msg_len, "%s: length of message %d", g_what.c_str(), i);
          for (int j = 0; j < 20; j++) {
            lab g = dfsan_read_label((char *)o.p() + i * 20 + j, 1);
            VH_CHECK(g == (i < b && j < (int)h[1][i].msg_len && j < 18 ? 0 : L(3)), "%s: byte %d of message %d carries label %u", g_what.c_str(), j, i, g);
          }
        }
        for (int i = 0; i < n; i++)
          hdr_labels(&h[0][i], i < b, true);
        dfsan_set_label(0, h[0].data(), n * sizeof(struct mmsghdr));
        for (int k = 0; k < 2; k++)
          ::close(sv[k][0]), ::close(sv[k][1]);
      });
  // names of every length
  for (int depth : {1, 2, 5, 10, 20, 40})
    for (int d : {-1, 0, 1, 2, 900})
      add("getcwd " + std::to_string(depth) + " directories deep, " + std::to_string(d), [=] {
        int old = ::open(".", O_RDONLY);
        for (int i = 0; i < depth; i++) {
          std::string n(30 + i, 'a' + i % 26);
          mkdir(n.c_str(), 0755);
          VH_CHECK(::chdir(n.c_str()) == 0, "harness");
        }
        char *full = getcwd(nullptr, 0);
        int sz = strlen(full) + 1 + d;
        Out o(6000);
        RL r;
        BOTH(__dfsw_getcwd((char *)o.p(), sz, 0, 0, &r), getcwd((char *)o.q(), sz));
        rc(a ? 0 : -1, ea, b ? 0 : -1, eb);
        r.check("getcwd");
        o.same();
        if (b)
          o.labels(strlen(full) + 1);
        else
          o.outside();
        RL r2;
        stale_heap();
        char *c = __dfsw_get_current_dir_name(&r2);
        VH_CHECK(c && !strcmp(c, full) && dfsan_read_label(c, strlen(c) + 1) == 0, "get_current_dir_name: wrong result or label");
        free(c);
        free(full);
        VH_CHECK(::fchdir(old) == 0, "harness");
        ::close(old);
      });
  for (int n = 2; n <= 70; n++)
    add("gethostname into " + std::to_string(n), [=] {
      Out o(256);
      RL r;
      BOTH(__dfsw_gethostname((char *)o.p(), n, 0, 0, &r), gethostname((char *)o.q(), n));
      rc(a, ea, b, eb);
      r.zero("gethostname");
      o.same();
      if (b == 0)
        o.labels(strlen((char *)o.q()) + 1);
    });
  for (int n = 1; n <= 107; n += n < 20 ? 1 : 7)
    for (int len : {n, n + 1, n + 2, n + 3, 110, 128})
      for (int which = 0; which < 2; which++)
        add("a socket name of " + std::to_string(n) + " bytes into " + std::to_string(len), [=] {
          struct sockaddr_un ad = {};
          ad.sun_family = AF_UNIX;
          std::string name = "vh" + std::to_string(getpid()) + std::string(110, 'n');
          memcpy(ad.sun_path + 1, name.data(), n - 1 < 0 ? 0 : n - 1); // an abstract name
          socklen_t al = offsetof(struct sockaddr_un, sun_path) + n;
          int l = ::socket(AF_UNIX, SOCK_DGRAM, 0), c = ::socket(AF_UNIX, SOCK_DGRAM, 0);
          if (::bind(l, (struct sockaddr *)&ad, al) == 0 && ::connect(c, (struct sockaddr *)&ad, al) == 0) {
            Out o(128), s(sizeof(socklen_t));
            *(socklen_t *)s.p() = *(socklen_t *)s.q() = len;
            RL r;
            auto w = which ? __dfsw_getpeername : __dfsw_getsockname;
            BOTH(w(which ? c : l, (struct sockaddr *)o.p(), (socklen_t *)s.p(), 0, 0, 0, &r),
                 which ? getpeername(c, (struct sockaddr *)o.q(), (socklen_t *)s.q()) : getsockname(l, (struct sockaddr *)o.q(), (socklen_t *)s.q()));
            rc(a, ea, b, eb);
            r.zero("getsockname");
            o.same();
            s.same();
            o.labels(std::min<int>(len, *(socklen_t *)s.q()));
            s.labels(s.n);
          }
          ::close(l);
          ::close(c);
        });
  for (int clk = 0; clk <= 12; clk++)
    add("clock_gettime of clock " + std::to_string(clk), [=] {
      Out o(sizeof(struct timespec));
      RL r;
      BOTH(__dfsw_clock_gettime(clk, (struct timespec *)o.p(), 0, 0, &r), clock_gettime(clk, (struct timespec *)o.q()));
      rc(a, ea, b, eb);
      o.outside();
      o.labels(b == 0 ? o.n : 0);
      if (b == 0) {
        auto *x = (struct timespec *)o.p(), *y = (struct timespec *)o.q();
        VH_CHECK(y->tv_sec - x->tv_sec <= 5 && y->tv_sec >= x->tv_sec && x->tv_nsec >= 0 && x->tv_nsec < 1000000000, "clock_gettime: wrong time");
      }
    });
  for (int res = 0; res < 16; res++)
    add("getrlimit " + std::to_string(res), [=] {
      Out o(sizeof(struct rlimit));
      RL r;
      BOTH(__dfsw_getrlimit(res, (struct rlimit *)o.p(), 0, 0, &r), getrlimit((__rlimit_resource_t)res, (struct rlimit *)o.q()));
      rc(a, ea, b, eb);
      o.same();
      o.labels(b == 0 ? o.n : 0);
    });
  for (int t = 0; t < 40; t++)
    add("ctime_r of 2^" + std::to_string(t), [=] {
      time_t tt = 1l << t;
      dfsan_set_label(L(20), &tt, sizeof tt);
      Out o(64), q(sizeof(struct tm));
      RL r, r2;
      BOTH(__dfsw_ctime_r(&tt, (char *)o.p(), 0, 0, &r), ctime_r(&tt, (char *)o.q()));
      rc(a ? 0 : -1, ea, b ? 0 : -1, eb);
      o.same();
      if (b)
        o.labels(strlen(b) + 1, L(20));
      auto *x = __dfsw_localtime_r(&tt, (struct tm *)q.p(), 0, 0, &r2), *y = localtime_r(&tt, (struct tm *)q.q());
      VH_CHECK((x != nullptr) == (y != nullptr), "localtime_r: result");
      if (y) {
        q.same();
        q.labels(sizeof(struct tm), L(20));
      }
      dfsan_set_label(0, &tt, sizeof tt);
    });
  // every signal number: each has the handler installed for it
  for (int s = 1; s <= 64; s++)
    if (sig_ok(s))
      for (int how = 0; how < 3; how++) // sigaction, signal, sigaction with siginfo
        add("signal " + std::to_string(s) + " installed " + std::to_string(how), [=] {
          for (int t = 1; t <= 64; t++)
            if (sig_ok(t) && t != s) {
              struct sigaction act;
              memset(&act, 0, sizeof act);
              act.sa_handler = hs2;
              RL r;
              VH_CHECK(__dfsw_sigaction(t, &act, nullptr, 0, 0, 0, &r) == 0, "sigaction of signal %d fails", t);
            }
          struct sigaction act;
          memset(&act, 0, sizeof act);
          if (how == 2)
            act.sa_sigaction = hs3, act.sa_flags = SA_SIGINFO;
          else
            act.sa_handler = hs;
          RL r;
          if (how == 1)
            VH_CHECK(__dfsw_signal(s, nullptr, hs, 0, 0, &r) != SIG_ERR, "signal %d cannot be handled", s);
          else
            VH_CHECK(__dfsw_sigaction(s, &act, nullptr, 0, 0, 0, &r) == 0, "sigaction of signal %d fails", s);
          for (int t = 1; t <= 64; t++)
            if (sig_ok(t)) {
              memset(g_got, 0, sizeof g_got);
              raise(t);
              VH_CHECK(g_got[t] == (t != s ? 100 : how == 2 ? 10000 : 1), "signal %d reaches another handler", t);
            }
        });
}
static void run_sc(const Case &c) {
  setup();
  g_what = SC[c[0]].name;
  SC[c[0]].run();
  vh::st().nontrivial++;
}
static void gen_sc(const Visit &v) {
  for (size_t i = 0; i < SC.size(); i++)
    v({(int)i});
}
// Signals: every sequence of installations, queries and deliveries, against the
// original calls on a second signal.
static const char *SOP[] = {"handler1", "handler2", "siginfo", "ignore", "default", "query", "raise", "resethand", "badsignal", "toolarge", "kill", "signal1", "signalign", "signalbad", "signalbig", "siginfo-ignore", "siginfo-default", "siginfo-resethand", "signaldefault"};
static void run_sig(const Case &c) {
  setup();
  int S1 = SIGUSR1, S2 = SIGUSR2;
  struct sigaction z;
  memset(&z, 0, sizeof z);
  z.sa_handler = SIG_IGN;
  sigaction(S1, &z, nullptr);
  sigaction(S2, &z, nullptr);
  bool def = false, oneshot = false;
  for (int op : c) {
    struct sigaction act, o1, o2;
    memset(&act, 0, sizeof act);
    memset(&o1, 0x11, sizeof o1);
    memset(&o2, 0x11, sizeof o2);
    if (op == 6) {
      if (def)
        continue;
      for (auto &x : g_sig)
        x = 0;
      raise(S1);
      int x[4] = {g_sig[0], g_sig[1], g_sig[2], g_sig[3]};
      for (auto &y : g_sig)
        y = 0;
      raise(S2);
      for (int i = 0; i < 4; i++)
        VH_CHECK(x[i] == g_sig[i], "a delivered signal ran handler %d %d times instead of %d", i, x[i], g_sig[i]);
      if (oneshot)
        def = true;
      continue;
    }
    if ((op >= 11 && op <= 14) || op == 18) {
      RL r;
      sighandler_t h = op == 12 ? SIG_IGN : op == 18 ? SIG_DFL : h1;
      int s1 = op == 13 ? -3 : op == 14 ? 5000 : S1, s2 = op == 13 || op == 14 ? s1 : S2;
      errno = 0;
      sighandler_t a = __dfsw_signal(s1, nullptr, h, 0, 0, &r);
      int ea = errno;
      errno = 0;
      sighandler_t b = signal(s2, h);
      int eb = errno;
      VH_CHECK(a == b && ea == eb, "signal: the previous handler is not the one that was installed, or errno differs");
      r.zero("signal");
      if (op < 13 || op == 18) {
        def = op == 18;
        oneshot = false;
      }
      vh::st().transitions++;
      continue;
    }
    bool query = op == 5;
    switch (op) {
    case 0: act.sa_handler = h1; break;
    case 1: act.sa_handler = h2; sigaddset(&act.sa_mask, SIGHUP); break;
    case 2: act.sa_sigaction = h3; act.sa_flags = SA_SIGINFO; break;
    case 3: act.sa_handler = SIG_IGN; break;
    case 4: act.sa_handler = SIG_DFL; break;
    case 7: act.sa_handler = h1; act.sa_flags = SA_RESETHAND; break;
    case 8: case 9: case 10: act.sa_handler = h1; break;
    case 15: act.sa_handler = SIG_IGN; act.sa_flags = SA_SIGINFO; break;
    case 16: act.sa_handler = SIG_DFL; act.sa_flags = SA_SIGINFO; break;
    case 17: act.sa_sigaction = h3; act.sa_flags = SA_SIGINFO | SA_RESETHAND; break;
    }
    RL r;
    dfsan_set_label(L(4), &o1, sizeof o1);
    int s1 = op == 8 ? -3 : op == 9 ? 5000 : op == 10 ? SIGKILL : S1, s2 = op >= 8 && op <= 10 ? s1 : S2;
    errno = 0;
    int a = __dfsw_sigaction(s1, query ? nullptr : &act, &o1, 0, 0, 0, &r);
    int ea = errno;
    errno = 0;
    int b = sigaction(s2, query ? nullptr : &act, &o2);
    int eb = errno;
    g_what = std::string("sigaction ") + SOP[op];
    rc(a, ea, b, eb);
    r.zero("sigaction");
    if (b == 0) {
      VH_CHECK(o1.sa_flags == o2.sa_flags, "%s: previous flags are %x instead of %x", g_what.c_str(), o1.sa_flags, o2.sa_flags);
      VH_CHECK(o1.sa_handler == o2.sa_handler, "%s: the previous handler is not the one that was installed", g_what.c_str());
      VH_CHECK(dfsan_read_label(&o1, sizeof o1) == 0, "%s: the previous action carries a stale label", g_what.c_str());
      if (!query && (op < 8 || op > 14)) {
        def = op == 4 || op == 16;
        oneshot = op == 7 || op == 17;
      }
    }
    dfsan_set_label(0, &o1, sizeof o1);
    vh::st().transitions++;
  }
  vh::st().nontrivial++;
}
static void gen_sig(const Visit &v) {
  Case c;
  std::function<void(int)> rec = [&](int d) {
    if (!d) {
      v(c);
      return;
    }
    for (int o = 0; o < 19; o++) {
      c.push_back(o);
      rec(d - 1);
      c.pop_back();
    }
  };
  rec(vh::g_thorough ? 5 : 4);
}
int main(int argc, char **argv) {
  build();
  build_scale();
  std::vector<vh::Suite> S;
  S.push_back({"c32_calls", "every listed call with every listed argument, successful and failing, with and without optional results", gen_sc, run_sc,
               true, 30, [](const Case &c) { return SC[c[0]].name; }});
  S.push_back({"c32_signals", "every sequence of signal handler installations, queries and deliveries up to the bound, against the original on a second signal",
               gen_sig, run_sig, false, 30, [](const Case &c) {
                 std::string o;
                 for (int x : c)
                   o += std::string(o.empty() ? "" : "; ") + SOP[x];
                 return o;
               }});
  return vh::main_(argc, argv, S);
}
