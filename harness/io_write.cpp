// C16, C17(writing): tracked writes.
#include "io.h"
#include <sys/ioctl.h>

enum Mode { LABELS, BEHAVE };
static Mode g_mode = LABELS;
static int high(int fd) {
  if (fd < 0)
    return fd;
  int e = errno, h = fcntl(fd, F_DUPFD, 300);
  ::close(fd);
  errno = e;
  return h;
}
struct Slot {
  int w = -1, p = -1;
  FILE *wf = nullptr, *pf = nullptr;
  std::string path;
  bool tracked = false;
  uint64_t written = 0; // stream bytes so far
  int rd = -1, prd = -1; // other ends
};
struct Exp {
  std::string path;
  int fd;
  uint64_t off;
  lab label;
  bool operator<(const Exp &o) const {
    return std::tie(path, fd, off, label) < std::tie(o.path, o.fd, o.off, o.label);
  }
  bool operator==(const Exp &o) const {
    return std::tie(path, fd, off, label) == std::tie(o.path, o.fd, o.off, o.label);
  }
};
struct W {
  Slot s[3];
  std::vector<Exp> exp;
  std::vector<uint8_t> data;
  std::vector<lab> labs;
  int peer[2] = {-1, -1};
  bool twin() const { return g_mode == BEHAVE; }

  // Data to write: tainted bytes, untainted bytes, a repeated and a derived label.
  void init(size_t n = 16) {
    int fd;
    RL r;
    lab va[1];
    fd = __dfsw_open("w/A", O_RDONLY, 0, 0, va, &r);
    uint8_t b[8];
    VH_CHECK(__dfsw_read(fd, b, 8, 0, 0, 0, &r) == 8, "harness: read");
    __dfsw_close(fd, 0, &r);
    lab l[8];
    for (int i = 0; i < 8; i++)
      l[i] = dfsan_read_label(b + i, 1);
    lab u = __dfsan_union(l[2], l[5]);
    lab pat[8] = {l[0], 0, l[1], l[1], 0, 0, u, l[7]};
    data.resize(n);
    labs.resize(n);
    static const uint8_t by[8] = {'q', 0, 200, '\n', 255, 'z', 128, 127};
    for (size_t i = 0; i < n; i++) {
      data[i] = by[i % 8];
      labs[i] = pat[i % 8];
      dfsan_set_label(labs[i], &data[i], 1);
    }
  }
  void expect(Slot &x, int fd, uint64_t off, size_t from, size_t n) {
    if (x.tracked)
      for (size_t i = 0; i < n; i++)
        if (labs[from + i])
          exp.push_back({x.path, fd, off + i, labs[from + i]});
  }
  void cmp(const char *what, long a, int ea, long b, int eb, bool isfd = false) {
    if (!twin())
      return;
    if (isfd ? ((a < 0) != (b < 0)) : a != b)
      vh::fail("%s returned %ld, the plain call returns %ld", what, a, b);
    if (b < 0)
      VH_CHECK(ea == eb, "%s failed with errno %d, the plain call with %d", what, ea, eb);
  }
  void cmp_meta(const char *what, int w, int p) {
    if (!twin() || w < 0 || p < 0)
      return;
    VH_CHECK(fcntl(w, F_GETFL) == fcntl(p, F_GETFL), "%s: descriptor flags 0x%x, plain 0x%x", what,
             fcntl(w, F_GETFL), fcntl(p, F_GETFL));
    struct stat a, b;
    fstat(w, &a);
    fstat(p, &b);
    VH_CHECK(a.st_mode == b.st_mode, "%s: file mode %o, plain %o", what, a.st_mode, b.st_mode);
    VH_CHECK(a.st_size == b.st_size, "%s: file size %ld, plain %ld", what, (long)a.st_size, (long)b.st_size);
    off_t x = lseek(w, 0, SEEK_CUR), y = lseek(p, 0, SEEK_CUR);
    VH_CHECK(x == y, "%s: file position %ld, plain %ld", what, (long)x, (long)y);
  }
  void open_(int k, const char *name, int how, int flags, int mode) {
    Slot &x = s[k];
    std::string wp = std::string("w/") + name, pp = std::string("p/") + name;
    int ep = 0;
    if (twin()) {
      errno = 0;
      x.p = ::open(pp.c_str(), flags, mode);
      ep = errno;
      x.p = high(x.p);
    }
    RL r;
    lab va[2] = {0, 0};
    errno = 0;
    const char *what = "open";
    if (how == 0)
      x.w = __dfsw_open(wp.c_str(), flags, 0, 0, va, &r, mode);
    else if (how == 1)
      x.w = __dfsw_open64(wp.c_str(), flags, 0, 0, va, &r, mode);
    else if (how == 2)
      x.w = __dfsw_openat(AT_FDCWD, wp.c_str(), flags, 0, 0, 0, va, &r, mode);
    else
      x.w = ::open(wp.c_str(), flags, mode), r.v = 0;
    int ew = errno;
    if (twin()) {
      cmp(what, x.w, ew, x.p, ep, true);
      r.zero(what);
      cmp_meta(what, x.w, x.p);
    }
    x.path = wp;
    x.tracked = how != 3 && x.w >= 0;
  }
  void close_(int k) {
    RL r;
    errno = 0;
    int a = __dfsw_close(s[k].w, 0, &r), ea = errno;
    if (twin()) {
      errno = 0;
      int b = ::close(s[k].p), eb = errno;
      cmp("close", a, ea, b, eb);
    }
    s[k] = Slot{};
  }
  // The true offset of what was just written: the position after the call.
  void write_(int k, size_t from, size_t n, int how = 0, int flags = MSG_NOSIGNAL | MSG_DONTWAIT) {
    Slot &x = s[k];
    RL r;
    errno = 0;
    const char *what = how ? "send" : "write";
    ssize_t a = how ? __dfsw_send(x.w, data.data() + from, n, flags, 0, 0, 0, 0, &r)
                    : __dfsw_write(x.w, data.data() + from, n, 0, 0, 0, &r);
    int ea = errno;
    if (twin()) {
      errno = 0;
      ssize_t b = how ? ::send(x.p, data.data() + from, n, flags)
                      : ::write(x.p, data.data() + from, n);
      int eb = errno;
      cmp(what, a, ea, b, eb);
      r.zero(what);
      if (!how)
        cmp_meta(what, x.w, x.p);
    }
    if (a > 0) {
      off_t end = lseek(x.w, 0, SEEK_CUR);
      uint64_t off = end >= 0 ? end - a : x.written;
      if (end < 0)
        x.written += a;
      expect(x, x.w, off, from, a);
      vh::st().nontrivial++;
    }
  }
  void seek_(int k, off_t o) {
    lseek(s[k].w, o, SEEK_SET);
    if (twin())
      lseek(s[k].p, o, SEEK_SET);
  }
  void fopen_(int k, const char *name, const char *mode, int how, bool unbuf = false) {
    Slot &x = s[k];
    std::string wp = std::string("w/") + name, pp = std::string("p/") + name;
    int ep = 0;
    if (twin()) {
      errno = 0;
      x.pf = ::fopen(pp.c_str(), mode);
      ep = errno;
    }
    RL r;
    errno = 0;
    if (how == 3)
      x.wf = ::fopen(wp.c_str(), mode), r.v = 0;
    else
      x.wf = how ? __dfsw_fopen64(wp.c_str(), mode, 0, 0, &r) : __dfsw_fopen(wp.c_str(), mode, 0, 0, &r);
    int ew = errno;
    if (twin()) {
      VH_CHECK(!x.wf == !x.pf && (x.pf || ew == ep), "fopen %s, the plain call %s", x.wf ? "succeeded" : "failed",
               x.pf ? "succeeded" : "failed");
      r.zero("fopen");
      if (x.wf)
        cmp_meta("fopen", fileno(x.wf), fileno(x.pf));
    }
    x.path = wp;
    x.tracked = how != 3 && x.wf;
    if (unbuf && x.wf) {
      setvbuf(x.wf, nullptr, _IONBF, 0);
      if (x.pf)
        setvbuf(x.pf, nullptr, _IONBF, 0);
    }
  }
  void fclose_(int k) {
    RL r;
    int a = __dfsw_fclose(s[k].wf, 0, &r);
    if (twin()) {
      int b = ::fclose(s[k].pf);
      cmp("fclose", a, 0, b, 0);
      r.zero("fclose");
    }
    s[k] = Slot{};
  }
  void cmp_file(const char *what, Slot &x) {
    if (!twin())
      return;
    VH_CHECK(ftello(x.wf) == ftello(x.pf), "%s: stream position %ld, plain %ld", what, (long)ftello(x.wf),
             (long)ftello(x.pf));
    VH_CHECK(!ferror(x.wf) == !ferror(x.pf), "%s: error state differs", what);
  }
  // What a stream write wrote lies at the position before the call, in append mode right before
  // the position after it (elements written in part are only enumerated for other modes).
  void wrote(Slot &x, off_t before, size_t from, size_t n) {
    off_t end = ftello(x.wf);
    bool app = end >= 0 && (fcntl(fileno(x.wf), F_GETFL) & O_APPEND);
    uint64_t off = app ? end - (off_t)n : end >= 0 ? before : x.written;
    if (end < 0)
      x.written += n;
    expect(x, fileno(x.wf), off, from, n);
    if (n)
      vh::st().nontrivial++;
  }
  void fwrite_(int k, size_t from, size_t sz, size_t cnt) {
    Slot &x = s[k];
    RL r;
    off_t before = ftello(x.wf);
    size_t a = __dfsw_fwrite(data.data() + from, sz, cnt, x.wf, 0, 0, 0, 0, &r);
    if (twin()) {
      size_t b = ::fwrite(data.data() + from, sz, cnt, x.pf);
      cmp("fwrite", a, 0, b, 0);
      r.zero("fwrite");
      cmp_file("fwrite", x);
    }
    if (a < cnt && a * sz != 0 && sz > 1)
      vh::st().nontrivial++;
    wrote(x, before, from, a * sz);
  }
  void putc_(int k, int ch, size_t lab_from, int how) {
    Slot &x = s[k];
    RL r;
    const char *what = how ? "fputc" : "putc";
    off_t before = ftello(x.wf);
    int a = how ? __dfsw_fputc(ch, x.wf, labs[lab_from], 0, &r) : __dfsw_putc(ch, x.wf, labs[lab_from], 0, &r);
    if (twin()) {
      int b = ::fputc(ch, x.pf);
      cmp(what, a, 0, b, 0);
      r.check(what);
      cmp_file(what, x);
    }
    if (a != EOF)
      wrote(x, before, lab_from, 1);
  }
  void fseek_(int k, long o) {
    ::fseek(s[k].wf, o, SEEK_SET);
    if (twin())
      ::fseek(s[k].pf, o, SEEK_SET);
  }
  void fflush_(int k) {
    ::fflush(s[k].wf);
    if (twin())
      ::fflush(s[k].pf);
  }
  // A read in between (through the tracker): must not record anything.
  void read_(int k, size_t n) {
    uint8_t b[64], c[64];
    RL r;
    ssize_t a = __dfsw_read(s[k].w, b, n, 0, 0, 0, &r);
    if (twin())
      cmp("read", a, 0, ::read(s[k].p, c, n), 0);
  }
  // The peer sends n bytes, which are then read through the tracker.
  void feed_read(int k, size_t n, int how) {
    uint8_t b[64], c[64];
    for (int pass = 0; pass < (twin() ? 2 : 1); pass++)
      VH_CHECK(::write(peer[pass], data.data(), n) == (ssize_t)n, "harness: feed");
    RL r;
    for (size_t got = 0; got < n;) {
      ssize_t a = how ? __dfsw_recv(s[k].w, b, n - got, 0, 0, 0, 0, 0, &r) : __dfsw_read(s[k].w, b, n - got, 0, 0, 0, &r);
      VH_CHECK(a > 0, "reading from the connection returned %ld", (long)a);
      got += a;
    }
    if (twin())
      VH_CHECK(::recv(s[k].p, c, n, MSG_WAITALL) == (ssize_t)n, "harness: read");
  }
  // What the peer of the tracked socket received must be what the peer of the plain one received.
  void cmp_peer() {
    if (!twin() || peer[0] < 0)
      return;
    std::string got[2];
    int mark[2] = {-1, -1};
    for (int i = 0; i < 2; i++) {
      ::shutdown(i ? s[0].p : s[0].w, SHUT_WR);
      char b[8192];
      ssize_t n;
      for (;;) {
        int m = 0;
        ioctl(peer[i], SIOCATMARK, &m);
        if (m && mark[i] < 0)
          mark[i] = got[i].size();
        n = ::recv(peer[i], b, sizeof b, 0);
        if (n <= 0)
          break;
        got[i].append(b, n);
      }
    }
    VH_CHECK(got[0] == got[1], "the peer received %zu bytes, with the plain calls %zu, or different ones", got[0].size(), got[1].size());
    VH_CHECK(mark[0] == mark[1], "urgent data lies at %d, with the plain calls at %d", mark[0], mark[1]);
  }
  void drain(int k) {
    char b[8192];
    if (s[k].rd >= 0)
      while (::read(s[k].rd, b, sizeof b) > 0)
        ;
    if (s[k].prd >= 0)
      while (::read(s[k].prd, b, sizeof b) > 0)
        ;
  }
};
static std::vector<Exp> g_exp;
static void check_sinks(Tdag &t) {
  std::vector<Exp> got;
  for (size_t i = 0; i < t.nsink(); i++) {
    auto s = t.sink(i);
    VH_CHECK(s.idx < t.nsrc(), "output record %zu refers to entry %u, which does not exist", i, s.idx);
    auto e = t.src(s.idx);
    got.push_back({e.name, e.fd, s.off, s.label});
  }
  auto a = g_exp, b = got;
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  for (size_t i = 0; i < a.size() || i < b.size(); i++) {
    if (i < a.size() && (i >= b.size() || a[i] < b[i]))
      vh::fail("the tainted byte written to %s at offset %lu (label %u) is not recorded", a[i].path.c_str(), a[i].off,
               a[i].label);
    if (i < b.size() && (i >= a.size() || b[i] < a[i]))
      vh::fail("there is an output record for %s at offset %lu with label %u that nothing wrote", b[i].path.c_str(),
               b[i].off, b[i].label);
  }
}

static bool any(Abs &) { return true; }
static std::function<bool(Abs &)> need(int k) {
  return [k](Abs &a) { return a.s[k] == 1; };
}
static std::function<bool(Abs &)> opens(int k) {
  return [k](Abs &a) { return a.s[k] ? false : (a.s[k] = 1, true); };
}
static std::function<bool(Abs &)> closes(int k) {
  return [k](Abs &a) { return a.s[k] != 1 ? false : (a.s[k] = 0, true); };
}
using Ops = std::vector<Op<W>>;
static Ops fd_ops() {
  Ops o;
  o.push_back({"a=open(O1,trunc)", opens(0), [](W &w) { w.open_(0, "O1", 0, O_WRONLY | O_CREAT | O_TRUNC, 0640); }});
  o.push_back({"a=open64(O1,append)", opens(0), [](W &w) { w.open_(0, "O1", 1, O_RDWR | O_CREAT | O_APPEND, 0600); }});
  o.push_back({"a=open(O1,rdonly)", opens(0), [](W &w) { w.open_(0, "O1", 0, O_RDONLY | O_CREAT, 0444); }});
  o.push_back({"b=openat(O2)", opens(1), [](W &w) { w.open_(1, "O2", 2, O_RDWR | O_CREAT, 0777); }});
  o.push_back({"b=untracked open(O1)", opens(1), [](W &w) { w.open_(1, "O1", 3, O_WRONLY | O_CREAT, 0644); }});
  o.push_back({"b=open(O1,excl)", opens(1), [](W &w) { w.open_(1, "O1", 0, O_WRONLY | O_CREAT | O_EXCL, 0622); }});
  o.push_back({"a=open(.,tmpfile)", opens(0), [](W &w) { w.open_(0, ".", 0, O_RDWR | O_TMPFILE, 0604); }});
  o.push_back({"close(a)", closes(0), [](W &w) { w.close_(0); }});
  o.push_back({"close(b)", closes(1), [](W &w) { w.close_(1); }});
  o.push_back({"write(a,0..3)", need(0), [](W &w) { w.write_(0, 0, 3); }});
  o.push_back({"write(a,2..8)", need(0), [](W &w) { w.write_(0, 2, 6); }});
  o.push_back({"write(a,empty)", need(0), [](W &w) { w.write_(0, 0, 0); }});
  o.push_back({"write(a,untainted)", need(0), [](W &w) { w.write_(0, 4, 2); }});
  o.push_back({"write(b,6..9)", need(1), [](W &w) { w.write_(1, 6, 3); }});
  o.push_back({"lseek(a,1)", need(0), [](W &w) { w.seek_(0, 1); }});
  o.push_back({"lseek(b,9)", need(1), [](W &w) { w.seek_(1, 9); }});
  o.push_back({"read(a,2)", need(0), [](W &w) { w.read_(0, 2); }});
  return o;
}
static Ops file_ops() {
  Ops o;
  o.push_back({"f=fopen(O1,w)", opens(0), [](W &w) { w.fopen_(0, "O1", "w", 0); }});
  o.push_back({"f=fopen64(O1,a)", opens(0), [](W &w) { w.fopen_(0, "O1", "a", 1); }});
  o.push_back({"f=fopen(O1,w+) unbuffered", opens(0), [](W &w) { w.fopen_(0, "O1", "w+", 0, true); }});
  o.push_back({"f=fopen(A,r)", opens(0), [](W &w) { w.fopen_(0, "A", "r", 0); }});
  o.push_back({"f=untracked fopen(O1,a)", opens(0), [](W &w) { w.fopen_(0, "O1", "a", 3); }});
  o.push_back({"fclose(f)", closes(0), [](W &w) { w.fclose_(0); }});
  o.push_back({"fwrite(0,1,3)", need(0), [](W &w) { w.fwrite_(0, 0, 1, 3); }});
  o.push_back({"fwrite(1,3,2)", need(0), [](W &w) { w.fwrite_(0, 1, 3, 2); }});
  o.push_back({"fwrite(0,0,5)", need(0), [](W &w) { w.fwrite_(0, 0, 0, 5); }});
  o.push_back({"putc('x')", need(0), [](W &w) { w.putc_(0, 'x', 0, 0); }});
  o.push_back({"fputc(-1)", need(0), [](W &w) { w.putc_(0, -1, 2, 1); }});
  o.push_back({"putc(200)", need(0), [](W &w) { w.putc_(0, 200, 6, 0); }});
  o.push_back({"fputc(300,untainted)", need(0), [](W &w) { w.putc_(0, 300, 1, 1); }});
  o.push_back({"fseek(2)", need(0), [](W &w) { w.fseek_(0, 2); }});
  o.push_back({"fflush", need(0), [](W &w) { w.fflush_(0); }});
  o.push_back({"d=open(O2)", opens(1), [](W &w) { w.open_(1, "O2", 0, O_WRONLY | O_CREAT, 0600); }});
  o.push_back({"write(d,2..5)", need(1), [](W &w) { w.write_(1, 2, 3); }});
  return o;
}
static Ops stream_ops(bool sock) {
  Ops o;
  o.push_back({"write(s,0..3)", any, [](W &w) { w.write_(0, 0, 3); }});
  o.push_back({"write(s,untainted)", any, [](W &w) { w.write_(0, 4, 2); }});
  o.push_back({"write(t,6..9)", any, [](W &w) { w.write_(1, 6, 3); }});
  o.push_back({"write(s,empty)", any, [](W &w) { w.write_(0, 0, 0); }});
  if (sock) {
    o.push_back({"send(s,1..5)", any, [](W &w) { w.write_(0, 1, 4, 1); }});
    o.push_back({"send(t,..) fails", any, [](W &w) { w.write_(1, 1, 4, 1); }});
    o.push_back({"send(s,MSG_OOB)", any, [](W &w) { w.write_(0, 6, 2, 1, MSG_OOB); }});
    o.push_back({"send(s,5000,MSG_MORE)", any, [](W &w) { w.write_(0, 0, 5000, 1, MSG_MORE); }});
    o.push_back({"send(s,MSG_ERRQUEUE|MSG_EOR)", any, [](W &w) { w.write_(0, 2, 3, 1, MSG_ERRQUEUE | MSG_EOR); }});
    o.push_back({"read(s,3)", any, [](W &w) { w.feed_read(0, 3, 0); }});
    o.push_back({"recv(s,2)", any, [](W &w) { w.feed_read(0, 2, 1); }});
  } else {
    o.push_back({"write(s,5000)", any, [](W &w) { w.write_(0, 0, 5000); }});
    o.push_back({"drain(s)", any, [](W &w) { w.drain(0); }});
  }
  return o;
}
static Ops fstream_ops() {
  Ops o;
  o.push_back({"fwrite(s,1,3)", any, [](W &w) { w.fwrite_(0, 0, 1, 3); }});
  o.push_back({"fwrite(s,2,3)", any, [](W &w) { w.fwrite_(0, 1, 2, 3); }});
  o.push_back({"putc(s,-2)", any, [](W &w) { w.putc_(0, -2, 3, 0); }});
  o.push_back({"fputc(s,untainted)", any, [](W &w) { w.putc_(0, 'u', 1, 1); }});
  o.push_back({"write(fileno(s),2)", any, [](W &w) {
                 Slot &x = w.s[0];
                 ::fflush(x.wf);
                 if (x.pf)
                   ::fflush(x.pf);
                 x.w = fileno(x.wf);
                 x.p = x.pf ? fileno(x.pf) : -1;
                 w.write_(0, 2, 2);
               }});
  o.push_back({"write(t,6..9)", any, [](W &w) { w.write_(1, 6, 3); }});
  o.push_back({"fflush", any, [](W &w) { w.fflush_(0); }});
  return o;
}
static void fifo(W &w, int k, const char *name, bool file) {
  std::string wp = std::string("w/") + name, pp = std::string("p/") + name;
  int rw = high(::open(wp.c_str(), O_RDONLY | O_NONBLOCK)), rp = -1;
  if (w.twin())
    rp = high(::open(pp.c_str(), O_RDONLY | O_NONBLOCK));
  if (file)
    w.fopen_(k, name, "w", 0);
  else
    w.open_(k, name, 0, O_WRONLY | O_NONBLOCK, 0);
  w.s[k].rd = rw;
  w.s[k].prd = rp;
  fcntl(rw, F_SETPIPE_SZ, 4096);
  if (rp >= 0)
    fcntl(rp, F_SETPIPE_SZ, 4096);
}
static void tcp(W &w, int k) {
  for (int pass = 0; pass < (w.twin() ? 2 : 1); pass++) {
    sockaddr_in sa;
    int ls = high(listener(sa));
    int c = ::socket(AF_INET, SOCK_STREAM, 0);
    nolinger(c);
    RL r;
    if (pass == 0) {
      VH_CHECK(__dfsw_connect(c, (sockaddr *)&sa, sizeof sa, 0, 0, 0, &r) == 0, "connect failed");
      w.s[k].w = c;
      sockaddr_in l{};
      socklen_t n = sizeof l;
      ::getsockname(c, (sockaddr *)&l, &n);
      w.s[k].path = "socket:127.0.0.1:" + std::to_string(ntohs(l.sin_port)) + "-127.0.0.1:" + std::to_string(ntohs(sa.sin_port));
      w.s[k].tracked = true;
    } else {
      ::connect(c, (sockaddr *)&sa, sizeof sa);
      w.s[k].p = high(c);
    }
    int other = high(::accept(ls, nullptr, nullptr));
    nolinger(other);
    w.peer[pass] = other;
    ::close(ls);
  }
}
struct Def {
  const char *name;
  Ops ops;
  std::function<void(W &)> setup;
  std::function<void()> before;
  int quick, thorough;
  const char *what;
  int limit; // RLIMIT_FSIZE, to provoke short and failing writes
};
static void std_slot(W &w, FILE *f, const char *name) {
  w.s[0].wf = f;
  w.s[0].w = fileno(f);
  w.s[0].path = name;
  w.s[0].tracked = true;
  if (w.twin()) {
    static int cnt = 0;
    w.s[0].pf = ::fopen("p/std", "w");
    if (f == stderr)
      setvbuf(w.s[0].pf, nullptr, _IONBF, 0);
  }
  w.open_(1, "O2", 0, O_WRONLY | O_CREAT | O_TRUNC, 0600);
}
static std::vector<Def> defs() {
  std::vector<Def> d;
  d.push_back({"fd", fd_ops(), {}, {}, 5, 6, "descriptor opens, seeks, writes and closes, with a file-size limit that shortens writes", 10});
  {
    Ops o = fd_ops();
    o.push_back({"write(a,4097)", need(0), [](W &w) { w.write_(0, 1, 4097); }});
    o.push_back({"write(a,6000)", need(0), [](W &w) { w.write_(0, 0, 6000); }});
    o.push_back({"write(b,10000)", need(1), [](W &w) { w.write_(1, 0, 10000); }});
    d.push_back({"fdl", o, {}, {}, 4, 5, "the same with writes of several pages, shortened by the limit", 9000});
    Ops f = file_ops();
    f.push_back({"fwrite(1,4097)", need(0), [](W &w) { w.fwrite_(0, 1, 1, 4097); }});
    f.push_back({"fwrite(7,900)", need(0), [](W &w) { w.fwrite_(0, 0, 7, 900); }});
    d.push_back({"filell", f, {}, {}, 4, 5, "streams with writes larger than the stream's buffer", 20000});
  }
  d.push_back({"file", file_ops(), {}, {}, 5, 6, "stream opens in all modes, block and character writes, seeks, flushes, with a file-size limit", 40});
  d.push_back({"filel", file_ops(), {}, {}, 4, 5, "the same with a limit that makes unbuffered writes fail", 4});
  d.push_back({"fifo", stream_ops(false), [](W &w) { fifo(w, 0, "F1", false); fifo(w, 1, "F2", false); }, {}, 5, 7, "writes to two pipes, short when full", 0});
  d.push_back({"ffifo", fstream_ops(), [](W &w) { fifo(w, 0, "F1", true); fifo(w, 1, "F2", false); }, {}, 5, 6, "buffered and unbuffered writes to a pipe", 0});
  d.push_back({"tcp", stream_ops(true), [](W &w) { tcp(w, 0); fifo(w, 1, "F2", false); }, {}, 4, 5, "writes and sends (interleaved with reads) to a TCP connection", 0});
  d.push_back({"stdout", fstream_ops(), [](W &w) { std_slot(w, stdout, "/dev/stdout"); },
               [] {
                 int fd = ::open("w/std", O_WRONLY | O_CREAT | O_TRUNC, 0644);
                 dup2(fd, 1);
                 ::close(fd);
                 setenv("POLYTRACKER_STDOUT_SINK", "1", 1);
               },
               4, 5, "standard output sent to a file", 0});
  d.push_back({"stderr", fstream_ops(), [](W &w) { std_slot(w, stderr, "/dev/stderr"); },
               [] {
                 int fd = ::open("w/std", O_WRONLY | O_CREAT | O_TRUNC, 0644);
                 dup2(fd, 2);
                 ::close(fd);
                 setenv("POLYTRACKER_STDERR_SINK", "1", 1);
               },
               4, 5, "standard error sent to a file", 0});
  return d;
}
int main(int argc, char **argv) {
  std::vector<vh::Suite> suites;
  static auto ds = defs();
  for (auto &d : ds)
    for (Mode mm : {LABELS, BEHAVE}) {
      vh::Suite s;
      s.name = std::string(mm == LABELS ? "c16_" : "c17w_") + d.name;
      if (mm == BEHAVE && d.before)
        continue; // the twin cannot share the standard streams
      s.rule = std::string("all sequences of ") + d.what;
      s.fork_each = true;
      Def *dp = &d;
      s.gen = [dp](const Visit &v) {
        fixtures();
        enumerate<W>(dp->ops, vh::g_thorough ? dp->thorough : dp->quick, v);
      };
      s.run = [dp, mm](const Case &c) {
        fixtures();
        g_mode = mm;
        umask(022);
        for (const char *f : {"w/O1", "w/O2", "p/O1", "p/O2"})
          unlink(f);
        if (dp->before)
          dp->before();
        start_runtime();
        if (dp->limit) {
          signal(SIGXFSZ, SIG_IGN);
          rlimit rl{(rlim_t)dp->limit, (rlim_t)dp->limit};
          setrlimit(RLIMIT_FSIZE, &rl);
        }
        static W w; // outlives the orderly exit
        w.init(10000);
        if (dp->setup)
          dp->setup(w);
        for (int i : c) {
          dp->ops[i].run(w);
          vh::st().transitions++;
        }
        w.cmp_peer();
        if (mm == BEHAVE)
          for (const char *f : {"O1", "O2", "A"}) {
            for (auto &x : w.s) {
              if (x.wf)
                ::fflush(x.wf);
              if (x.pf)
                ::fflush(x.pf);
            }
            VH_CHECK(slurp(std::string("w/") + f) == slurp(std::string("p/") + f), "contents of %s differ from what the plain calls write", f);
          }
        g_exp = w.exp;
        end_case(mm == LABELS ? check_sinks : std::function<void(Tdag &)>{});
      };
      s.describe = [dp](const Case &c) { return describe_ops(dp->ops, c); };
      suites.push_back(s);
    }
  // Every size of write; offsets beyond 2^32; the largest labels.
  for (Mode mm : {LABELS, BEHAVE}) {
    vh::Suite s;
    s.name = mm == LABELS ? "c16_size" : "c17w_size";
    s.rule = "one write of every kind of every size up to 600 (thorough 1500) and around every power of two up to 2^20, at offsets 0 and beyond 2^31, 2^32 and 2^42, with small and with the largest labels";
    s.fork_each = true;
    s.gen = [](const Visit &v) {
      fixtures();
      std::set<int> n;
      for (int i = 1; i <= (vh::g_thorough ? 1500 : 600); i++)
        n.insert(i);
      for (int k = 9; k <= 19; k++)
        for (int d = -1; d <= 1; d++)
          n.insert((1 << k) + d);
      n.insert(1000000);
      for (int i : n)
        for (int k = 0; k < 5; k++)
          for (int o = 0; o < (i < 40 ? 6 : i < 5000 && i > 4000 ? 3 : 1); o++)
            if (k != 4 || (i <= 60000 && o == 0))
              v({k, i, o});
    };
    s.run = [mm](const Case &c) {
      fixtures();
      g_mode = mm;
      umask(022);
      for (const char *f : {"w/O1", "w/O2", "p/O1", "p/O2"})
        unlink(f);
      start_runtime();
      static W w;
      int k = c[0], n = c[1], o = c[2];
      static const off_t offs[] = {0, 0x7ffffffell, (1ll << 32) - 2, (3ll << 32) + 5, (1ll << 42) - 3, 0};
      w.init(n + 16);
      if (o == 5) // labels as they occur late in a long recording
        for (size_t i = 0; i < w.labs.size(); i++)
          if (w.labs[i]) {
            w.labs[i] = i % 3 ? 0x7ffffffe - i : 0x40000000 + i;
            dfsan_set_label(w.labs[i], &w.data[i], 1);
          }
      switch (k) {
      case 0:
        w.open_(0, "O1", n & 1, O_WRONLY | O_CREAT | O_TRUNC, 0640);
        w.seek_(0, offs[o]);
        w.write_(0, 0, n);
        w.write_(0, 1, 3);
        break;
      case 1:
      case 2:
        w.fopen_(0, "O1", n & 1 ? "w" : "a", n & 1, o & 1);
        w.fseek_(0, n & 1 ? offs[o] : 0);
        w.fwrite_(0, 0, k == 1 ? 1 : n, k == 1 ? n : 1);
        w.putc_(0, 'x', 0, 0);
        break;
      case 3:
        w.open_(0, "O1", 0, O_RDWR | O_CREAT | O_APPEND, 0600);
        w.write_(0, 2, 5);
        w.seek_(0, offs[o]);
        w.write_(0, 0, n);
        break;
      case 4:
        fifo(w, 0, "F1", false);
        fcntl(w.s[0].rd, F_SETPIPE_SZ, 65536);
        if (w.s[0].prd >= 0)
          fcntl(w.s[0].prd, F_SETPIPE_SZ, 65536);
        w.write_(0, 0, n);
        w.write_(0, 1, 3);
        break;
      }
      if (mm == BEHAVE && o == 0 && k != 4) {
        for (auto &x : w.s) {
          if (x.wf)
            ::fflush(x.wf);
          if (x.pf)
            ::fflush(x.pf);
        }
        VH_CHECK(slurp("w/O1") == slurp("p/O1"), "contents differ from what the plain calls write");
      }
      g_exp = w.exp;
      end_case(mm == LABELS ? check_sinks : std::function<void(Tdag &)>{});
    };
    s.describe = [](const Case &c) {
      static const char *kn[] = {"write", "fwrite(1,n)", "fwrite(n,1)", "append", "write to a pipe"};
      return std::string(kn[c[0]]) + " of " + std::to_string(c[1]) + " bytes, place " + std::to_string(c[2]);
    };
    suites.push_back(s);
  }
  for (Mode mm : {LABELS, BEHAVE}) {
    vh::Suite s;
    s.name = mm == LABELS ? "c16_elem" : "c17w_elem";
    s.rule = "block writes of 1 to 40 elements of 1 to 5000 bytes to files and pipes, new and in append mode, buffered and not";
    s.fork_each = true;
    s.gen = [](const Visit &v) {
      fixtures();
      for (int sz : {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 31, 32, 33, 64, 100, 255, 256, 257, 1000, 4095, 4096, 4097, 5000})
        for (int cnt : {1, 2, 3, 4, 5, 8, 17, 40})
          for (int k = 0; k < 4; k++)
            v({sz, cnt, k});
    };
    s.run = [mm](const Case &c) {
      fixtures();
      g_mode = mm;
      umask(022);
      for (const char *f : {"w/O1", "w/O2", "p/O1", "p/O2"})
        unlink(f);
      start_runtime();
      static W w;
      w.init(c[0] * c[1] + 16);
      w.fopen_(0, "O1", c[2] & 1 ? "w" : "a", c[1] & 1, c[2] >> 1);
      w.fwrite_(0, 1, 3, 1);
      w.fwrite_(0, 0, c[0], c[1]);
      w.fwrite_(0, 2, c[0], 1);
      g_exp = w.exp;
      end_case(mm == LABELS ? check_sinks : std::function<void(Tdag &)>{});
    };
    s.describe = [](const Case &c) { return std::to_string(c[1]) + " elements of " + std::to_string(c[0]) + " bytes, mode " + std::to_string(c[2]); };
    suites.push_back(s);
  }
  for (Mode mm : {LABELS, BEHAVE}) {
    vh::Suite s;
    s.name = mm == LABELS ? "c16_many" : "c17w_many";
    s.rule = "every number of simultaneously open pipes (every fourth output a file) up to the largest, each written three times in turn, in both directions";
    s.fork_each = true;
    s.gen = [](const Visit &v) {
      fixtures();
      for (int n = 1; n <= 254; n++)
        for (int d = 0; d < 2; d++)
          v({n, d});
    };
    s.run = [mm](const Case &c) {
      fixtures();
      g_mode = mm;
      umask(022);
      rlimit rl;
      getrlimit(RLIMIT_NOFILE, &rl);
      rl.rlim_cur = rl.rlim_max;
      setrlimit(RLIMIT_NOFILE, &rl);
      int n = c[0];
      for (int i = 0; i < n; i++)
        for (const char *t : {"w/", "p/"}) {
          std::string f = std::string(t) + "M" + std::to_string(i);
          if (i % 4 != 3)
            mkfifo(f.c_str(), 0644);
          else
            unlink(f.c_str());
        }
      start_runtime();
      static W w;
      w.init(32);
      std::vector<Slot> all;
      for (int i = 0; i < n; i++) {
        w.open_(0, ("M" + std::to_string(i)).c_str(), i & 1, i % 4 == 3 ? O_WRONLY | O_CREAT : O_RDWR | O_NONBLOCK, 0600);
        VH_CHECK(w.s[0].w >= 0, "open number %d failed with errno %d", i, errno);
        all.push_back(w.s[0]);
      }
      for (int round = 0; round < 3; round++)
        for (int j = 0; j < n; j++) {
          int i = (round & 1) != c[1] ? n - 1 - j : j;
          w.s[0] = all[i];
          w.write_(0, i % 5, 1 + i % 7);
          all[i] = w.s[0];
          vh::st().transitions++;
        }
      g_exp = w.exp;
      end_case(mm == LABELS ? check_sinks : std::function<void(Tdag &)>{});
    };
    suites.push_back(s);
  }
  return vh::main_(argc, argv, suites);
}
