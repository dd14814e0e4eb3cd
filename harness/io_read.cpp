// C14, C15, C17(reading), C05(histories): tracked reads.
#include "io.h"
#include <sys/uio.h>

enum Mode { LABELS, BEHAVE, INDEX };
static Mode g_mode = LABELS;

static int high(int fd) { // keeps plain twins away from low descriptor numbers
  if (fd < 0)
    return fd;
  int e = errno, h = fcntl(fd, F_DUPFD, 300);
  ::close(fd);
  errno = e;
  return h;
}

struct Slot {
  int w = -1, p = -1;
  FILE *wf = nullptr, *pf = nullptr;
  std::string path; // as passed by the program
  bool tracked = false;
  bool stream = false;
  uint64_t delivered = 0; // stream bytes delivered so far
};

struct W {
  Slot s[3];
  std::unique_ptr<Live> live;
  std::map<std::string, uint64_t> fed;
  Tdag &t() {
    if (!live)
      live.reset(new Live);
    return live->t;
  }
  bool twin() const { return g_mode == BEHAVE; }

  void cmp(const char *what, long rw, int ew, long rp, int ep, bool isfd = false) {
    if (!twin())
      return;
    if (isfd ? ((rw < 0) != (rp < 0)) : rw != rp)
      vh::fail("%s returned %ld, the plain call returns %ld", what, rw, rp);
    if (rp < 0)
      VH_CHECK(ew == ep, "%s failed with errno %d, the plain call with %d", what, ew, ep);
  }
  void cmp_meta(const char *what, int w, int p) {
    if (!twin() || w < 0 || p < 0)
      return;
    VH_CHECK(fcntl(w, F_GETFL) == fcntl(p, F_GETFL), "%s: descriptor flags 0x%x, plain 0x%x", what,
             fcntl(w, F_GETFL), fcntl(p, F_GETFL));
    VH_CHECK(fcntl(w, F_GETFD) == fcntl(p, F_GETFD), "%s: close-on-exec differs", what);
    struct stat a, b;
    fstat(w, &a);
    fstat(p, &b);
    VH_CHECK(a.st_mode == b.st_mode, "%s: file mode %o, plain %o", what, a.st_mode, b.st_mode);
    off_t x = lseek(w, 0, SEEK_CUR), y = lseek(p, 0, SEEK_CUR);
    VH_CHECK(x == y, "%s: file position %ld, plain %ld", what, (long)x, (long)y);
  }
  void cmp_file(const char *what, Slot &x) {
    if (!twin())
      return;
    VH_CHECK(ftello(x.wf) == ftello(x.pf), "%s: stream position %ld, plain %ld", what, (long)ftello(x.wf),
             (long)ftello(x.pf));
    VH_CHECK(!feof(x.wf) == !feof(x.pf), "%s: end-of-file state differs", what);
    VH_CHECK(!ferror(x.wf) == !ferror(x.pf), "%s: error state differs", what);
  }
  void cmp_buf(const char *what, const uint8_t *a, const uint8_t *b, size_t n) {
    if (!twin())
      return;
    for (size_t i = 0; i < n; i++)
      VH_CHECK(a[i] == b[i], "%s: byte %zu is 0x%02x, plain 0x%02x", what, i, a[i], b[i]);
  }

  // -- descriptor calls
  void open_(int k, const char *name, int how, int flags, int mode = 0) {
    Slot &x = s[k];
    std::string wp = std::string("w/") + name, pp = std::string("p/") + name;
    int ep = 0, ew;
    if (twin()) {
      errno = 0;
      x.p = (flags & O_CREAT) ? ::open(pp.c_str(), flags, mode) : ::open(pp.c_str(), flags);
      ep = errno;
      int keep = x.p >= 0 ? fcntl(x.p, F_GETFD) : 0;
      x.p = high(x.p);
      if (x.p >= 0)
        fcntl(x.p, F_SETFD, keep);
    }
    RL r;
    lab va[2] = {0, 0};
    const char *what = "open";
    errno = 0;
    // Three argument labels of distinct values; none may reach the result.
    if (how == 0)
      x.w = (flags & O_CREAT) ? __dfsw_open(wp.c_str(), flags, 0, 0, va, &r, mode)
                              : __dfsw_open(wp.c_str(), flags, 0, 0, va, &r);
    else if (how == 1)
      what = "open64", x.w = (flags & O_CREAT) ? __dfsw_open64(wp.c_str(), flags, 0, 0, va, &r, mode)
                                               : __dfsw_open64(wp.c_str(), flags, 0, 0, va, &r);
    else if (how == 2)
      what = "openat", x.w = (flags & O_CREAT)
                                 ? __dfsw_openat(AT_FDCWD, wp.c_str(), flags, 0, 0, 0, va, &r, mode)
                                 : __dfsw_openat(AT_FDCWD, wp.c_str(), flags, 0, 0, 0, va, &r);
    else { // not through the tracker
      what = "plain open", r.v = 0;
      x.w = ::open(wp.c_str(), flags, mode);
    }
    ew = errno;
    if (twin()) {
      cmp(what, x.w, ew, x.p, ep, true);
      r.zero(what);
      cmp_meta(what, x.w, x.p);
    }
    x.path = wp;
    x.tracked = how != 3 && x.w >= 0;
    x.stream = x.w >= 0 && lseek(x.w, 0, SEEK_CUR) < 0;
    x.delivered = 0;
  }
  void close_(int k) {
    Slot &x = s[k];
    RL r;
    errno = 0;
    int a = __dfsw_close(x.w, 0, &r), ea = errno;
    if (twin()) {
      errno = 0;
      int b = ::close(x.p), eb = errno;
      cmp("close", a, ea, b, eb);
      r.zero("close");
    }
    x = Slot{};
  }
  void delivered(const char *what, Slot &x, Buf &b, long n, off_t off, long scribble) {
    if (g_mode != LABELS)
      return;
    if (n < 0)
      n = 0;
    uint64_t o = off >= 0 ? (uint64_t)off : x.delivered;
    int fd = x.wf ? fileno(x.wf) : x.w;
    for (long i = -(long)Buf::M; i < (long)(b.n + Buf::M); i++) {
      lab l = b.at(i);
      if (i >= 0 && i < n) {
        if (x.tracked)
          expect_source(t(), l, x.path, fd, o + i, what, i);
        else
          VH_CHECK(l == 0 || l == PRE, "%s: byte %ld from an untracked descriptor got label %u", what, i, l);
      } else if (i == n && scribble) {
        VH_CHECK(l == 0 || l == PRE, "%s: the terminator got label %u", what, l);
      } else
        VH_CHECK(l == PRE, "%s: byte %ld was not delivered but its label changed to %u", what, i, l);
    }
    if (off < 0 && n > 0)
      x.delivered += n;
    if (n > 0)
      vh::st().nontrivial++;
  }
  void read_(int k, size_t n) {
    Slot &x = s[k];
    Buf b(n + 2), c(n + 2);
    off_t off = x.w >= 0 ? lseek(x.w, 0, SEEK_CUR) : -1;
    RL r;
    errno = 0;
    ssize_t a = __dfsw_read(x.w, b.p(), n, 0, 0, 0, &r);
    int ea = errno;
    if (twin()) {
      errno = 0;
      ssize_t q = ::read(x.p, c.p(), n);
      int eq = errno;
      cmp("read", a, ea, q, eq);
      cmp_buf("read", b.v.data(), c.v.data(), b.v.size());
      r.zero("read");
      cmp_meta("read", x.w, x.p);
    }
    delivered("read", x, b, a, off, 0);
  }
  void pread_(int k, size_t n, off_t off, bool six) {
    Slot &x = s[k];
    Buf b(n + 2), c(n + 2);
    RL r;
    errno = 0;
    const char *what = six ? "pread64" : "pread";
    ssize_t a = six ? __dfsw_pread64(x.w, b.p(), n, off, 0, 0, 0, 0, &r)
                    : __dfsw_pread(x.w, b.p(), n, off, 0, 0, 0, 0, &r);
    int ea = errno;
    if (twin()) {
      errno = 0;
      ssize_t q = ::pread(x.p, c.p(), n, off);
      int eq = errno;
      cmp(what, a, ea, q, eq);
      cmp_buf(what, b.v.data(), c.v.data(), b.v.size());
      r.zero(what);
      cmp_meta(what, x.w, x.p);
    }
    if (off >= 0)
      delivered(what, x, b, a, off, 0);
  }
  void seek_(int k, off_t o) {
    Slot &x = s[k];
    lseek(x.w, o, SEEK_SET);
    if (twin())
      lseek(x.p, o, SEEK_SET);
  }
  void mmap_(int k, size_t n, off_t off, int flags, int prot) {
    Slot &x = s[k];
    RL r;
    errno = 0;
    bool anon = flags & MAP_ANONYMOUS;
    uint8_t *a = (uint8_t *)__dfsw_mmap(nullptr, n, prot, flags, x.w, off, 0, 0, 0, 0, 0, 0, &r);
    int ea = errno;
    if (twin()) {
      errno = 0;
      uint8_t *q = (uint8_t *)::mmap(nullptr, n, prot, flags, x.p, off);
      int eq = errno;
      VH_CHECK((a == MAP_FAILED) == (q == MAP_FAILED), "mmap %s, the plain call %s",
               a == MAP_FAILED ? "failed" : "succeeded", q == MAP_FAILED ? "failed" : "succeeded");
      if (q == MAP_FAILED)
        VH_CHECK(ea == eq, "mmap failed with errno %d, the plain call with %d", ea, eq);
      r.zero("mmap");
      if (a != MAP_FAILED) {
        size_t full = (n + 4095) / 4096 * 4096;
        struct stat sb;
        size_t lim = full;
        if (!anon && x.p >= 0 && fstat(x.p, &sb) == 0) {
          size_t avail = sb.st_size > off ? (sb.st_size - off + 4095) / 4096 * 4096 : 0;
          lim = std::min(lim, avail);
        }
        cmp_buf("mmap", a, q, lim);
      }
    }
    if (g_mode != LABELS || a == MAP_FAILED)
      return;
    struct stat sb;
    size_t have = n;
    if (!anon && x.w >= 0 && fstat(x.w, &sb) == 0)
      have = sb.st_size > off ? std::min<size_t>(n, sb.st_size - off) : 0;
    size_t full = (n + 4095) / 4096 * 4096;
    for (size_t i = 0; i < full; i++) {
      lab l = dfsan_read_label(a + i, 1);
      if (!anon && x.tracked && i < have)
        expect_source(t(), l, x.path, x.w, off + i, "mmap", i);
      else
        VH_CHECK(l == 0, "mmap: byte %zu %s but got label %u", i,
                 anon || !x.tracked ? "is not from a tracked file" : "is beyond the end of the file", l);
    }
    if (have)
      vh::st().nontrivial++;
  }
  size_t have_of(int k) {
    struct stat sb;
    return fstat(s[k].w, &sb) == 0 ? sb.st_size : 0;
  }
  void munmap_check() {
    RL r, r2;
    uint8_t *a = (uint8_t *)__dfsw_mmap(nullptr, 8192, PROT_READ, MAP_PRIVATE, s[0].w, 0, 0, 0, 0, 0, 0, 0, &r);
    if (a == MAP_FAILED)
      return;
    int x = __dfsw_munmap(a, 4096, 0, 0, &r2);
    if (twin()) {
      VH_CHECK(x == 0, "munmap returned %d", x);
      r2.zero("munmap");
      unsigned char vec;
      VH_CHECK(mincore(a, 4096, &vec) != 0 && errno == ENOMEM, "munmap left the mapping in place");
      VH_CHECK(mincore(a + 4096, 4096, &vec) == 0, "munmap removed a page it was not asked to");
      RL r3;
      errno = 0;
      int y = __dfsw_munmap(a + 4097, 10, 0, 0, &r3);
      VH_CHECK(y == -1 && errno == EINVAL, "munmap of a bad address returned %d errno %d", y, errno);
    } else {
      RL r3;
      __dfsw_munmap(a + 4097, 10, 0, 0, &r3); // fails and must leave everything as it is
      if (s[0].tracked)
        for (int i = 4096; i < 4096 + (int)std::min<size_t>(100, have_of(0) > 4096 ? have_of(0) - 4096 : 0); i++)
          expect_source(t(), dfsan_read_label(a + i, 1), s[0].path, s[0].w, i, "mmap followed by a failing munmap", i);
      for (int i = 0; i < 4096; i++)
        VH_CHECK(dfsan_read_label(a + i, 1) == 0, "unmapped byte %d still carries a label", i);
    }
  }

  // -- buffered stream calls
  void fopen_(int k, const char *name, const char *mode, int how) {
    Slot &x = s[k];
    std::string wp = std::string("w/") + name, pp = std::string("p/") + name;
    int ep = 0;
    if (twin()) {
      int lo = ::open("/dev/null", O_RDONLY); // keep low numbers for the tracked stream
      errno = 0;
      x.pf = ::fopen(pp.c_str(), mode);
      ep = errno;
      ::close(lo);
    }
    RL r;
    errno = 0;
    if (how == 3) {
      r.v = 0;
      x.wf = ::fopen(wp.c_str(), mode);
    } else
      x.wf = how ? __dfsw_fopen64(wp.c_str(), mode, 0, 0, &r) : __dfsw_fopen(wp.c_str(), mode, 0, 0, &r);
    int ew = errno;
    if (twin()) {
      VH_CHECK(!x.wf == !x.pf, "fopen %s, the plain call %s", x.wf ? "succeeded" : "failed",
               x.pf ? "succeeded" : "failed");
      if (!x.pf)
        VH_CHECK(ew == ep, "fopen failed with errno %d, the plain call with %d", ew, ep);
      r.zero("fopen");
      if (x.wf)
        cmp_meta("fopen", fileno(x.wf), fileno(x.pf)), cmp_file("fopen", x);
    }
    x.path = wp;
    x.tracked = how != 3 && x.wf;
    x.stream = x.wf && ftello(x.wf) < 0;
  }
  void fclose_(int k) {
    Slot &x = s[k];
    RL r;
    int a = __dfsw_fclose(x.wf, 0, &r);
    if (twin()) {
      int b = ::fclose(x.pf);
      cmp("fclose", a, 0, b, 0);
      r.zero("fclose");
    }
    x = Slot{};
  }
  void fread_(int k, size_t sz, size_t cnt, bool unl) {
    Slot &x = s[k];
    size_t n = std::min<size_t>(sz * cnt, 8u << 20);
    Buf b(n + 2), c(n + 2);
    off_t off = ftello(x.wf);
    RL r;
    const char *what = unl ? "fread_unlocked" : "fread";
    size_t a = unl ? __dfsw_fread_unlocked(b.p(), sz, cnt, x.wf, 0, 0, 0, 0, &r)
                   : __dfsw_fread(b.p(), sz, cnt, x.wf, 0, 0, 0, 0, &r);
    if (twin()) {
      size_t q = ::fread(c.p(), sz, cnt, x.pf);
      cmp(what, a, 0, q, 0);
      cmp_buf(what, b.v.data(), c.v.data(), b.v.size());
      r.zero(what);
      cmp_file(what, x);
    }
    if (g_mode != LABELS)
      return;
    // Bytes of a trailing partial element are neither required nor forbidden to
    // be labelled; a stream is not looked at again after one.
    size_t full = a * sz, got = full;
    while (got < n && b.p()[got] != 0xEE)
      got++;
    if (got > full) {
      for (size_t i = full; i < got; i++) {
        lab l = b.at(i);
        if (l != PRE && l != 0)
          expect_source(t(), l, x.path, fileno(x.wf), (off >= 0 ? off : x.delivered) + i, what, i);
        dfsan_set_label(PRE, b.p() + i, 1);
      }
      if (off < 0)
        end_case();
    }
    delivered(what, x, b, full, off, 0);
  }
  void getc_(int k, int how) {
    Slot &x = s[k];
    off_t off = ftello(x.wf);
    RL r;
    static const char *names[] = {"fgetc", "fgetc_unlocked", "_IO_getc", "getc", "getc_unlocked", "getchar",
                                  "getchar_unlocked"};
    const char *what = names[how];
    int a = 0;
    switch (how) {
    case 0: a = __dfsw_fgetc(x.wf, 0, &r); break;
    case 1: a = __dfsw_fgetc_unlocked(x.wf, 0, &r); break;
    case 2: a = __dfsw__IO_getc(x.wf, 0, &r); break;
    case 3: a = __dfsw_getc(x.wf, 0, &r); break;
    case 4: a = __dfsw_getc_unlocked(x.wf, 0, &r); break;
    case 5: a = __dfsw_getchar(&r); break;
    case 6: a = __dfsw_getchar_unlocked(&r); break;
    }
    if (twin()) {
      int q = ::fgetc(x.pf);
      cmp(what, a, 0, q, 0);
      r.check(what);
      cmp_file(what, x);
    }
    if (g_mode != LABELS)
      return;
    if (a == EOF || !x.tracked)
      VH_CHECK(r.v == 0, "%s: %s but the result carries label %u", what,
               a == EOF ? "nothing was read" : "the stream is not tracked", r.v);
    else
      expect_source(t(), r.v, x.path, fileno(x.wf), off >= 0 ? off : x.delivered, what, 0);
    if (a != EOF && off < 0)
      x.delivered++;
    if (a != EOF)
      vh::st().nontrivial++;
  }
  void fgets_(int k, int n) {
    Slot &x = s[k];
    Buf b(n + 2), c(n + 2);
    off_t off = ftello(x.wf);
    RL r;
    lab al = n & 8 ? 0x7000002 : 0; // taint of the buffer's address
    char *a = __dfsw_fgets((char *)b.p(), n, x.wf, al, 0, 0, &r);
    if (twin()) {
      char *q = ::fgets((char *)c.p(), n, x.pf);
      VH_CHECK(!a == !q && (!a || a == (char *)b.p()), "fgets returned %s, the plain call %s",
               a ? "the buffer" : "NULL", q ? "the buffer" : "NULL");
      cmp_buf("fgets", b.v.data(), c.v.data(), b.v.size());
      r.check("fgets");
      VH_CHECK(r.v == (a ? al : 0), "fgets: the result carries label %u, %s", r.v, a ? "not that of the address it was given" : "although it is NULL");
      cmp_file("fgets", x);
    }
    if (g_mode != LABELS)
      return;
    // How many bytes were delivered: the terminator is the last NUL before the
    // untouched tail.
    long m = 0;
    if (a) {
      m = b.n - 1;
      while (m >= 0 && b.p()[m] == 0xEE)
        m--;
      VH_CHECK(m >= 0 && b.p()[m] == 0, "harness: fgets terminator");
    }
    delivered("fgets", x, b, m, off, a ? 1 : 0);
  }
  void getdelim_(int k, int delim, bool under) {
    Slot &x = s[k];
    char *lp = nullptr, *lq = nullptr;
    size_t n = 0, nq = 0;
    off_t off = ftello(x.wf);
    RL r;
    const char *what = under ? "__getdelim" : "getdelim";
    ssize_t a = under ? __dfsw___getdelim(&lp, &n, delim, x.wf, 0, 0, 0, 0, &r)
                      : __dfsw_getdelim(&lp, &n, delim, x.wf, 0, 0, 0, 0, &r);
    if (twin()) {
      ssize_t q = ::getdelim(&lq, &nq, delim, x.pf);
      cmp(what, a, 0, q, 0);
      if (a > 0)
        cmp_buf(what, (uint8_t *)lp, (uint8_t *)lq, a + 1);
      r.zero(what);
      cmp_file(what, x);
    }
    if (g_mode == LABELS && a > 0) {
      uint64_t o = off >= 0 ? (uint64_t)off : x.delivered;
      for (ssize_t i = 0; i < a; i++) {
        lab l = dfsan_read_label(lp + i, 1);
        if (x.tracked)
          expect_source(t(), l, x.path, fileno(x.wf), o + i, what, i);
        else
          VH_CHECK(l == 0 || l == PRE, "%s: byte %zd from an untracked stream got label %u", what, i, l);
      }
      if (off < 0)
        x.delivered += a;
      vh::st().nontrivial++;
    }
    // The line buffers are not reused, so that no stale label can be mistaken
    // for one given by the call.
  }
  void fseek_(int k, long o) {
    ::fseek(s[k].wf, o, SEEK_SET);
    if (twin())
      ::fseek(s[k].pf, o, SEEK_SET);
  }
  void ungetc_(int k, int ch) {
    ::ungetc(ch, s[k].wf);
    if (twin())
      ::ungetc(ch, s[k].pf);
  }
  // -- feeding streams (by descriptor of the other end)
  int feedw[3] = {-1, -1, -1}, feedp[3] = {-1, -1, -1};
  uint64_t nfed = 0;
  void feed(int k, int n) {
    char b[64];
    for (int i = 0; i < n; i++)
      nfed++, b[i] = nfed % 5 == 4 ? '\n' : nfed % 7 == 3 ? 0 : nfed % 11 == 6 ? 0xff : (char)('a' + nfed % 26);
    if (feedw[k] >= 0)
      VH_CHECK(::write(feedw[k], b, n) == n, "harness: feed");
    if (feedp[k] >= 0)
      VH_CHECK(::write(feedp[k], b, n) == n, "harness: feed");
  }
};

static bool any(Abs &) { return true; }
static std::function<bool(Abs &)> need(int k) {
  return [k](Abs &a) { return a.s[k] == 1; };
}
static std::function<bool(Abs &)> opens(int k) {
  return [k](Abs &a) {
    if (a.s[k])
      return false;
    a.s[k] = 1;
    return true;
  };
}
static std::function<bool(Abs &)> closes(int k) {
  return [k](Abs &a) {
    if (a.s[k] != 1)
      return false;
    a.s[k] = 0;
    return true;
  };
}
using OpW = Op<W>;
using Ops = std::vector<OpW>;

static Ops fd_ops() {
  Ops o;
  o.push_back({"a=open(A)", opens(0), [](W &w) { w.open_(0, "A", 0, O_RDONLY); }});
  o.push_back({"a=open64(B)", opens(0), [](W &w) { w.open_(0, "B", 1, O_RDONLY); }});
  o.push_back({"b=openat(B)", opens(1), [](W &w) { w.open_(1, "B", 2, O_RDWR); }});
  o.push_back({"b=open(A)", opens(1), [](W &w) { w.open_(1, "A", 0, O_RDONLY | O_CLOEXEC); }});
  o.push_back({"b=untracked open(A)", opens(1), [](W &w) { w.open_(1, "A", 3, O_RDONLY); }});
  o.push_back({"open(missing)", any, [](W &w) { w.open_(2, "nope", 0, O_RDONLY); }});
  o.push_back({"close(a)", closes(0), [](W &w) { w.close_(0); }});
  o.push_back({"close(b)", closes(1), [](W &w) { w.close_(1); }});
  o.push_back({"read(a,1)", need(0), [](W &w) { w.read_(0, 1); }});
  o.push_back({"read(a,4)", need(0), [](W &w) { w.read_(0, 4); }});
  o.push_back({"read(a,64)", need(0), [](W &w) { w.read_(0, 64); }});
  o.push_back({"read(a,0)", need(0), [](W &w) { w.read_(0, 0); }});
  o.push_back({"read(b,3)", need(1), [](W &w) { w.read_(1, 3); }});
  o.push_back({"pread(a,3,@5)", need(0), [](W &w) { w.pread_(0, 3, 5, false); }});
  o.push_back({"pread64(b,64,@2)", need(1), [](W &w) { w.pread_(1, 64, 2, true); }});
  o.push_back({"pread(a,2,@-1)", need(0), [](W &w) { w.pread_(0, 2, -1, false); }});
  o.push_back({"lseek(a,2)", need(0), [](W &w) { w.seek_(0, 2); }});
  o.push_back({"lseek(b,100)", need(1), [](W &w) { w.seek_(1, 100); }});
  return o;
}
static Ops file_ops(const char *fa) {
  Ops o;
  std::string A = fa;
  o.push_back({"f=fopen(" + A + ",r)", opens(0), [A](W &w) { w.fopen_(0, A.c_str(), "r", 0); }});
  o.push_back({"f=fopen64(B,r+)", opens(0), [](W &w) { w.fopen_(0, "B", "r+", 1); }});
  o.push_back({"f=untracked fopen", opens(0), [A](W &w) { w.fopen_(0, A.c_str(), "r", 3); }});
  o.push_back({"fclose(f)", closes(0), [](W &w) { w.fclose_(0); }});
  o.push_back({"fread(1,3)", need(0), [](W &w) { w.fread_(0, 1, 3, false); }});
  o.push_back({"fread(3,2)", need(0), [](W &w) { w.fread_(0, 3, 2, false); }});
  o.push_back({"fread_unlocked(2,4)", need(0), [](W &w) { w.fread_(0, 2, 4, true); }});
  o.push_back({"fread(4,0)", need(0), [](W &w) { w.fread_(0, 4, 0, false); }});
  static const char *n[] = {"fgetc", "fgetc_unlocked", "_IO_getc", "getc", "getc_unlocked"};
  for (int i = 0; i < 5; i++)
    o.push_back({n[i], need(0), [i](W &w) { w.getc_(0, i); }});
  o.push_back({"fgets(4)", need(0), [](W &w) { w.fgets_(0, 4); }});
  o.push_back({"fgets(40)", need(0), [](W &w) { w.fgets_(0, 40); }});
  o.push_back({"getdelim(\\n)", need(0), [](W &w) { w.getdelim_(0, '\n', false); }});
  o.push_back({"__getdelim(f)", need(0), [](W &w) { w.getdelim_(0, 'f', true); }});
  o.push_back({"fseek(1)", need(0), [](W &w) { w.fseek_(0, 1); }});
  o.push_back({"ungetc(last)", need(0), [](W &w) { w.ungetc_(0, 'u'); }});
  return o;
}
// Large transfers and large offsets.
static Ops huge_ops() {
  Ops o;
  const off_t G4 = 1ll << 32;
  o.push_back({"a=open(S)", opens(0), [](W &w) { w.open_(0, "S", 0, O_RDONLY); }});
  o.push_back({"a=open64(BIG)", opens(0), [](W &w) { w.open_(0, "BIG", 1, O_RDONLY); }});
  o.push_back({"close(a)", closes(0), [](W &w) { w.close_(0); }});
  o.push_back({"read(a,5000)", need(0), [](W &w) { w.read_(0, 5000); }});
  o.push_back({"read(a,4096)", need(0), [](W &w) { w.read_(0, 4096); }});
  for (off_t b : {(off_t)0x7fffffff, G4 - 2, G4 + 5, 3 * G4 - 3}) {
    o.push_back({"lseek(a," + std::to_string(b) + ")", need(0), [b](W &w) { w.seek_(0, b); }});
    o.push_back({"pread(a,4,@" + std::to_string(b) + ")", need(0), [b](W &w) { w.pread_(0, 4, b, b & 1); }});
  }
  o.push_back({"a=open(T)", opens(0), [](W &w) { w.open_(0, "T", 0, O_RDONLY); }});
  for (off_t b : {(off_t)(1ll << 42) - 2, (off_t)(1ll << 48) - 1, (off_t)(1ll << 53) - 2, (off_t)(1ll << 54) - 4}) {
    o.push_back({"lseek(a," + std::to_string(b) + ")", need(0), [b](W &w) { w.seek_(0, b); }});
    o.push_back({"pread(a,4,@" + std::to_string(b) + ")", need(0), [b](W &w) { w.pread_(0, 4, b, b & 1); }});
  }
  o.push_back({"mmap(4096,@4G)", need(0), [=](W &w) { w.mmap_(0, 4096, G4, MAP_PRIVATE, PROT_READ); }});
  o.push_back({"f=fopen(S)", opens(1), [](W &w) { w.fopen_(1, "S", "r", 0); }});
  o.push_back({"f=fopen64(T)", opens(1), [](W &w) { w.fopen_(1, "T", "r", 1); }});
  o.push_back({"fseeko(f,2^50-1)", need(1), [](W &w) { w.fseek_(1, (1ll << 50) - 1); }});
  o.push_back({"fclose(f)", closes(1), [](W &w) { w.fclose_(1); }});
  for (off_t b : {(off_t)0x80000000ll, 2 * G4 - 1})
    o.push_back({"fseeko(f," + std::to_string(b) + ")", need(1), [b](W &w) { w.fseek_(1, b); }});
  o.push_back({"fread(f,3,1500)", need(1), [](W &w) { w.fread_(1, 3, 1500, false); }});
  o.push_back({"fgetc(f)", need(1), [](W &w) { w.getc_(1, 0); }});
  return o;
}
// Many sources: attribution must survive every source number.
static void open_many(W &w, int n) {
  for (int i = 0; i < n; i++) {
    std::string nm = "m" + std::to_string(i);
    w.open_(2, "B", 0, O_RDONLY); // all but the last stay open
    if (i % 3 == 2)
      w.close_(2);
  }
}

// Two streams plus a descriptor, fewer kinds of call, for attribution.
static Ops mix_ops() {
  Ops o;
  o.push_back({"f=fopen(A)", opens(0), [](W &w) { w.fopen_(0, "A", "r", 0); }});
  o.push_back({"g=fopen(B)", opens(1), [](W &w) { w.fopen_(1, "B", "r", 1); }});
  o.push_back({"d=open(N)", opens(2), [](W &w) { w.open_(2, "N", 0, O_RDONLY); }});
  o.push_back({"d=untracked open(B)", opens(2), [](W &w) { w.open_(2, "B", 3, O_RDONLY); }});
  o.push_back({"fclose(f)", closes(0), [](W &w) { w.fclose_(0); }});
  o.push_back({"fclose(g)", closes(1), [](W &w) { w.fclose_(1); }});
  o.push_back({"close(d)", closes(2), [](W &w) { w.close_(2); }});
  o.push_back({"fgetc(f)", need(0), [](W &w) { w.getc_(0, 0); }});
  o.push_back({"fread(g,1,2)", need(1), [](W &w) { w.fread_(1, 1, 2, false); }});
  o.push_back({"read(d,2)", need(2), [](W &w) { w.read_(2, 2); }});
  o.push_back({"pread(d,2,@3)", need(2), [](W &w) { w.pread_(2, 2, 3, false); }});
  o.push_back({"fgets(f,5)", need(0), [](W &w) { w.fgets_(0, 5); }});
  return o;
}
static Ops map_ops() {
  Ops o;
  o.push_back({"a=open(BIG)", opens(0), [](W &w) { w.open_(0, "BIG", 0, O_RDONLY); }});
  o.push_back({"a=open(A,rw)", opens(0), [](W &w) { w.open_(0, "A", 0, O_RDWR); }});
  o.push_back({"a=untracked open(BIG)", opens(0), [](W &w) { w.open_(0, "BIG", 3, O_RDONLY); }});
  o.push_back({"close(a)", closes(0), [](W &w) { w.close_(0); }});
  o.push_back({"mmap(100)", any, [](W &w) { w.mmap_(0, 100, 0, MAP_PRIVATE, PROT_READ); }});
  o.push_back({"mmap(4096)", any, [](W &w) { w.mmap_(0, 4096, 0, MAP_SHARED, PROT_READ); }});
  o.push_back({"mmap(904,@4096)", any, [](W &w) { w.mmap_(0, 904, 4096, MAP_PRIVATE, PROT_READ); }});
  o.push_back({"mmap(8192)", any, [](W &w) { w.mmap_(0, 8192, 0, MAP_PRIVATE, PROT_READ); }});
  o.push_back({"mmap(anon,fd)", any, [](W &w) { w.mmap_(0, 64, 0, MAP_PRIVATE | MAP_ANONYMOUS, PROT_READ); }});
  o.push_back({"mmap(len 0)", any, [](W &w) { w.mmap_(0, 0, 0, MAP_PRIVATE, PROT_READ); }});
  o.push_back({"mmap(bad offset)", any, [](W &w) { w.mmap_(0, 10, 5, MAP_PRIVATE, PROT_READ); }});
  o.push_back({"munmap", need(0), [](W &w) { w.munmap_check(); }});
  o.push_back({"read(a,3)", need(0), [](W &w) { w.read_(0, 3); }});
  return o;
}

// ---- streams ---------------------------------------------------------------
static void open_fifo(W &w, int k, const char *name, bool as_file) {
  std::string wp = std::string("w/") + name, pp = std::string("p/") + name;
  w.feedw[k] = high(::open(wp.c_str(), O_RDWR | O_NONBLOCK));
  if (w.twin())
    w.feedp[k] = high(::open(pp.c_str(), O_RDWR | O_NONBLOCK));
  if (as_file) {
    // fopen cannot be non-blocking: there is always data or the case avoids it
    w.fopen_(k, name, "r", 0);
  } else
    w.open_(k, name, 0, O_RDONLY | O_NONBLOCK);
  w.s[k].stream = true;
}
static void setnb(FILE *f) {
  if (f)
    fcntl(fileno(f), F_SETFL, fcntl(fileno(f), F_GETFL) | O_NONBLOCK);
}
// A connected loopback TCP pair; the tracked side is made by connect or accept.
static void tcp(W &w, int k, int how) {
  for (int pass = 0; pass < (w.twin() ? 2 : 1); pass++) {
    sockaddr_in sa;
    int ls = listener(sa);
    ls = high(ls);
    int c = ::socket(AF_INET, SOCK_STREAM, 0);
    nolinger(c);
    int mine, other;
    if (how != 0)
      c = high(c);
    RL r;
    sockaddr_in peer{};
    socklen_t pl = sizeof peer;
    if (how == 0) {
      int rc;
      if (pass == 0) {
        rc = __dfsw_connect(c, (sockaddr *)&sa, sizeof sa, 0, 0, 0, &r);
        if (w.twin())
          r.zero("connect");
      } else
        rc = ::connect(c, (sockaddr *)&sa, sizeof sa);
      VH_CHECK(rc == 0, "connect returned %d", rc);
      mine = c;
      other = high(::accept(ls, nullptr, nullptr));
      pl = sizeof peer;
    } else {
      VH_CHECK(::connect(c, (sockaddr *)&sa, sizeof sa) == 0, "harness: connect");
      if (pass == 0) {
        mine = how == 1   ? __dfsw_accept(ls, (sockaddr *)&peer, &pl, 0, 0, 0, &r)
               : how == 2 ? __dfsw_accept4(ls, (sockaddr *)&peer, &pl, SOCK_NONBLOCK, 0, 0, 0, 0, &r)
               : how == 3 ? __dfsw_accept(ls, nullptr, nullptr, 0, 0, 0, &r)
                          : __dfsw_accept4(ls, nullptr, nullptr, SOCK_CLOEXEC, 0, 0, 0, 0, &r);
        if (w.twin()) {
          r.zero("accept");
          sockaddr_in cn{};
          socklen_t cl = sizeof cn;
          ::getsockname(c, (sockaddr *)&cn, &cl);
          VH_CHECK(how > 2 || (peer.sin_port == cn.sin_port && pl == sizeof peer), "accept reported the wrong peer");
          VH_CHECK(!!(fcntl(mine, F_GETFD) & FD_CLOEXEC) == (how == 4), "accept: close-on-exec differs");
          VH_CHECK(!!(fcntl(mine, F_GETFL) & O_NONBLOCK) == (how == 2), "accept: non-blocking flag differs");
        }
      } else
        mine = ::accept(ls, nullptr, nullptr);
      VH_CHECK(mine >= 0, "accept failed with errno %d", errno);
      other = c;
    }
    if (pass == 0) {
      sockaddr_in l{}, m{};
      socklen_t n = sizeof l;
      ::getsockname(mine, (sockaddr *)&l, &n);
      n = sizeof m;
      ::getpeername(mine, (sockaddr *)&m, &n);
      char a[64], b[64];
      inet_ntop(AF_INET, &l.sin_addr, a, sizeof a);
      inet_ntop(AF_INET, &m.sin_addr, b, sizeof b);
      w.s[k].path = "socket:" + std::string(a) + ":" + std::to_string(ntohs(l.sin_port)) + "-" + b + ":" +
                    std::to_string(ntohs(m.sin_port));
      w.s[k].w = mine;
      w.s[k].tracked = true;
      w.s[k].stream = true;
      w.feedw[k] = other;
    } else {
      w.s[k].p = mine = high(mine);
      w.feedp[k] = other;
    }
    ::close(ls);
    nolinger(mine);
    nolinger(other);
    fcntl(mine, F_SETFD, 0); // the flags asked for were compared above
    fcntl(mine, F_SETFL, fcntl(mine, F_GETFL) | O_NONBLOCK);
  }
  if (w.twin())
    fcntl(w.s[k].p, F_SETFL, fcntl(w.s[k].p, F_GETFL) | O_NONBLOCK);
}
static void recv_(W &w, int k, size_t n, int how, int flags) {
  Slot &x = w.s[k];
  Buf b(n + 2), c(n + 2);
  RL r;
  errno = 0;
  // how: 0 recv; recvfrom with 1 address, 2 none, 3 a short address, 4 a length only
  struct Peer {
    char a[32];
    socklen_t n;
  } sa, sb;
  memset(&sa, 0x5a, sizeof sa);
  sa.n = how == 3 ? 3 : 16;
  sb = sa;
  auto addr = [&](Peer &z) { return how == 1 || how == 3 ? (sockaddr *)z.a : nullptr; };
  auto alen = [&](Peer &z) { return how == 2 ? nullptr : &z.n; };
  flags |= MSG_DONTWAIT;
  ssize_t a = how ? __dfsw_recvfrom(x.w, b.p(), n, flags, addr(sa), alen(sa), 0, 0, 0, 0, 0, 0, &r)
                  : __dfsw_recv(x.w, b.p(), n, flags, 0, 0, 0, 0, &r);
  int ea = errno;
  const char *what = how ? "recvfrom" : "recv";
  if (w.twin()) {
    errno = 0;
    ssize_t q = how ? ::recvfrom(x.p, c.p(), n, flags, addr(sb), alen(sb)) : ::recv(x.p, c.p(), n, flags);
    int eq = errno;
    w.cmp(what, a, ea, q, eq);
    VH_CHECK(sa.n == sb.n, "%s: address length %u, plain %u", what, sa.n, sb.n);
    for (size_t i = 0; i < sizeof sa.a; i++) // the port differs between the two connections
      VH_CHECK(i == 2 || i == 3 || sa.a[i] == sb.a[i], "%s: byte %zu of the address is 0x%02x, plain 0x%02x", what, i, sa.a[i], sb.a[i]);
    w.cmp_buf(what, b.v.data(), c.v.data(), b.v.size());
    r.zero(what);
  }
  w.delivered(what, x, b, a, -1, 0);
}
static void send_(W &w, int k, size_t n, bool wr) {
  Slot &x = w.s[k];
  char m[8] = "outputs";
  dfsan_set_label(0, m, 8);
  RL r;
  errno = 0;
  ssize_t a = wr ? __dfsw_write(x.w, m, n, 0, 0, 0, &r) : __dfsw_send(x.w, m, n, MSG_DONTWAIT, 0, 0, 0, 0, &r);
  int ea = errno;
  if (w.twin()) {
    errno = 0;
    ssize_t q = wr ? ::write(x.p, m, n) : ::send(x.p, m, n, MSG_DONTWAIT);
    int eq = errno;
    w.cmp(wr ? "write" : "send", a, ea, q, eq);
    r.zero(wr ? "write" : "send");
  }
}
static Ops stream_ops() {
  Ops o;
  auto pre = [](Abs &a) { return true; };
  o.push_back({"feed(s,1)", pre, [](W &w) { w.feed(0, 1); }});
  o.push_back({"feed(s,6)", pre, [](W &w) { w.feed(0, 6); }});
  o.push_back({"feed(t,4)", pre, [](W &w) { w.feed(1, 4); }});
  o.push_back({"read(s,1)", pre, [](W &w) { w.read_(0, 1); }});
  o.push_back({"read(s,4)", pre, [](W &w) { w.read_(0, 4); }});
  o.push_back({"read(s,0)", pre, [](W &w) { w.read_(0, 0); }});
  o.push_back({"read(t,3)", pre, [](W &w) { w.read_(1, 3); }});
  return o;
}
static Ops socket_ops() {
  Ops o = stream_ops();
  o.push_back({"recv(s,2)", any, [](W &w) { recv_(w, 0, 2, 0, 0); }});
  o.push_back({"recvfrom(s,3)", any, [](W &w) { recv_(w, 0, 3, 1, 0); }});
  o.push_back({"recvfrom(s,2,no address)", any, [](W &w) { recv_(w, 0, 2, 2, 0); }});
  o.push_back({"recvfrom(s,1,short address)", any, [](W &w) { recv_(w, 0, 1, 3, 0); }});
  o.push_back({"recvfrom(s,1,length only)", any, [](W &w) { recv_(w, 0, 1, 4, 0); }});
  o.push_back({"send(s,3)", any, [](W &w) { send_(w, 0, 3, false); }});
  o.push_back({"write(s,2)", any, [](W &w) { send_(w, 0, 2, true); }});
  o.push_back({"recvfrom(t,2)", any, [](W &w) { recv_(w, 1, 2, 1, 0); }});
  return o;
}
static Ops fstream_ops() {
  Ops o;
  o.push_back({"feed(s,1)", any, [](W &w) { w.feed(0, 1); }});
  o.push_back({"feed(s,6)", any, [](W &w) { w.feed(0, 6); }});
  o.push_back({"feed(t,4)", any, [](W &w) { w.feed(1, 4); }});
  o.push_back({"fgetc(s)", any, [](W &w) { w.getc_(0, 0); }});
  o.push_back({"getc_unlocked(s)", any, [](W &w) { w.getc_(0, 4); }});
  o.push_back({"fread(s,1,3)", any, [](W &w) { w.fread_(0, 1, 3, false); }});
  o.push_back({"fread_unlocked(s,2,2)", any, [](W &w) { w.fread_(0, 2, 2, true); }});
  o.push_back({"fgets(s,4)", any, [](W &w) { w.fgets_(0, 4); }});
  o.push_back({"getdelim(s)", any, [](W &w) { w.getdelim_(0, '\n', false); }});
  o.push_back({"read(t,2)", any, [](W &w) { w.read_(1, 2); }});
  return o;
}
static Ops stdin_ops() {
  Ops o;
  o.push_back({"feed(1)", any, [](W &w) { w.feed(0, 1); }});
  o.push_back({"feed(6)", any, [](W &w) { w.feed(0, 6); }});
  o.push_back({"getchar", any, [](W &w) { w.getc_(0, 5); }});
  o.push_back({"getchar_unlocked", any, [](W &w) { w.getc_(0, 6); }});
  o.push_back({"getc(stdin)", any, [](W &w) { w.getc_(0, 3); }});
  o.push_back({"fread(stdin,1,3)", any, [](W &w) { w.fread_(0, 1, 3, false); }});
  o.push_back({"fgets(stdin,4)", any, [](W &w) { w.fgets_(0, 4); }});
  o.push_back({"read(0,2)", any, [](W &w) { w.s[0].w = 0; FILE *f = w.s[0].wf; w.s[0].wf = nullptr; w.read_(0, 2); w.s[0].wf = f; }});
  return o;
}

// The source-label index must flag exactly the input-byte labels.
static void check_index(Tdag &t) {
  size_t n = t.nlabels();
  for (size_t l = 0; l < n; l++)
    VH_CHECK(t.bit(l) == (t.raw(l) >> 63), "label %zu is %san input byte but the index says otherwise", l,
             (t.raw(l) >> 63) ? "" : "not ");
  for (size_t l = n; l < n + 256; l++)
    VH_CHECK(!t.bit(l), "the index flags label %zu, which does not exist", l);
  size_t last = 0;
  for (size_t l = 0; l < n; l++)
    if (t.bit(l))
      last = l;
  size_t sz = t.sec(5).size;
  VH_CHECK(!last || sz * 8 > last, "the index is %zu bytes, too small for label %zu", sz, last);
  VH_CHECK(sz % 8 == 0 && sz <= (1ull << 28), "the index size %zu is not within its storage", sz);
}

struct Def {
  const char *name;
  Ops ops;
  std::function<void(W &)> setup; // after the runtime has started
  std::function<void()> before;   // before it
  int quick, thorough;
  const char *what;
};
static int g_stdin_w = -1;

static std::vector<Def> defs() {
  std::vector<Def> d;
  d.push_back({"fd", fd_ops(), {}, {}, 5, 6, "descriptor opens, seeks, reads, positioned reads and closes"});
  d.push_back({"fd0", fd_ops(), [](W &) { ::close(0); }, {}, 3, 4, "the same in a program that closed its standard input, so that a file gets descriptor 0"});
  d.push_back({"file", file_ops("A"), {}, {}, 4, 5, "stream opens, block, character and line reads, seeks, push-backs"});
  d.push_back({"filen", file_ops("N"), {}, {}, 4, 5, "the same on a file with NUL bytes"});
  d.push_back({"fileh", file_ops("H"), {}, {}, 4, 5, "the same on a file with bytes above 127"});
  d.push_back({"filee", file_ops("E"), {}, {}, 3, 4, "the same on an empty file"});
  d.push_back({"huge", huge_ops(), {}, {}, 4, 5, "transfers of several thousand bytes and offsets around 2^31, 2^32 and 3*2^32"});
  d.push_back({"mix", mix_ops(), {}, {}, 6, 7, "two streams and a descriptor, opened and closed in any order"});
  d.push_back({"map", map_ops(), {}, {}, 4, 5, "memory maps of files, partial pages, anonymous and failing maps"});
  auto fifo2 = [](W &w) { open_fifo(w, 0, "F1", false); open_fifo(w, 1, "F2", false); };
  auto ff = [](W &w) {
    open_fifo(w, 0, "F1", true);
    open_fifo(w, 1, "F2", false);
    setnb(w.s[0].wf);
    setnb(w.s[0].pf);
  };
  d.push_back({"fifo", stream_ops(), fifo2, {}, 5, 7, "two named pipes fed and read in any order"});
  d.push_back({"ffifo", fstream_ops(), ff, {}, 4, 5, "a buffered stream on a named pipe next to a descriptor"});
  for (int how = 0; how < 5; how++) {
    static const char *nm[] = {"conn", "acc", "acc4", "accn", "acc4n"};
    d.push_back({nm[how], socket_ops(), [how](W &w) { tcp(w, 0, how); open_fifo(w, 1, "F2", false); w.s[1].tracked = true; if (1) { /* recvfrom(t) fails: not a socket */ } }, {}, how == 1 ? 4 : how > 2 ? 2 : 3,
                 how == 1 ? 5 : how > 2 ? 3 : 4, "a loopback TCP connection fed and received in any order"});
  }
  d.push_back({"stdin", stdin_ops(),
               [](W &w) {
                 w.s[0].wf = stdin;
                 w.s[0].w = 0;
                 w.s[0].path = "/dev/stdin";
                 w.s[0].tracked = true;
                 w.s[0].stream = true;
                 w.feedw[0] = g_stdin_w;
                 if (w.twin()) {
                   int p[2];
                   (void)!pipe2(p, O_NONBLOCK);
                   w.s[0].p = high(p[0]);
                   w.s[0].pf = fdopen(w.s[0].p, "r");
                   w.feedp[0] = high(p[1]);
                 }
               },
               [] {
                 int p[2];
                 (void)!pipe2(p, O_NONBLOCK);
                 dup2(p[0], 0);
                 ::close(p[0]);
                 g_stdin_w = high(p[1]);
                 setenv("POLYTRACKER_STDIN_SOURCE", "1", 1);
               },
               4, 5, "standard input as a tracked pipe"});
  return d;
}

int main(int argc, char **argv) {
  std::vector<vh::Suite> suites;
  static auto ds = defs();
  for (auto &d : ds) {
    struct M { const char *pre; Mode m; };
    bool stream = d.setup != nullptr && std::string(d.name) != "fd0";
    for (M m : {M{stream ? "c15_" : "c14_", LABELS}, M{"c17r_", BEHAVE}, M{"c05h_", INDEX}}) {
      vh::Suite s;
      s.name = std::string(m.pre) + d.name;
      s.rule = std::string("all sequences of ") + d.what;
      s.fork_each = true;
      Def *dp = &d;
      Mode mm = m.m;
      s.gen = [dp, mm](const Visit &v) {
        fixtures();
        int depth = vh::g_thorough ? dp->thorough : dp->quick;
        if (mm == INDEX)
          depth = std::min(depth, vh::g_thorough ? 4 : 3);
        enumerate<W>(dp->ops, depth, v);
      };
      s.run = [dp, mm](const Case &c) {
        fixtures();
        g_mode = mm;
        if (dp->before)
          dp->before();
        start_runtime();
        W w;
        if (dp->setup)
          dp->setup(w);
        std::vector<lab> ls;
        for (int i : c) {
          if (mm == INDEX) { // interleave combinations between the reads
            Slot &x = w.s[0];
            int fd = x.wf ? fileno(x.wf) : x.w;
            char b[2];
            RL r;
            if (fd >= 0 && !x.stream && __dfsw_pread(fd, b, 2, 0, 0, 0, 0, 0, &r) == 2) {
              lab l0 = dfsan_read_label(b, 1), l1 = dfsan_read_label(b + 1, 1);
              if (l0 && l1 && l0 != PRE && l1 != PRE) {
                ls.push_back(__dfsan_union(l0, l1));
                ls.push_back(__dfsan_union(ls[0], l0));
              }
            }
          }
          dp->ops[i].run(w);
          vh::st().transitions++;
        }
        w.live.reset();
        end_case(mm == INDEX ? check_index : std::function<void(Tdag &)>{});
      };
      s.describe = [dp](const Case &c) { return describe_ops(dp->ops, c); };
      suites.push_back(s);
    }
  }
  for (Mode mm : {LABELS, BEHAVE}) {
    vh::Suite s;
    s.name = mm == LABELS ? "c14_many" : "c17r_many";
    s.rule = "every number of earlier sources from 0 to 252, then every kind of read on two more";
    s.fork_each = true;
    s.gen = [](const Visit &v) {
      fixtures();
      for (int n = 0; n <= 252; n++)
        v({n});
    };
    s.run = [mm](const Case &c) {
      fixtures();
      g_mode = mm;
      start_runtime();
      W w;
      open_many(w, c[0]);
      w.open_(0, "A", 0, O_RDONLY);
      w.fopen_(1, "B", "r", 0);
      w.read_(0, 3);
      w.getc_(1, 0);
      w.pread_(0, 2, 5, false);
      w.fgets_(1, 3);
      w.close_(0);
      w.open_(0, "N", 0, O_RDONLY);
      w.read_(0, 4);
      w.live.reset();
      end_case();
    };
    suites.push_back(s);
  }
  // Every size of transfer: one call of each kind on a file of its own that
  // holds every byte value.
  static const char *skinds[] = {"read", "pread", "fread(1,n)", "fread_unlocked(n,1)", "fgets(n+1)", "fgets(longer)",
                                 "getdelim", "__getdelim(NUL)", "mmap", "read from a pipe", "fgetc"};
  for (Mode mm : {LABELS, BEHAVE, INDEX}) {
    vh::Suite s;
    s.name = mm == LABELS ? "c14_size" : mm == BEHAVE ? "c17r_size" : "c05h_size";
    s.rule = "one transfer of every kind and of every size up to 600 (thorough 1500) and around every power of two up to 2^22";
    s.fork_each = true;
    s.gen = [](const Visit &v) {
      fixtures();
      std::set<int> n;
      for (int i = 1; i <= (vh::g_thorough ? 1500 : 600); i++)
        n.insert(i);
      for (int k = 9; k <= 22; k++)
        for (int d = -1; d <= (vh::g_thorough ? 2 : 1); d++)
          n.insert((1 << k) + d);
      n.insert(3000000);
      for (int i : n)
        for (int k = 0; k < 11; k++)
          if ((k != 9 || i <= 60000) && (k != 10 || i == 4096))
            v({k, i});
    };
    s.run = [mm](const Case &c) {
      fixtures();
      g_mode = mm;
      int k = c[0], n = c[1];
      int delim = k == 7 ? 0 : '\n';
      bool line = k >= 4 && k <= 7;
      std::string content;
      content.reserve(n + 16);
      for (int i = 0; i < n; i++) {
        char ch = (char)(i + i / 256);
        if (line && ch == (char)delim)
          ch = '\r';
        content += ch;
      }
      if (line && k != 4)
        content[n - 1] = (char)delim;
      content += "tail";
      for (const char *t : {"w/", "p/"})
        put(std::string(t) + "L", content);
      start_runtime();
      W w;
      if (k <= 1 || k == 8)
        w.open_(0, "L", n & 1, O_RDONLY);
      else if (k != 9)
        w.fopen_(0, "L", "r", n & 1);
      switch (k) {
      case 0: w.read_(0, n); w.read_(0, 2); break;
      case 1: w.pread_(0, n, 3, n & 1); break;
      case 2: w.fread_(0, 1, n, false); w.getc_(0, 0); break;
      case 3: w.fread_(0, n, 1, true); w.fread_(0, 1, 2, false); break;
      case 4: w.fgets_(0, n + 1); w.getc_(0, 0); break;
      case 5: w.fgets_(0, n + 9); w.getc_(0, 0); break;
      case 6: case 7: w.getdelim_(0, delim, k == 7); w.getc_(0, 0); break;
      case 8: w.mmap_(0, n, 0, n & 1 ? MAP_PRIVATE : MAP_SHARED, PROT_READ); w.mmap_(0, n + 4096, 0, MAP_PRIVATE, PROT_READ); break;
      case 9: {
        open_fifo(w, 0, "F1", false);
        for (int fd : {w.feedw[0], w.feedp[0]})
          if (fd >= 0)
            VH_CHECK(::write(fd, content.data(), content.size()) == (ssize_t)content.size(), "harness: feed");
        w.read_(0, n);
        w.read_(0, 3);
        break;
      }
      case 10:
        for (int i = 0; i < n; i++)
          w.getc_(0, i % 5);
      }
      w.live.reset();
      end_case(mm == INDEX ? check_index : std::function<void(Tdag &)>{});
    };
    s.describe = [](const Case &c) { return std::string(skinds[c[0]]) + " of " + std::to_string(c[1]) + " bytes"; };
    suites.push_back(s);
  }
  // Elements of every size: full, short and empty block reads.
  for (Mode mm : {LABELS, BEHAVE}) {
    vh::Suite s;
    s.name = mm == LABELS ? "c14_elem" : "c17r_elem";
    s.rule = "block reads of 1 to 40 elements of 1 to 5000 bytes from files that hold more, exactly as many or fewer";
    s.fork_each = true;
    s.gen = [](const Visit &v) {
      fixtures();
      for (int sz : {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 31, 32, 33, 64, 100, 255, 256, 257, 1000, 4095, 4096, 4097, 5000})
        for (int cnt : {1, 2, 3, 4, 5, 8, 17, 40})
          for (int have : {0, 1, cnt - 1, cnt, cnt + 1, 2 * cnt})
            for (int ex = -1; ex <= 1; ex++)
              if (have >= 0 && have * sz + ex >= 0)
                v({sz, cnt, have * sz + ex});
    };
    s.run = [mm](const Case &c) {
      fixtures();
      g_mode = mm;
      std::string content;
      for (int i = 0; i < c[2]; i++)
        content += (char)(i % 251 == 238 ? 1 : i % 251);
      for (const char *t : {"w/", "p/"})
        put(std::string(t) + "L", content);
      start_runtime();
      W w;
      w.fopen_(0, "L", "r", c[1] & 1);
      w.fread_(0, c[0], c[1], c[2] & 1);
      w.fread_(0, c[0], c[1], !(c[2] & 1));
      w.fread_(0, 1, 3, false);
      w.live.reset();
      vh::st().transitions += 3;
      end_case();
    };
    s.describe = [](const Case &c) { return std::to_string(c[1]) + " elements of " + std::to_string(c[0]) + " bytes from a file of " + std::to_string(c[2]); };
    suites.push_back(s);
  }
  // As many streams as there can be sources, each with offsets of its own.
  for (Mode mm : {LABELS, BEHAVE, INDEX}) {
    vh::Suite s;
    s.name = mm == LABELS ? "c15_many" : mm == BEHAVE ? "c17r_manys" : "c05h_manys";
    s.rule = "every number of simultaneously open pipes (every fourth source a file) up to the largest, each read three times in turn, in both directions";
    s.fork_each = true;
    s.gen = [](const Visit &v) {
      fixtures();
      for (int n = 1; n <= 255; n++)
        for (int d = 0; d < 2; d++)
          v({n, d});
    };
    s.run = [mm](const Case &c) {
      fixtures();
      g_mode = mm;
      rlimit rl;
      getrlimit(RLIMIT_NOFILE, &rl);
      rl.rlim_cur = rl.rlim_max;
      setrlimit(RLIMIT_NOFILE, &rl);
      int n = c[0];
      for (int i = 0; i < n; i++)
        for (const char *t : {"w/", "p/"})
          if (i % 4 != 3)
            mkfifo((std::string(t) + "M" + std::to_string(i)).c_str(), 0644);
      start_runtime();
      W w;
      std::vector<Slot> all;
      for (int i = 0; i < n; i++) {
        if (i % 4 == 3)
          w.open_(0, "A", 0, O_RDONLY);
        else
          w.open_(0, ("M" + std::to_string(i)).c_str(), i & 1, O_RDWR | O_NONBLOCK);
        VH_CHECK(w.s[0].w >= 0, "open number %d failed with errno %d", i, errno);
        all.push_back(w.s[0]);
      }
      for (int round = 0; round < 3; round++)
        for (int j = 0; j < n; j++) {
          int i = (round & 1) != c[1] ? n - 1 - j : j;
          w.s[0] = all[i];
          if (i % 4 != 3)
            for (int fd : {all[i].w, all[i].p})
              if (fd >= 0)
                VH_CHECK(::write(fd, "0123456", 1 + i % 7) == 1 + i % 7, "harness: feed");
          w.read_(0, i % 4 == 3 ? 2 : 7);
          all[i] = w.s[0];
          vh::st().transitions++;
        }
      w.live.reset();
      end_case(mm == INDEX ? check_index : std::function<void(Tdag &)>{});
    };
    suites.push_back(s);
  }
  return vh::main_(argc, argv, suites);
}
