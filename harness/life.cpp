// C13 (ends of a run), C18 (settings) and C12 (full tables) on the whole
// runtime: every case is a process of its own that is started, records and
// ends; the trace it leaves is read with an independent reader.
#include "io.h"
#include <pthread.h>
#include <sys/un.h>

// ------------------------------------------------------------ shared outcome
struct Rec {
  int nlab;             // labels created (label i at [i])
  uint64_t bytes[4096]; // input bytes (bit = offset) behind each label
  bool marked[4096];
  int nsrc;
  char src[300][24];
  int fd[300];
  int nsink;
  struct {
    uint64_t off;
    lab l;
    int src;
  } sink[256];
  int nfn;
  char fn[64][16];
  int nev;
  int ev[256][2];
  int ncf;
  uint32_t cf[256][3];
  int done; // operations completed
};
static Rec *R; // shared with the child

static int add_src(const char *n, int fd) {
  int i = R->nsrc++;
  snprintf(R->src[i], sizeof R->src[i], "%s", n);
  R->fd[i] = fd;
  return i;
}
static void mark_down(lab l, Tdag &t) {
  std::vector<lab> q{l};
  while (!q.empty()) {
    lab x = q.back();
    q.pop_back();
    if (!x || R->marked[x])
      continue;
    R->marked[x] = true;
    uint64_t v = t.raw(x);
    if (v >> 63)
      continue;
    lab a = (v >> 31) & 0x7fffffff, b = v & 0x7fffffff;
    if (a < b)
      for (lab y = a; y <= b; y++)
        q.push_back(y);
    else {
      q.push_back(a);
      q.push_back(b);
    }
  }
}

// ------------------------------------------------------------ operations
static int c_in = -1, c_out = -1, c_osrc = -1;
static FILE *c_f = nullptr;
static uint64_t c_pos = 0, c_outpos = 0;
static uint8_t c_buf[64];
static const char *OPN[] = {"read2", "fread", "union", "branch", "write", "fentry", "fexit", "enter", "tcf", "leave"};
enum { READ, FREAD, UNION, BRANCH, WRITE, FENTRY, FEXIT, ENTER, TCF, LEAVE, NOP };

static void new_labels(uint8_t *p, int n, uint64_t off, const char *w) {
  for (int i = 0; i < n; i++) {
    lab l = dfsan_read_label(p + i, 1);
    VH_CHECK((int)l == R->nlab, "harness: %s byte %d has label %u", w, i, l);
    R->bytes[R->nlab++] = 1ull << (off + i);
  }
}
static void op(int o) {
  RL r;
  lab va[1] = {0};
  switch (o) {
  case READ:
    if (c_in < 0) {
      c_in = __dfsw_open("w/A", O_RDONLY, 0, 0, va, &r);
      add_src("w/A", c_in);
    }
    if (int n = __dfsw_read(c_in, c_buf, 2, 0, 0, 0, &r); n > 0) {
      new_labels(c_buf, n, c_pos, "read");
      c_pos += n;
    }
    break;
  case FREAD:
    if (!c_f) {
      c_f = __dfsw_fopen("w/B", "r", 0, 0, &r);
      add_src("w/B", fileno(c_f));
    }
    {
      uint64_t at = ftello(c_f);
      if (__dfsw_fread(c_buf + 4, 1, 1, c_f, 0, 0, 0, 0, &r) == 1)
        new_labels(c_buf + 4, 1, 32 + at, "fread");
    }
    break;
  case UNION:
    if (R->nlab > 2) {
      lab a = R->nlab - 1, b = 1;
      lab u = __dfsan_union(a, b);
      uint64_t want = R->bytes[a] | R->bytes[b];
      if ((int)u == R->nlab)
        R->bytes[R->nlab++] = want;
      c_buf[8] = 'u';
      dfsan_set_label(u, c_buf + 8, 1);
    }
    break;
  case BRANCH:
    if (R->nlab > 1) {
      lab l = R->nlab - 1;
      __polytracker_log_conditional_branch(l);
      Live v;
      mark_down(l, v.t);
    }
    break;
  case WRITE:
    if (c_out < 0) {
      c_out = __dfsw_open("w/O", O_WRONLY | O_CREAT | O_TRUNC, 0, 0, va, &r, 0644);
      c_osrc = add_src("w/O", c_out);
    }
    {
      lab l[10];
      for (int i = 0; i < 10; i++)
        l[i] = dfsan_read_label(c_buf + i, 1);
      if (__dfsw_write(c_out, c_buf, 10, 0, 0, 0, &r) == 10) {
        for (int i = 0; i < 10; i++)
          if (l[i]) {
            auto &s = R->sink[R->nsink++];
            s.off = c_outpos + i;
            s.l = l[i];
            s.src = c_osrc;
          }
        c_outpos += 10;
      }
    }
    break;
  case FENTRY: {
    char n[16];
    snprintf(n, sizeof n, "fn%d", R->nev % 2);
    int i = __polytracker_log_func_entry(n, strlen(n));
    if (i == R->nfn)
      strcpy(R->fn[R->nfn++], n);
    R->ev[R->nev][0] = 0;
    R->ev[R->nev++][1] = i;
    break;
  }
  case FEXIT:
    if (R->nfn) {
      __polytracker_log_func_exit(R->nfn - 1);
      R->ev[R->nev][0] = 1;
      R->ev[R->nev++][1] = R->nfn - 1;
    }
    break;
  case ENTER:
  case LEAVE:
    if (o == ENTER)
      __polytracker_enter_function(400);
    else
      __polytracker_leave_function(400);
    R->cf[R->ncf][0] = o == ENTER ? 0 : 1;
    R->cf[R->ncf][1] = 400;
    R->cf[R->ncf++][2] = 0;
    break;
  case TCF:
    if (R->nlab > 1) {
      uint64_t v = __dfsw___polytracker_log_tainted_control_flow(1, 400, R->nlab - 1, 0, &r);
      R->cf[R->ncf][0] = 2;
      R->cf[R->ncf][1] = 400;
      R->cf[R->ncf++][2] = R->nlab - 1;
    }
    break;
  }
  R->done++;
}

// ------------------------------------------------------------ reading back
static uint64_t bits(Tdag &t, lab l) {
  uint64_t r = 0;
  for (auto &[i, o] : t.expand(l)) {
    std::string n = t.src(i).name;
    VH_CHECK(n == "w/A" || n == "w/B", "label %u is attributed to source %s", l, n.c_str());
    r |= 1ull << (o + (n == "w/B" ? 32 : 0));
  }
  return r;
}
// sizes: the run ended in an orderly way, so every section declares its size
static void compare(Tdag &t, bool sizes) {
  VH_CHECK(t.count == 8 && t.magic == ((1 + 2 + 3 + 4 + 5 + 6 + 7 + 8) ^ 8), "the trace header is incomplete");
  for (uint32_t g = 1; g <= 8; g++) {
    auto &s = t.sec(g);
    VH_CHECK(s.off >= 8 + 24 * 8 && s.off < t.len && s.off % s.align == 0, "section %u has no place in the file", g);
    VH_CHECK(s.size <= t.len - s.off, "section %u reaches beyond the file", g);
  }
  if (sizes) {
    VH_CHECK((int)t.nsrc() == R->nsrc, "%zu sources in the trace, %d recorded", t.nsrc(), R->nsrc);
    VH_CHECK((int)t.nlabels() == R->nlab, "%zu labels in the trace, %d recorded", t.nlabels(), R->nlab);
    VH_CHECK((int)t.nsink() == R->nsink, "%zu output records in the trace, %d recorded", t.nsink(), R->nsink);
    VH_CHECK((int)t.nfn() == R->nfn, "%zu functions in the trace, %d recorded", t.nfn(), R->nfn);
    VH_CHECK((int)t.nev() == R->nev, "%zu function events in the trace, %d recorded", t.nev(), R->nev);
    auto c = t.cflog();
    VH_CHECK((int)c.size() == R->ncf, "%zu control-flow events in the trace, %d recorded", c.size(), R->ncf);
    VH_CHECK(t.sec(3).size > 0 || (!R->nsrc && !R->nfn), "the names are missing");
    VH_CHECK(t.sec(5).size * 8 >= (uint64_t)(R->nlab > 1 ? 2 : 0), "the input index is missing");
  }
  for (int i = 0; i < R->nsrc; i++)
    VH_CHECK(t.src(i).name == R->src[i] && t.src(i).fd == R->fd[i], "source %d is %s (fd %d), recorded %s (fd %d)", i,
             t.src(i).name.c_str(), t.src(i).fd, R->src[i], R->fd[i]);
  for (int l = 1; l < R->nlab; l++) {
    VH_CHECK(bits(t, l) == R->bytes[l], "label %d denotes other bytes than recorded", l);
    VH_CHECK(t.cf(l) == R->marked[l], "mark of label %d is %d, recorded %d", l, t.cf(l), R->marked[l]);
    VH_CHECK(t.bit(l) == t.is_src(l), "input index is wrong for label %d", l);
  }
  for (uint64_t l = R->nlab; sizes && l < t.sec(5).size * 8; l++)
    VH_CHECK(!t.bit(l), "the input index flags label %lu, which does not exist", (long)l);
  for (int i = 0; i < R->nsink; i++) {
    auto s = t.sink(i);
    VH_CHECK(s.off == R->sink[i].off && s.label == R->sink[i].l && (int)s.idx == R->sink[i].src,
             "output record %d is wrong", i);
  }
  for (int i = 0; i < R->nfn; i++)
    VH_CHECK(t.fn(i) == R->fn[i], "function %d is wrong", i);
  for (int i = 0; i < R->nev; i++)
    VH_CHECK(t.ev(i) == std::make_pair(R->ev[i][0], (unsigned)R->ev[i][1]), "function event %d is wrong", i);
  // the control-flow log, without relying on its declared size
  const uint8_t *p = t.m + t.sec(8).off;
  auto var = [&]() {
    uint32_t v = 0;
    for (int sh = 0;; sh += 7) {
      uint8_t b = *p++;
      v |= (uint32_t)(b & 0x7f) << sh;
      if (!(b & 0x80))
        return v;
    }
  };
  for (int i = 0; i < R->ncf; i++) {
    uint32_t k = *p++, f = var(), l = k == 2 ? var() : 0;
    VH_CHECK(k == R->cf[i][0] && f == R->cf[i][1] && l == R->cf[i][2], "control-flow event %d is wrong", i);
  }
}

// ------------------------------------------------------------ running a child
static std::string g_out;   // what the child printed
static std::string childmsg;
static int in_child(std::function<void()> f) {
  if (!R)
    R = (Rec *)mmap(nullptr, sizeof(Rec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(R, 0, sizeof *R);
  R->nlab = 1;
  std::string cap = g_dir + "/cap";
  fflush(stdout);
  fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    int fd = ::open(cap.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0644);
    dup2(fd, 1);
    dup2(fd, 2);
    ::close(fd);
    struct rlimit z {0, 0};
    setrlimit(RLIMIT_CORE, &z);
    try {
      f();
    } catch (vh::Fail &x) {
      FILE *e = fopen((g_dir + "/msg").c_str(), "w");
      fputs(x.msg.c_str(), e);
      fclose(e);
      _exit(99);
    }
    _exit(98);
  }
  int st = 0;
  double t0 = vh::now();
  while (waitpid(p, &st, WNOHANG) != p) {
    if (vh::now() - t0 > 20) {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      vh::fail("the program never ended");
    }
    usleep(100);
  }
  g_out = slurp(cap);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 99)
    vh::fail("%s", slurp(g_dir + "/msg").c_str());
  return st;
}

// ------------------------------------------------------------ C13
static const char *WAYN[] = {"exit", "tracked exit(3)", "failed assertion", "exit with a handler that records",
                             "exit on another thread", "exit with standard output closed", "exit, over an earlier trace",
                             "_exit", "SIGKILL", "SIGSEGV", "abort", "SIGKILL, over an earlier trace"};
enum { W_EXIT, W_DEXIT, W_ASSERT, W_HANDLER, W_THREAD, W_CLOSED, W_OVER, W_UEXIT, W_KILL, W_SEGV, W_ABORT, W_OVERKILL, NWAY };

// An earlier trace with much in every section lies at the path.
static void earlier(const std::string &path) {
  static std::vector<uint64_t> at;
  static uint64_t len;
  if (at.empty()) {
    in_child([&] {
      setenv("POLYDB", path.c_str(), 1);
      __taint_start();
      exit(0);
    });
    Tdag t;
    std::string e = t.open(path);
    VH_CHECK(e.empty(), "%s", e.c_str());
    for (uint32_t g = 1; g <= 8; g++)
      at.push_back(t.sec(g).off);
    len = t.len;
  }
  unlink(path.c_str());
  int fd = ::open(path.c_str(), O_CREAT | O_WRONLY, 0644);
  std::string junk(600, '\xff');
  pwrite(fd, "TDAG", 4, 0);
  for (uint64_t o : at)
    pwrite(fd, junk.data(), std::min<uint64_t>(junk.size(), len - o), o);
  ftruncate(fd, len + 100);
  ::close(fd);
}

static void handler_records() {
  try {
    op(READ);
    op(WRITE);
    op(FENTRY);
  } catch (vh::Fail &x) {
    _exit(97);
  }
}
static void term_child(const Case &c) {
  g_io.db = g_dir + "/t.tdag";
  setenv("POLYDB", g_io.db.c_str(), 1);
  for (auto e : {"POLYTRACKER_STDOUT_SINK", "POLYTRACKER_STDERR_SINK", "POLYTRACKER_STDIN_SOURCE", "POLYTRACKER_TAINT_ARGV"})
    unsetenv(e);
  __taint_start();
  for (size_t i = 1; i < c.size(); i++)
    op(c[i]);
  switch (c[0]) {
  case W_EXIT:
  case W_OVER:
    exit(0);
  case W_DEXIT:
    __dfsw_exit(3, 0);
  case W_ASSERT:
    __dfsw___assert_fail("x", "file.c", 7, "main", 0, 0, 0, 0);
  case W_HANDLER:
    atexit(handler_records);
    __dfsw_exit(3, 0);
  case W_THREAD: {
    pthread_t th;
    pthread_create(&th, nullptr, [](void *) -> void * { __dfsw_exit(3, 0); return nullptr; }, nullptr);
    while (true)
      pause();
  }
  case W_CLOSED:
    ::close(1);
    ::close(0);
    __dfsw_exit(3, 0);
  case W_UEXIT:
    _exit(0);
  case W_KILL:
  case W_OVERKILL:
    raise(SIGKILL);
  case W_SEGV:
    signal(SIGSEGV, SIG_DFL);
    raise(SIGSEGV);
  case W_ABORT:
    abort();
  }
}
static void run_term(const Case &c) {
  fixtures();
  int w = c[0];
  unlink((g_dir + "/t.tdag").c_str());
  if (w == W_OVER || w == W_OVERKILL)
    earlier(g_dir + "/t.tdag");
  int st = in_child([&] { term_child(c); });
  if (w == W_EXIT || w == W_OVER || w == W_UEXIT)
    VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the program ended with status 0x%x instead of 0", st);
  else if (w == W_DEXIT || w == W_HANDLER || w == W_THREAD || w == W_CLOSED)
    VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 3, "the program ended with status 0x%x instead of exit code 3", st);
  else {
    int sig = w == W_KILL || w == W_OVERKILL ? SIGKILL : w == W_SEGV ? SIGSEGV : SIGABRT;
    VH_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == sig, "the program ended with status 0x%x instead of signal %d", st, sig);
  }
  VH_CHECK(R->done == (int)c.size() - 1 + (w == W_HANDLER ? 3 : 0), "only %d operations ran", R->done);
  Tdag t;
  std::string e = t.open(g_dir + "/t.tdag");
  VH_CHECK(e.empty(), "%s", e.c_str());
  compare(t, w <= W_OVER);
  vh::st().nontrivial += c.size() > 1;
  vh::st().transitions += c.size();
}
static void gen_term(const Visit &v) {
  int depth = vh::g_thorough ? 5 : 4;
  for (int d = 0; d <= depth; d++) {
    int total = 1;
    for (int i = 0; i < d; i++)
      total *= NOP;
    for (int q = 0; q < total; q++)
      for (int w = 0; w < NWAY; w++) {
        // the longest histories: one orderly and one sudden end
        if (d == depth && w != W_DEXIT && w != W_KILL && w != W_ASSERT)
          continue;
        Case c{w};
        for (int i = 0, x = q; i < d; i++, x /= NOP)
          c.push_back(x % NOP);
        v(c);
      }
  }
  // long histories cut at every point
  for (int n = 0; n <= 40; n++)
    for (int w = 0; w < NWAY; w++) {
      Case c{w};
      static const int pat[] = {READ, FREAD, UNION, WRITE, ENTER, TCF, FENTRY, BRANCH, READ, FREAD, WRITE, FEXIT, LEAVE};
      for (int i = 0; i < n; i++)
        c.push_back(pat[i % 13]);
      v(c);
    }
}
static std::string d_term(const Case &c) {
  std::string s;
  for (size_t i = 1; i < c.size(); i++)
    s += std::string(OPN[c[i]]) + "; ";
  return s + "ends by " + WAYN[c[0]];
}

// ------------------------------------------------------------ C18
// case: stdin, stdout, stderr, argv settings (0 unset 1 "" 2 "0" 3 "1"), db (0 unset, 1 relative, 2 absolute, 3 ""),
//       number of arguments, argument kinds
static const char *ARGS[] = {"", "a", "bcd", "\xff\x80", "=1"};
static void setting(const char *n, int k) {
  if (k == 0)
    unsetenv(n);
  else
    setenv(n, k == 1 ? "" : k == 2 ? "0" : "1", 1);
}
static void run_set(const Case &c) {
  fixtures();
  std::string def = g_dir + "/polytracker.tdag", rel = g_dir + "/rel.tdag", ab = g_dir + "/w/abs.tdag";
  for (auto &f : {def, rel, ab})
    unlink(f.c_str());
  bool in = c[0] == 3, out = c[1] == 3, err = c[2] == 3, av = c[3] == 3;
  struct Sh {
    lab in[4], arg[4][8], f[4];
    uint64_t o1, o2;
  };
  static Sh *S = (Sh *)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(S, 0xff, sizeof *S);
  put("stdin.txt", "stdin data");
  int st = in_child([&] {
    setting("POLYTRACKER_STDIN_SOURCE", c[0]);
    setting("POLYTRACKER_STDOUT_SINK", c[1]);
    setting("POLYTRACKER_STDERR_SINK", c[2]);
    setting("POLYTRACKER_TAINT_ARGV", c[3]);
    if (c[4] == 0)
      unsetenv("POLYDB");
    else
      setenv("POLYDB", c[4] == 1 ? "rel.tdag" : c[4] == 2 ? ab.c_str() : "", 1);
    int i0 = ::open("stdin.txt", O_RDONLY), i1 = ::open("o1", O_CREAT | O_TRUNC | O_RDWR, 0644),
        i2 = ::open("o2", O_CREAT | O_TRUNC | O_RDWR, 0644);
    dup2(i0, 0);
    dup2(i1, 1);
    dup2(i2, 2);
    __taint_start();
    std::vector<std::string> store;
    std::vector<char *> argv;
    for (int i = 0; i < c[5]; i++)
      store.push_back(ARGS[c[6 + i]]);
    for (auto &x : store)
      argv.push_back(x.data());
    argv.push_back(nullptr);
    __polytracker_taint_argv(c[5], argv.data());
    for (int i = 0; i < c[5]; i++)
      for (size_t k = 0; k <= store[i].size(); k++)
        S->arg[i][k] = dfsan_read_label(argv[i] + k, 1);
    RL r;
    lab va[1] = {0};
    uint8_t b[8];
    VH_CHECK(__dfsw_read(0, b, 4, 0, 0, 0, &r) == 4, "harness: stdin");
    for (int i = 0; i < 4; i++)
      S->in[i] = dfsan_read_label(b + i, 1);
    int fd = __dfsw_open("w/A", O_RDONLY, 0, 0, va, &r);
    VH_CHECK(__dfsw_read(fd, b, 4, 0, 0, 0, &r) == 4, "harness: read");
    for (int i = 0; i < 4; i++)
      S->f[i] = dfsan_read_label(b + i, 1);
    S->o1 = lseek(1, 0, SEEK_CUR);
    VH_CHECK(__dfsw_write(1, b, 3, 0, 0, 0, &r) == 3, "harness: stdout");
    S->o2 = lseek(2, 0, SEEK_CUR);
    VH_CHECK(__dfsw_write(2, b + 1, 2, 0, 0, 0, &r) == 2, "harness: stderr");
    __dfsw_exit(0, 0);
  });
  VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the program ended with status 0x%x", st);
  std::string want = c[4] == 1 ? rel : c[4] == 2 ? ab : def;
  for (auto &f : {def, rel, ab})
    VH_CHECK((access(f.c_str(), F_OK) == 0) == (f == want), "trace file %s %s", f.c_str(), f == want ? "is missing" : "should not exist");
  Tdag t;
  std::string e = t.open(want);
  VH_CHECK(e.empty(), "%s", e.c_str());
  std::multiset<std::pair<std::string, int>> got, exp{{"w/A", -2}};
  for (size_t i = 0; i < t.nsrc(); i++) {
    auto s = t.src(i);
    got.insert({s.name, s.name == "w/A" ? -2 : s.fd});
  }
  if (in)
    exp.insert({"/dev/stdin", 0});
  if (out)
    exp.insert({"/dev/stdout", 1});
  if (err)
    exp.insert({"/dev/stderr", 2});
  size_t nl = 4 + (in ? 4 : 0);
  if (av)
    for (int i = 0; i < c[5]; i++) {
      exp.insert({"argv[" + std::to_string(i) + "]", -1});
      nl += strlen(ARGS[c[6 + i]]);
    }
  if (got != exp) {
    std::string a;
    for (auto &g : got)
      a += g.first + " ";
    vh::fail("sources in the trace: %s", a.c_str());
  }
  for (int i = 0; i < 4; i++) {
    if (in)
      expect_source(t, S->in[i], "/dev/stdin", 0, i, "read of standard input", i);
    else
      VH_CHECK(S->in[i] == 0, "byte %d of untracked standard input carries label %u", i, S->in[i]);
    expect_source(t, S->f[i], "w/A", -2, i, "read", i);
  }
  for (int i = 0; i < c[5]; i++) {
    size_t n = strlen(ARGS[c[6 + i]]);
    for (size_t k = 0; k < n; k++)
      if (av)
        expect_source(t, S->arg[i][k], "argv[" + std::to_string(i) + "]", -1, k, "argument", k);
      else
        VH_CHECK(S->arg[i][k] == 0, "byte %zu of untracked argument %d carries label %u", k, i, S->arg[i][k]);
    VH_CHECK(S->arg[i][n] == 0, "the terminator of argument %d carries label %u", i, S->arg[i][n]);
  }
  VH_CHECK(t.nlabels() == nl + 1, "%zu labels in the trace, expected %zu", t.nlabels() - 1, nl);
  std::set<std::tuple<std::string, uint64_t, lab>> sg, se;
  for (size_t i = 0; i < t.nsink(); i++) {
    auto s = t.sink(i);
    sg.insert({t.src(s.idx).name, s.off, s.label});
  }
  for (int i = 0; i < 3; i++)
    if (out)
      se.insert({"/dev/stdout", S->o1 + i, S->f[i]});
  for (int i = 0; i < 2; i++)
    if (err)
      se.insert({"/dev/stderr", S->o2 + i, S->f[1 + i]});
  VH_CHECK(sg == se && t.nsink() == se.size(), "%zu output records in the trace, expected %zu (or they differ)", t.nsink(), se.size());
  vh::st().nontrivial++;
  vh::st().transitions += 8;
}
static void gen_set(const Visit &v) {
  for (int i = 0; i < 256; i++)
    for (int db = 0; db < 4; db++) {
      v({i & 3, i >> 2 & 3, i >> 4 & 3, i >> 6 & 3, db, 2, 1, 2});
      if (vh::g_thorough)
        v({i & 3, i >> 2 & 3, i >> 4 & 3, i >> 6 & 3, db, 0});
    }
  int K = 5, N = vh::g_thorough ? 4 : 3;
  for (int n = 0; n <= N; n++) {
    int tot = 1;
    for (int i = 0; i < n; i++)
      tot *= K;
    for (int q = 0; q < tot; q++)
      for (int s : {0, 1}) {
        Case c{s ? 3 : 0, s ? 3 : 0, s ? 3 : 0, 3, 0, n};
        for (int i = 0, x = q; i < n; i++, x /= K)
          c.push_back(x % K);
        v(c);
      }
  }
}
static std::string d_set(const Case &c) {
  const char *K[] = {"unset", "\"\"", "\"0\"", "\"1\""};
  std::string s = std::string("STDIN_SOURCE=") + K[c[0]] + " STDOUT_SINK=" + K[c[1]] + " STDERR_SINK=" + K[c[2]] +
                  " TAINT_ARGV=" + K[c[3]] + " POLYDB kind " + std::to_string(c[4]) + ", arguments:";
  for (int i = 0; i < c[5]; i++)
    s += std::string(" '") + ARGS[c[6 + i]] + "'";
  return s;
}

// case: number of arguments, position of a long one, its length
static void run_args(const Case &c) {
  fixtures();
  std::string db = g_dir + "/args.tdag";
  unlink(db.c_str());
  struct Sh {
    lab l[1 << 18];
  };
  static Sh *S = (Sh *)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<std::string> store;
  for (int i = 0; i < c[0]; i++)
    store.push_back(i == c[1] ? std::string(c[2], 'x') : std::string(i * 3 % 7, 'a' + i % 26));
  size_t tot = 0;
  for (auto &x : store)
    tot += x.size() + 1;
  VH_CHECK(tot <= sizeof S->l / 4, "harness: room");
  int st = in_child([&] {
    setenv("POLYDB", db.c_str(), 1);
    setenv("POLYTRACKER_TAINT_ARGV", "1", 1);
    __taint_start();
    std::vector<char *> argv;
    for (auto &x : store)
      argv.push_back(x.data());
    argv.push_back(nullptr);
    __polytracker_taint_argv(c[0], argv.data());
    size_t o = 0;
    for (auto &x : store)
      for (size_t k = 0; k <= x.size(); k++)
        S->l[o++] = dfsan_read_label(&x[0] + k, 1);
    __dfsw_exit(0, 0);
  });
  VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the program ended with status 0x%x", st);
  Tdag t;
  std::string e = t.open(db);
  VH_CHECK(e.empty(), "%s", e.c_str());
  VH_CHECK(t.nsrc() == store.size(), "%zu sources in the trace for %zu arguments", t.nsrc(), store.size());
  VH_CHECK(t.nlabels() == tot - store.size() + 1, "%zu labels in the trace, expected %zu", t.nlabels() - 1, tot - store.size());
  size_t o = 0;
  for (size_t i = 0; i < store.size(); i++) {
    std::string nm = "argv[" + std::to_string(i) + "]";
    VH_CHECK(t.src(i).name == nm, "source %zu is named %s", i, t.src(i).name.c_str());
    for (size_t k = 0; k < store[i].size(); k++)
      expect_source(t, S->l[o++], nm, -1, k, nm.c_str(), k);
    VH_CHECK(S->l[o] == 0, "the terminator of argument %zu carries label %u", i, S->l[o]);
    o++;
  }
  vh::st().nontrivial++;
  vh::st().transitions += store.size();
}
static void gen_args(const Visit &v) {
  for (int n = 1; n <= 255; n++)
    v({n, -1, 0});
  for (int n : {1, 2, 12})
    for (int p = 0; p < n; p += n > 2 ? 5 : 1) {
      for (int len = 8; len <= (vh::g_thorough ? 700 : 300); len++)
        v({n, p, len});
      for (int k = 9; k <= 17; k++)
        for (int d = -1; d <= 1; d++)
          v({n, p, (1 << k) + d});
    }
}
static std::string d_args(const Case &c) {
  return std::to_string(c[0]) + " arguments, number " + std::to_string(c[1]) + " of " + std::to_string(c[2]) + " bytes";
}

// ------------------------------------------------------------ C12 on the runtime
// case: table, distance from its capacity, further requests
enum { T_SRC, T_SRCREUSE, T_ARGV, T_SINK, T_SINKC, T_FN, T_STR, T_STRSRC, NT };
static const char *TN[] = {"sources", "sources with a reused descriptor", "arguments", "output records", "single-character output records", "functions", "names (functions)", "names (sources)"};
struct Fill {
  long accepted, attempted; // requests made while there was room / in all
  lab l[4];
  int said;   // printed something before the first refused request returned
  int reuse;  // label given to bytes of the untracked file
  int fd;
};
static Fill *F;
static void silent_check(const char *) {}
static long capsize() {
  struct stat st;
  return fstat(2, &st) == 0 ? (long)st.st_size : 0;
}
static void run_full(const Case &c) {
  fixtures();
  if (!F)
    F = (Fill *)mmap(nullptr, sizeof(Fill), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(F, 0, sizeof *F);
  std::string db = g_dir + "/t.tdag";
  unlink(db.c_str());
  int tab = c[0], delta = c[1];
  const long CAP = tab <= T_ARGV ? 255 : tab <= T_SINKC ? 0x100000 : tab == T_FN ? 65535 : tab == T_STR ? 15 : 15;
  long want = CAP + delta;
  int st = in_child([&] {
    setenv("POLYDB", db.c_str(), 1);
    setenv("VH_LOG", "1", 1);
    setenv("POLYTRACKER_TAINT_ARGV", tab == T_ARGV ? "1" : "0", 1);
    for (auto e : {"POLYTRACKER_STDOUT_SINK", "POLYTRACKER_STDERR_SINK", "POLYTRACKER_STDIN_SOURCE"})
      unsetenv(e);
    struct rlimit rl {2048, 2048};
    setrlimit(RLIMIT_NOFILE, &rl);
    __taint_start();
    fflush(stdout);
    RL r;
    lab va[1] = {0};
    uint8_t b[8];
    if (tab == T_SRC || tab == T_SRCREUSE) {
      for (long i = 0; i < want; i++) {
        int fd = __dfsw_open("w/A", O_RDONLY, 0, 0, va, &r);
        VH_CHECK(fd >= 0, "open failed");
        F->attempted = i + 1;
        if (i == CAP)
          F->said = capsize() > 0;
        if (i + 1 < want)
          ; // left open
        F->fd = fd;
      }
      if (tab == T_SRCREUSE) {
        // the descriptor is closed behind the runtime's back and reused
        ::close(F->fd);
        int fd = __dfsw_open("w/B", O_RDONLY, 0, 0, va, &r);
        VH_CHECK(fd == F->fd, "harness: descriptor");
        VH_CHECK(__dfsw_read(fd, b, 2, 0, 0, 0, &r) == 2, "read");
        F->reuse = dfsan_read_label(b, 1);
      } else if (want) {
        VH_CHECK(__dfsw_read(F->fd, b, 2, 0, 0, 0, &r) == 2, "read");
        F->l[0] = dfsan_read_label(b, 1);
        F->l[1] = dfsan_read_label(b + 1, 1);
      }
    } else if (tab == T_ARGV) {
      std::vector<std::string> s(want, "x");
      std::vector<char *> av;
      for (auto &x : s)
        av.push_back(x.data());
      av.push_back(nullptr);
      F->attempted = want;
      __polytracker_taint_argv(want, av.data());
      F->said = capsize() > 0;
      F->l[0] = dfsan_read_label(av[want - 1], 1);
    } else if (tab == T_SINK || tab == T_SINKC) {
      int fd = __dfsw_open("w/A", O_RDONLY, 0, 0, va, &r);
      VH_CHECK(__dfsw_read(fd, b, 4, 0, 0, 0, &r) == 4, "read");
      int o = __dfsw_open("/dev/null", O_WRONLY, 0, 0, va, &r);
      std::vector<uint8_t> big(4096);
      dfsan_set_label(dfsan_read_label(b, 1), big.data(), big.size());
      F->l[0] = dfsan_read_label(b, 1);
      FILE *fp = __dfsw_fopen("/dev/null", "w", 0, 0, &r);
      setvbuf(fp, nullptr, _IONBF, 0);
      long left = want;
      while (left > 0) {
        // the last requests are as large as the case says
        long n = tab == T_SINKC ? (left > 5000 ? 4096 : 1) : std::min<long>(left > 5000 ? 4096 : c[2], left);
        if (tab == T_SINKC && left <= 5000)
          __dfsw_fputc('x', fp, F->l[0], 0, &r);
        else
          VH_CHECK(__dfsw_write(o, big.data(), n, 0, 0, 0, &r) == n, "write");
        left -= n;
        F->attempted += n;
      }
    } else if (tab == T_FN) {
      for (long i = 0; i < want; i++) {
        char n[8];
        snprintf(n, sizeof n, "%lx", i);
        F->attempted = i + 1;
        __polytracker_log_func_entry(n, strlen(n));
      }
    } else {
      // names of 65534 bytes: 16 with their lengths fill the table exactly
      std::string nm(65534, 'n');
      for (long i = 0; i < want; i++) {
        memcpy(nm.data(), &i, 4);
        for (int k = 0; k < 4; k++)
          nm[k] = "abcdefghijklmnopqrstuvwxyz"[(i >> (4 * k)) & 15];
        F->attempted = i + 1;
        if (tab == T_STR)
          __polytracker_log_func_entry(nm.data(), nm.size());
        else {
          // sources: one long function name each time, then the opens
          __polytracker_log_func_entry(nm.data(), nm.size());
        }
      }
      if (tab == T_STRSRC) {
        // 65536 - (2 + 3 -> 6) per open
        for (int i = 0; i < c[2]; i++) {
          int fd = __dfsw_open("w/A", O_RDONLY, 0, 0, va, &r);
          VH_CHECK(fd >= 0, "open failed");
          ::close(fd);
          F->accepted++;
        }
        int fd = __dfsw_open("w/B", O_RDONLY, 0, 0, va, &r);
        VH_CHECK(__dfsw_read(fd, b, 1, 0, 0, 0, &r) == 1, "read");
        F->reuse = dfsan_read_label(b, 1);
        F->said = capsize() > 0;
      }
    }
    __dfsw_exit(0, 0);
  });
  bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
  VH_CHECK(WIFEXITED(st), "the program died with status 0x%x", st);
  Tdag t;
  std::string e = t.open(db);
  VH_CHECK(e.empty(), "%s", e.c_str());
  for (int g = 1; g <= 8; g++) {
    auto &s = t.sec(g);
    VH_CHECK(s.off + s.size <= t.len, "section %d is larger than the file", g);
    for (int q = 1; q < g; q++) {
      auto &o = t.sec(q);
      VH_CHECK(!s.size || !o.size || s.off + s.size <= o.off || o.off + o.size <= s.off, "sections %d and %d overlap", q, g);
    }
  }
  long n = tab <= T_ARGV ? t.nsrc() : tab <= T_SINKC ? t.nsink() : t.nfn();
  if (tab != T_STR && tab != T_STRSRC) {
    long off = tab == T_SINK || tab == T_SINKC ? 0 : 0;
    if (want + off <= CAP)
      VH_CHECK(ok && n == want + (tab == T_SRCREUSE && want < CAP), "%ld of %ld requests recorded although there is room (status 0x%x)", n, want, st);
    else {
      VH_CHECK(n == CAP, "%ld requests recorded in a table for %ld", n, CAP);
      VH_CHECK(!ok || F->said || tab == T_SRCREUSE, "a request that does not fit was dropped silently");
    }
  }
  if (tab == T_SRC && ok && want) {
    if (want <= CAP)
      for (int i = 0; i < 2; i++)
        expect_source(t, F->l[i], "w/A", F->fd, i, "read", i);
    else
      VH_CHECK(F->l[0] == 0 && F->l[1] == 0, "bytes of a file that is not in the trace carry labels %u %u", F->l[0], F->l[1]);
  }
  if (tab == T_SRCREUSE && ok && F->reuse)
    expect_source(t, F->reuse, "w/B", F->fd, 0, "read", 0);
  if (tab == T_ARGV && ok && want <= CAP)
    expect_source(t, F->l[0], "argv[" + std::to_string(want - 1) + "]", -1, 0, "argument", 0);
  if (tab == T_ARGV && ok && want > CAP)
    VH_CHECK(F->l[0] == 0, "an argument that is not in the trace carries label %u", F->l[0]);
  if (tab == T_SINK || tab == T_SINKC)
    for (long i = 0; i < n; i++) {
      auto s = t.sink(i);
      VH_CHECK(s.label == F->l[0] && s.idx <= 2 && s.idx >= 1, "output record %ld is corrupt", i);
    }
  if (tab == T_FN) {
    VH_CHECK((long)t.nev() == std::min(want, CAP), "%zu events", t.nev());
    for (long i = 0; i < n; i++) {
      char b[8];
      snprintf(b, sizeof b, "%lx", i);
      VH_CHECK(t.fn(i) == b && t.ev(i) == std::make_pair(0, (unsigned)i), "function %ld is corrupt", i);
    }
  }
  if (tab == T_STR) {
    long cap = 16;
    VH_CHECK(n == std::min(want, cap), "%ld names recorded, %ld requested", n, want);
    VH_CHECK(ok == (want <= cap), "status 0x%x after %ld names", st, want);
    for (long i = 0; i < n; i++) {
      std::string s = t.fn(i);
      VH_CHECK(s.size() == 65534 && s.substr(4) == std::string(65530, 'n') && s[0] == (char)('a' + (i & 15)), "name %ld is corrupt", i);
    }
  }
  if (tab == T_STRSRC) {
    for (long i = 0; i < (long)t.nsrc(); i++)
      VH_CHECK(t.src(i).name == (i < c[2] ? "w/A" : "w/B"), "source %ld is corrupt", i);
    if (ok && F->reuse)
      expect_source(t, F->reuse, "w/B", -2, 0, "read", 0);
    if (ok && !F->reuse)
      VH_CHECK(F->said, "a source that does not fit was dropped silently");
    if (want <= 15)
      VH_CHECK(ok && F->reuse, "the source was refused although there is room");
  }
  vh::st().nontrivial++;
  vh::st().transitions += F->attempted;
}
static void gen_full(const Visit &v) {
  for (int t : {T_SRC, T_SRCREUSE, T_ARGV})
    for (int d = -3; d <= 4; d++)
      v({t, d, 0});
  for (int d = -3; d <= 3; d++)
    for (int last : {1, 2, 3, 5})
      v({T_SINK, d, last});
  for (int d = -1; d <= 2; d++)
    v({T_SINKC, d, 1});
  for (int d = -2; d <= 2; d++)
    v({T_FN, d, 0});
  for (int d = -2; d <= 4; d++)
    v({T_STR, d, 0});
  for (int d = -1; d <= 1; d++)
    for (int k : {0, 1, 2})
      v({T_STRSRC, d, k});
}
static std::string d_full(const Case &c) {
  return std::string(TN[c[0]]) + ": capacity " + (c[1] < 0 ? "" : "+") + std::to_string(c[1]) + ", parameter " + std::to_string(c[2]);
}

int main(int argc, char **argv) {
  std::vector<vh::Suite> s;
  s.push_back({"c13_term", "recording history and way of ending", gen_term, run_term, false, 30, d_term});
  s.push_back({"c18_args", "every number of arguments up to 250; one argument of every length up to 300 (thorough 700) and around every power of two up to 2^17", gen_args, run_args, false, 30, d_args});
  s.push_back({"c18_set", "environment settings and argument vector", gen_set, run_set, false, 30, d_set});
  s.push_back({"c12_run", "table of the trace, requests around its capacity, on the whole runtime", gen_full, run_full, false, 60, d_full});
  return vh::main_(argc, argv, s);
}
