// C19 (labels travel with the bytes) and C20 (same results as the library) for
// the memory, string, search, comparison, conversion and formatting functions.
// Every case calls the replacement function on buffers that end at an
// inaccessible page and the library function on an identical copy; memory,
// results and the labels of every byte around the buffers are compared.
#include "io.h"
#include <ctype.h>
#include <inttypes.h>
#include <malloc.h>
#include <stddef.h>
#include <wchar.h>

extern "C" {
void *__dfsw_memcpy(void *, const void *, size_t, lab, lab, lab, lab *);
void *__dfsw_memmove(void *, const void *, size_t, lab, lab, lab, lab *);
void *__dfsw_memset(void *, int, size_t, lab, lab, lab, lab *);
char *__dfsw_strcpy(char *, const char *, lab, lab, lab *);
char *__dfsw_strcat(char *, char *, lab, lab, lab *);
char *__dfsw_strncpy(char *, const char *, size_t, lab, lab, lab, lab *);
char *__dfsw_strdup(const char *, lab, lab *);
size_t __dfsw_strlen(const char *, lab, lab *);
char *__dfsw_strchr(const char *, int, lab, lab, lab *);
char *__dfsw_strrchr(char *, int, lab, lab, lab *);
void *__dfsw_memchr(void *, int, size_t, lab, lab, lab, lab *);
char *__dfsw_strstr(char *, char *, lab, lab, lab *);
char *__dfsw_strpbrk(const char *, const char *, lab, lab, lab *);
int __dfsw_memcmp(const void *, const void *, size_t, lab, lab, lab, lab *);
int __dfsw_bcmp(const void *, const void *, size_t, lab, lab, lab, lab *);
int __dfsw_strcmp(const char *, const char *, lab, lab, lab *);
int __dfsw_strcasecmp(const char *, const char *, lab, lab, lab *);
int __dfsw_strncmp(const char *, const char *, size_t, lab, lab, lab, lab *);
int __dfsw_strncasecmp(const char *, const char *, size_t, lab, lab, lab, lab *);
long __dfsw_strtol(const char *, char **, int, lab, lab, lab, lab *);
long long __dfsw_strtoll(const char *, char **, int, lab, lab, lab, lab *);
unsigned long __dfsw_strtoul(const char *, char **, int, lab, lab, lab, lab *);
unsigned long long __dfsw_strtoull(const char *, char **, int, lab, lab, lab, lab *);
double __dfsw_strtod(const char *, char **, lab, lab, lab *);
int __dfsw_sprintf(char *, const char *, lab, lab, lab *, lab *, ...);
int __dfsw_snprintf(char *, size_t, const char *, lab, lab, lab, lab *, lab *, ...);
}

// ------------------------------------------------------------ buffers, labels
static constexpr int W = 64;       // observed bytes at the end of each buffer
static constexpr int NL = 255;     // input bytes available as labels
static bool g_labels = false;      // judging C19 (labels) or C20 (results)
struct Arena {
  uint8_t *win = nullptr; // the last W bytes before an inaccessible page
  void make() {
    size_t pg = 4096;
    uint8_t *p = (uint8_t *)::mmap(nullptr, 3 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    VH_CHECK(p != MAP_FAILED && !mprotect(p + pg, pg, PROT_READ | PROT_WRITE), "harness: arena");
    win = p + 2 * pg - W;
  }
};
static Arena A, B, PA, PB; // A, B: replacement function; PA, PB: library
static lab g_first = 0;    // label of input byte 0
static lab L(int i) { return g_first + i; }

static void setup() {
  if (g_first)
    return;
  fixtures();
  for (auto *x : {&A, &B, &PA, &PB})
    x->make();
  std::string s;
  for (int i = 0; i < NL; i++)
    s += (char)(i + 1);
  put("labels", s);
  g_io.db = g_dir + "/s.tdag";
  unlink(g_io.db.c_str());
  setenv("POLYDB", g_io.db.c_str(), 1);
  __taint_start();
  RL r;
  lab va[1] = {0};
  int fd = __dfsw_open("labels", O_RDONLY, 0, 0, va, &r);
  uint8_t b[NL];
  VH_CHECK(__dfsw_read(fd, b, NL, 0, 0, 0, &r) == NL, "harness: read");
  ::close(fd);
  g_first = dfsan_read_label(b, 1);
  VH_CHECK(g_first, "harness: labels");
  for (int i = 0; i < NL; i++)
    VH_CHECK(dfsan_read_label(b + i, 1) == L(i), "harness: labels");
}

// Label schemes: which bytes (and arguments) are tainted.
enum { DISTINCT, NONE, EVEN, ODD, ONLY_A, ONLY_B, SAME, NSCHEME };
static int g_scheme;
static lab win_label(int arena, int i) {
  switch (g_scheme) {
  case DISTINCT:
    return L(arena * W + i);
  case NONE:
    return 0;
  case EVEN:
    return i % 2 ? 0 : L(arena * W + i);
  case ODD:
    return i % 2 ? L(arena * W + i) : 0;
  case ONLY_A:
    return arena == 0 ? L(i) : 0;
  case ONLY_B:
    return arena == 1 ? L(W + i) : 0;
  default:
    return L(7);
  }
}
// labels of the scalar arguments
static lab arg_label(int k) { return g_scheme == NONE || (g_scheme == EVEN && k % 2) ? 0 : L(2 * W + k); }

static lab exA[W], exB[W]; // expected labels
static void begin(int scheme) {
  setup();
  g_scheme = scheme;
  for (auto *x : {&A, &B, &PA, &PB})
    memset(x->win, 0x5a, W);
  for (int i = 0; i < W; i++) {
    exA[i] = win_label(0, i);
    exB[i] = win_label(1, i);
    if (dfsan_read_label(A.win + i, 1) != exA[i])
      dfsan_set_label(exA[i], A.win + i, 1);
    if (dfsan_read_label(B.win + i, 1) != exB[i])
      dfsan_set_label(exB[i], B.win + i, 1);
  }
  errno = 0;
}
// Writes s so that it ends `slack` bytes before the inaccessible page.
static int place(bool b, const std::string &s, int slack = 0) {
  int at = W - (int)s.size() - slack;
  VH_CHECK(at >= 0, "harness: window");
  memcpy((b ? B : A).win + at, s.data(), s.size());
  memcpy((b ? PB : PA).win + at, s.data(), s.size());
  return at;
}
static std::string g_what;
static void finish() {
  if (!g_labels) {
    for (int i = 0; i < W; i++) {
      VH_CHECK(A.win[i] == PA.win[i], "%s: byte %d from the end of the first buffer is 0x%02x, the library leaves 0x%02x",
               g_what.c_str(), W - i, A.win[i], PA.win[i]);
      VH_CHECK(B.win[i] == PB.win[i], "%s: byte %d from the end of the second buffer is 0x%02x, the library leaves 0x%02x",
               g_what.c_str(), W - i, B.win[i], PB.win[i]);
    }
    vh::st().nontrivial++;
    return;
  }
  for (int i = 0; i < W; i++) {
    lab a = dfsan_read_label(A.win + i, 1), b = dfsan_read_label(B.win + i, 1);
    VH_CHECK(a == exA[i], "%s: byte %d from the end of the first buffer carries label %u instead of %u", g_what.c_str(), W - i, a, exA[i]);
    VH_CHECK(b == exB[i], "%s: byte %d from the end of the second buffer carries label %u instead of %u", g_what.c_str(), W - i, b, exB[i]);
  }
  vh::st().nontrivial += g_scheme != NONE;
}
template <class T> static void same(T got, T want, const char *what = "result") {
  if (!g_labels)
    VH_CHECK(got == want, "%s: %s is %lld, the library gives %lld", g_what.c_str(), what, (long long)got, (long long)want);
}
static int sgn(int x) { return (x > 0) - (x < 0); }
// The input bytes a label denotes.
static std::set<int> bytes_of(lab l) {
  std::set<int> r;
  if (!l)
    return r;
  static Live *live = nullptr;
  if (!live)
    live = new Live;
  for (auto &[s, o] : live->t.expand(l))
    r.insert((int)o);
  return r;
}
// Runs with strict_data_dependencies=0: results of searches and comparisons carry the labels of what was examined.
static bool g_loose = false;
// a, na, b, nb: the bytes of the first and second buffer that decide the result.
static void examined(RL &r, int a, int na, int b, int nb, std::initializer_list<lab> args) {
  if (!g_labels || !g_loose)
    return;
  std::set<int> must, may;
  for (int i = 0; i < na; i++)
    for (int x : bytes_of(exA[a + i]))
      must.insert(x);
  for (int i = 0; i < nb; i++)
    for (int x : bytes_of(exB[b + i]))
      must.insert(x);
  may = must;
  for (lab l : args)
    for (int x : bytes_of(l))
      may.insert(x);
  auto got = bytes_of(r.v);
  for (int x : must)
    VH_CHECK(got.count(x), "%s: the result lacks input byte %d, which decides it", g_what.c_str(), x);
  for (int x : got)
    VH_CHECK(may.count(x), "%s: the result carries input byte %d, which does not decide it", g_what.c_str(), x);
}
// The result must carry this label.
static void carries(RL &r, lab l) {
  if (!g_labels || !l)
    return;
  auto got = bytes_of(r.v);
  for (int x : bytes_of(l))
    VH_CHECK(got.count(x), "%s: the result lacks the label of the pointer it was derived from", g_what.c_str());
}
// The taint of the result: defined, and drawn from the allowed labels.
static void result_label(RL &r, std::initializer_list<lab> may) {
  r.check(g_what.c_str());
  if (!g_labels || r.v == 0 || g_loose)
    return;
  std::set<int> ok;
  for (lab l : may)
    if (l)
      for (int x : bytes_of(l))
        ok.insert(x);
  for (int x : bytes_of(r.v))
    VH_CHECK(ok.count(x), "%s: the result carries label %u with input byte %d, which it does not depend on", g_what.c_str(), r.v, x);
}

// ------------------------------------------------------------ enumeration
// Bijective numeration of the words over an alphabet: 0 is the empty word.
static std::string word(int code, const std::string &alpha) {
  std::string s;
  int k = alpha.size();
  while (code > 0) {
    code--;
    s += alpha[code % k];
    code /= k;
  }
  return s;
}
static int words(int k, int len) {
  int n = 1, p = 1;
  for (int i = 0; i < len; i++)
    n += p *= k;
  return n;
}
static const std::string ZAB("\0ab", 3), AB("ab\xff", 3), CMP("aAb\x80\xff", 5), ZCMP("\0a\x7f\x80\xff", 5),
    CASE("aAz[\xe1\xc1", 6);

struct Fn {
  const char *name;
  std::function<void(const std::function<void(std::vector<int>)> &)> gen; // argument vectors
  std::function<void(const int *)> run;
  int schemes = NSCHEME;
};
static std::vector<Fn> F;
static bool T() { return vh::g_thorough; }

static void add_fns() {
  auto G = [](auto f) { return f; };
  (void)G;
  // ---- copies
  for (bool mv : {false, true})
    F.push_back({mv ? "memmove" : "memcpy",
                 [=](auto &v) {
                   for (int n : {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24})
                     for (int d = 0; d < 4; d++)
                       for (int s = 0; s < 4; s++)
                         v({n, d, s});
                 },
                 [=](const int *a) {
                   int n = a[0], da = W - n - a[1], sa = W - n - a[2];
                   for (int i = 0; i < n; i++)
                     B.win[sa + i] = PB.win[sa + i] = i * 37 + 1;
                   RL r;
                   auto f = mv ? __dfsw_memmove : __dfsw_memcpy;
                   void *x = f(A.win + da, B.win + sa, n, arg_label(0), arg_label(1), arg_label(2), &r);
                   memcpy(PA.win + da, PB.win + sa, n);
                   same((long)((uint8_t *)x - A.win), (long)da);
                   for (int i = 0; i < n; i++)
                     exA[da + i] = exB[sa + i];
                   result_label(r, {arg_label(0)});
                 }});
  F.push_back({"memmove (overlapping)",
               [](auto &v) {
                 for (int n = 0; n <= 10; n++)
                   for (int d = 0; d <= 12; d++)
                     for (int s = 0; s <= 12; s++)
                       v({n, d, s});
               },
               [](const int *a) {
                 int n = a[0], da = 20 + a[1], sa = 20 + a[2];
                 for (int i = 0; i < W; i++)
                   A.win[i] = PA.win[i] = i * 3;
                 RL r;
                 void *x = __dfsw_memmove(A.win + da, A.win + sa, n, arg_label(0), arg_label(1), arg_label(2), &r);
                 memmove(PA.win + da, PA.win + sa, n);
                 same((long)((uint8_t *)x - A.win), (long)da);
                 lab t[W];
                 memcpy(t, exA, sizeof t);
                 for (int i = 0; i < n; i++)
                   exA[da + i] = t[sa + i];
                 result_label(r, {arg_label(0)});
               }});
  F.push_back({"memset",
               [](auto &v) {
                 for (int n = 0; n <= 20; n++)
                   for (int c : {0, 97, 0x80, 0xff, 0x161, 0x102, -1, -128, -256})
                     for (int d = 0; d < 3; d++)
                       v({n, c, d});
               },
               [](const int *a) {
                 int at = W - a[0] - a[2];
                 RL r;
                 void *x = __dfsw_memset(A.win + at, a[1], a[0], arg_label(0), arg_label(1), arg_label(2), &r);
                 memset(PA.win + at, a[1], a[0]);
                 same((long)((uint8_t *)x - A.win), (long)at);
                 for (int i = 0; i < a[0]; i++)
                   exA[at + i] = arg_label(1);
                 result_label(r, {arg_label(0)});
               }});
  F.push_back({"strcpy",
               [](auto &v) {
                 for (int s = 0; s < words(3, T() ? 7 : 5); s++)
                   for (int d = 0; d < 3; d++)
                     v({s, d});
               },
               [](const int *a) {
                 std::string s = word(a[0], AB);
                 int n = s.size() + 1, sa = place(1, s + '\0'), da = W - n - a[1];
                 RL r;
                 char *x = __dfsw_strcpy((char *)A.win + da, (char *)B.win + sa, arg_label(0), arg_label(1), &r);
                 strcpy((char *)PA.win + da, (char *)PB.win + sa);
                 same((long)((uint8_t *)x - A.win), (long)da);
                 for (int i = 0; i < n; i++)
                   exA[da + i] = exB[sa + i];
                 result_label(r, {arg_label(0)});
               }});
  F.push_back({"strcat",
               [](auto &v) {
                 for (int d = 0; d < words(3, 3); d++)
                   for (int s = 0; s < words(3, T() ? 5 : 4); s++)
                     for (int k = 0; k < 2; k++)
                       v({d, s, k});
               },
               [](const int *a) {
                 std::string d = word(a[0], AB), s = word(a[1], AB);
                 int sa = place(1, s + '\0'), da = place(0, d + '\0', s.size() + a[2]);
                 RL r;
                 char *x = __dfsw_strcat((char *)A.win + da, (char *)B.win + sa, arg_label(0), arg_label(1), &r);
                 strcat((char *)PA.win + da, (char *)PB.win + sa);
                 same((long)((uint8_t *)x - A.win), (long)da);
                 for (size_t i = 0; i <= s.size(); i++)
                   exA[da + d.size() + i] = exB[sa + i];
                 result_label(r, {arg_label(0)});
               }});
  F.push_back({"strncpy",
               [](auto &v) {
                 for (int s = 0; s < words(3, T() ? 7 : 5); s++)
                   for (int n = 0; n <= 8; n++)
                     for (int t = 0; t < 2; t++)
                       v({s, n, t});
               },
               [](const int *a) {
                 std::string s = word(a[0], AB);
                 int n = a[1];
                 // a source of at least n bytes needs no terminator
                 bool term = !a[2] || (int)s.size() < n;
                 int sa = place(1, term ? s + '\0' : s), da = W - n - 1;
                 RL r;
                 char *x = __dfsw_strncpy((char *)A.win + da, (char *)B.win + sa, n, arg_label(0), arg_label(1), arg_label(2), &r);
                 strncpy((char *)PA.win + da, (char *)PB.win + sa, n);
                 same((long)((uint8_t *)x - A.win), (long)da);
                 for (int i = 0; i < n; i++)
                   exA[da + i] = i <= (int)s.size() ? exB[sa + i] : 0;
                 result_label(r, {arg_label(0)});
               }});
  F.push_back({"strdup",
               [](auto &v) {
                 for (int s = 0; s < words(3, T() ? 7 : 5); s++)
                   v({s});
               },
               [](const int *a) {
                 std::string s = word(a[0], AB);
                 int sa = place(1, s + '\0');
                 // leave stale labels in the allocator's memory
                 void *old = malloc(s.size() + 1);
                 dfsan_set_label(L(9), old, s.size() + 1);
                 free(old);
                 RL r;
                 char *x = __dfsw_strdup((char *)B.win + sa, arg_label(0), &r);
                 VH_CHECK(x && !memcmp(x, s.c_str(), s.size() + 1), "strdup: wrong copy");
                 if (g_labels)
                   for (size_t i = 0; i <= s.size(); i++)
                     VH_CHECK(dfsan_read_label(x + i, 1) == exB[sa + i], "strdup: byte %zu carries label %u instead of %u", i,
                              dfsan_read_label(x + i, 1), exB[sa + i]);
                 dfsan_set_label(0, x, s.size() + 1);
                 free(x);
                 result_label(r, {});
               }});
  // ---- searches
  F.push_back({"strlen",
               [](auto &v) {
                 for (int s = 0; s < words(3, 5); s++)
                   v({s});
               },
               [](const int *a) {
                 int at = place(0, word(a[0], AB) + '\0');
                 RL r;
                 same(__dfsw_strlen((char *)A.win + at, arg_label(0), &r), strlen((char *)PA.win + at));
                 result_label(r, {});
                 examined(r, at, W - at, 0, 0, {arg_label(0)});
               }, 2});
  for (int k = 0; k < 2; k++)
    F.push_back({k ? "strrchr" : "strchr",
                 [](auto &v) {
                   for (int s = 0; s < words(5, T() ? 6 : 5); s++)
                     for (int c : {0, 97, 98, 65, 0x80, 0xff, -1, -128, 0x100, 0x161, 0x1ff, 122})
                       v({s, c});
                 },
                 [=](const int *a) {
                   int at = place(0, word(a[0], CMP) + '\0');
                   RL r;
                   char *x = k ? __dfsw_strrchr((char *)A.win + at, a[1], arg_label(0), arg_label(1), &r)
                               : __dfsw_strchr((char *)A.win + at, a[1], arg_label(0), arg_label(1), &r);
                   char *y = k ? strrchr((char *)PA.win + at, a[1]) : strchr((char *)PA.win + at, a[1]);
                   same(x ? x - (char *)A.win : -1l, y ? y - (char *)PA.win : -1l);
                   result_label(r, {arg_label(0)});
                   examined(r, at, k || !y ? W - at : y - (char *)PA.win - at + 1, 0, 0, {arg_label(0), arg_label(1)});
                   if (y)
                     carries(r, arg_label(0));
                 }, 2});
  F.push_back({"memchr",
               [](auto &v) {
                 for (int s = 0; s < words(5, T() ? 6 : 5); s++)
                   for (int c : {0, 97, 0x7f, 0x80, 0xff, -1, -128, 0x100, 0x161, 122})
                     for (int n = 0; n < 2; n++)
                       v({s, c, n});
               },
               [](const int *a) {
                 std::string s = word(a[0], ZCMP);
                 int at = place(0, s), n = s.size();
                 if (a[2] && n)
                   n--;
                 RL r;
                 void *x = __dfsw_memchr(A.win + at, a[1], n, arg_label(0), arg_label(1), arg_label(2), &r);
                 void *y = memchr(PA.win + at, a[1], n);
                 same(x ? (uint8_t *)x - A.win : -1l, y ? (uint8_t *)y - PA.win : -1l);
                 result_label(r, {arg_label(0)});
                 examined(r, at, y ? (uint8_t *)y - PA.win - at + 1 : n, 0, 0, {arg_label(0), arg_label(1), arg_label(2)});
                 if (y)
                   carries(r, arg_label(0));
               }, 2});
  for (int k = 0; k < 2; k++)
    F.push_back({k ? "strpbrk" : "strstr",
                 [](auto &v) {
                   for (int s = 0; s < words(3, T() ? 8 : 6); s++)
                     for (int t = 0; t < words(3, 3); t++)
                       v({s, t});
                 },
                 [=](const int *a) {
                   int at = place(0, word(a[0], AB) + '\0'), bt = place(1, word(a[1], AB) + '\0');
                   RL r;
                   char *x = k ? __dfsw_strpbrk((char *)A.win + at, (char *)B.win + bt, arg_label(0), arg_label(1), &r)
                               : __dfsw_strstr((char *)A.win + at, (char *)B.win + bt, arg_label(0), arg_label(1), &r);
                   char *y = k ? strpbrk((char *)PA.win + at, (char *)PB.win + bt) : strstr((char *)PA.win + at, (char *)PB.win + bt);
                   same(x ? x - (char *)A.win : -1l, y ? y - (char *)PA.win : -1l);
                   result_label(r, {arg_label(0)});
                   examined(r, at, y ? y - (char *)PA.win - at + (k ? 1 : (int)strlen((char *)PB.win + bt)) : W - at, bt, W - bt,
                            {arg_label(0), arg_label(1)});
                   if (y)
                     carries(r, arg_label(0));
                 }, 2});
  // ---- comparisons
  for (int k = 0; k < 2; k++)
    F.push_back({k ? "bcmp" : "memcmp",
                 [](auto &v) {
                   for (int n = 0; n <= (T() ? 5 : 4); n++) {
                     int lo = n ? words(5, n - 1) : 0, hi = words(5, n);
                     for (int s = lo; s < hi; s++)
                       for (int t = lo; t < hi; t++)
                         v({s, t});
                   }
                 },
                 [=](const int *a) {
                   std::string s = word(a[0], ZCMP), t = word(a[1], ZCMP);
                   int at = place(0, s), bt = place(1, t);
                   RL r;
                   int x = (k ? __dfsw_bcmp : __dfsw_memcmp)(A.win + at, B.win + bt, s.size(), arg_label(0), arg_label(1), arg_label(2), &r);
                   int y = memcmp(PA.win + at, PB.win + bt, s.size());
                   same(k ? x != 0 : sgn(x), k ? y != 0 : sgn(y), "sign of the result");
                   result_label(r, {});
                   int m = 0;
                   while (m < (int)s.size() && s[m] == t[m])
                     m++;
                   m = std::min<int>(m + 1, s.size());
                   examined(r, at, m, bt, m, {arg_label(0), arg_label(1), arg_label(2)});
                 }, 1});
  for (int k = 0; k < 4; k++) // strcmp strncmp strcasecmp strncasecmp
    F.push_back({k == 0 ? "strcmp" : k == 1 ? "strncmp" : k == 2 ? "strcasecmp" : "strncasecmp",
                 [=](auto &v) {
                   int sz = k < 2 ? 5 : 6;
                   for (int s = 0; s < words(sz, 3); s++)
                     for (int t = 0; t < words(sz, T() ? 4 : 3); t++)
                       if (k % 2 == 0)
                         v({s, t, 0});
                       else
                         for (int n = 0; n <= 4; n++)
                           v({s, t, n});
                 },
                 [=](const int *a) {
                   auto &al = k < 2 ? CMP : CASE;
                   std::string s = word(a[0], al), t = word(a[1], al);
                   size_t n = a[2];
                   bool lim = k % 2;
                   // with a limit, strings at least that long need no terminator
                   int at = place(0, lim && s.size() >= n ? s : s + '\0'), bt = place(1, lim && t.size() >= n ? t : t + '\0');
                   char *sa = (char *)A.win + at, *sb = (char *)B.win + bt, *pa = (char *)PA.win + at, *pb = (char *)PB.win + bt;
                   RL r;
                   int x = k == 0   ? __dfsw_strcmp(sa, sb, arg_label(0), arg_label(1), &r)
                           : k == 1 ? __dfsw_strncmp(sa, sb, n, arg_label(0), arg_label(1), arg_label(2), &r)
                           : k == 2 ? __dfsw_strcasecmp(sa, sb, arg_label(0), arg_label(1), &r)
                                    : __dfsw_strncasecmp(sa, sb, n, arg_label(0), arg_label(1), arg_label(2), &r);
                   int y = k == 0 ? strcmp(pa, pb) : k == 1 ? strncmp(pa, pb, n) : k == 2 ? strcasecmp(pa, pb) : strncasecmp(pa, pb, n);
                   same(sgn(x), sgn(y), "sign of the result");
                   result_label(r, {});
                   int m = 0;
                   auto low = [&](char c) { return k < 2 ? c : (char)tolower((unsigned char)c); };
                   while ((!lim || m < (int)n) && pa[m] && low(pa[m]) == low(pb[m]))
                     m++;
                   if (!lim || m < (int)n)
                     m++;
                   examined(r, at, m, bt, m, {arg_label(0), arg_label(1), arg_label(2)});
                 }, 1});
  // ---- conversions
  static const char *NUM[] = {"", "0", "7", "-1", "+5", " 12", "\t-0x1F", "0x", "0xg", "010", "08", "zz", "Z", "1.5", "1e3", "-.5e-2x",
                              "inf", "nanq", "9223372036854775807", "9223372036854775808", "-9223372036854775809",
                              "18446744073709551615", "18446744073709551616", "1e400", "1e-400", "abc", "  ", "-", "12 34", "0b11", "1_0",
                              "2147483648", "4294967296", "0x1p4", "0x.8", "\xff", "1\xff", "100000000000000000000"};
  static const int NNUM = sizeof NUM / sizeof *NUM;
  for (int k = 0; k < 5; k++)
    F.push_back({k == 0 ? "strtol" : k == 1 ? "strtoll" : k == 2 ? "strtoul" : k == 3 ? "strtoull" : "strtod",
                 [=](auto &v) {
                   for (int s = 0; s < NNUM; s++)
                     for (int base : {0, 2, 8, 10, 16, 36, 1, 37, -1})
                       for (int e = 0; e < 2; e++)
                         if (k < 4 || base == 0)
                           v({s, base, e});
                 },
                 [=](const int *a) {
                   std::string s = NUM[a[0]];
                   int at = place(0, s + '\0'), base = a[1];
                   char *p = (char *)A.win + at, *q = (char *)PA.win + at;
                   char *e1 = p + 1, *e2 = q + 1;
                   char **ep = a[2] ? &e1 : nullptr, **eq = a[2] ? &e2 : nullptr;
                   RL r;
                   errno = 0;
                   int er1, er2;
                   unsigned long long x = 0, y = 0;
                   double dx = 0, dy = 0;
                   lab l0 = arg_label(0), l1 = arg_label(1), l2 = arg_label(2);
                   if (k == 0) x = __dfsw_strtol(p, ep, base, l0, l1, l2, &r);
                   if (k == 1) x = __dfsw_strtoll(p, ep, base, l0, l1, l2, &r);
                   if (k == 2) x = __dfsw_strtoul(p, ep, base, l0, l1, l2, &r);
                   if (k == 3) x = __dfsw_strtoull(p, ep, base, l0, l1, l2, &r);
                   if (k == 4) dx = __dfsw_strtod(p, ep, l0, l1, &r);
                   er1 = errno;
                   errno = 0;
                   char *end = q;
                   if (k == 0) y = strtol(q, &end, base);
                   if (k == 1) y = strtoll(q, &end, base);
                   if (k == 2) y = strtoul(q, &end, base);
                   if (k == 3) y = strtoull(q, &end, base);
                   if (k == 4) dy = strtod(q, &end);
                   er2 = errno;
                   bool bad_base = er2 == EINVAL && (base == 1 || base > 36 || base < 0);
                   if (eq)
                     e2 = end;
                   same(x, y);
                   if (!g_labels)
                     VH_CHECK(!memcmp(&dx, &dy, sizeof dx), "strtod: result is %g, the library gives %g", dx, dy);
                   same(er1, er2, "errno");
                   if (!bad_base)
                     same((long)(e1 - p), (long)(e2 - q), "end pointer");
                   r.check(g_what.c_str());
                   if (g_labels && !bad_base) {
                     std::set<int> must, may;
                     int used = end - q;
                     for (int i = 0; i <= used; i++)
                       for (int b : bytes_of(exA[at + i])) {
                         if (i < used && !isspace((unsigned char)s[i]))
                           must.insert(b);
                         may.insert(b);
                       }
                     if (k < 4)
                       for (int b : bytes_of(l2)) {
                         may.insert(b);
                         if (used)
                           must.insert(b);
                       }
                     auto got = bytes_of(r.v);
                     for (int b : must)
                       VH_CHECK(got.count(b), "%s: the number lacks the label of a character or base it was read with", g_what.c_str());
                     for (int b : got)
                       VH_CHECK(may.count(b), "%s: the number carries a label it does not depend on", g_what.c_str());
                   }
                 }});
}

// ------------------------------------------------------------ formatting
// Format strings are built from pieces; each piece contributes literal text or
// one directive with its argument. Argument kinds decide the C type passed.
enum AK { NOARG, INT, LONG, LLONG, DBL, LDBL, STR, PTR, NPTR, WSTR, NULLSTR, STARINT, STARSTR, STARSTARINT, STARSTARDBL, HHN, HN, LN };
struct Piece {
  const char *fmt;
  AK kind;
  long long i;
  double d;
  const char *s; // for STR: content of the string (in the second buffer)
  int star1 = 0, star2 = 0;
};
static const Piece PIECES[] = {
    {"x", NOARG, 0, 0, ""},          {"%%", NOARG, 0, 0, ""},       {"%d", INT, -12, 0, ""},        {"%5d", INT, 7, 0, ""},
    {"%-4d", INT, 7, 0, ""},        {"%u", INT, -1, 0, ""},        {"%hhd", INT, 300, 0, ""},      {"%hd", INT, 70000, 0, ""},
    {"%ld", LONG, 1ll << 40, 0, ""}, {"%lld", LLONG, -(1ll << 50), 0, ""}, {"%zu", LONG, 1ll << 33, 0, ""}, {"%jd", LONG, 1ll << 34, 0, ""},
    {"%td", LONG, -5, 0, ""},        {"%qd", LLONG, 1ll << 45, 0, ""}, {"%#x", INT, 255, 0, ""},    {"%08X", INT, 0xbeef, 0, ""},
    {"%o", INT, 8, 0, ""},           {"%i", INT, 42, 0, ""},        {"%c", INT, 'Q', 0, ""},        {"%3c", INT, 'R', 0, ""},
    {"%f", DBL, 0, 1.5, ""},         {"%.2e", DBL, 0, -12345.678, ""}, {"%g", DBL, 0, 1e10, ""},    {"%Lf", LDBL, 0, 2.25, ""},
    {"%A", DBL, 0, 1.0, ""},         {"%s", STR, 0, 0, "abc"},      {"%s", STR, 0, 0, ""},          {"%5s", STR, 0, 0, "ab"},
    {"%-5s", STR, 0, 0, "ab"},       {"%.2s", STR, 0, 0, "wxyz"},   {"%6.1s", STR, 0, 0, "pq"},     {"%s", NULLSTR, 0, 0, ""},
    {"%p", PTR, 0x1234, 0, ""},      {"%p", PTR, 0, 0, ""},         {"%n", NPTR, 0, 0, ""},         {"%*d", STARINT, 3, 0, "", 5},
    {"%*d", STARINT, 3, 0, "", -5},  {"%.*s", STARSTR, 0, 0, "mnop", 2}, {"%.*s", STARSTR, 0, 0, "mnop", -1}, {"%*s", STARSTR, 0, 0, "mn", 4},
    {"%*s", STARSTR, 0, 0, "mn", -4}, {"%*.*d", STARSTARINT, 9, 0, "", 6, 3}, {"%*.*f", STARSTARDBL, 0, 3.14159, "", 7, 2},
    {"%c", INT, 0, 0, ""},           {"\xff\x80", NOARG, 0, 0, ""}, {"%hhn", HHN, 0, 0, ""},        {"%hn", HN, 0, 0, ""},
    {"%ln", LN, 0, 0, ""},           {"%Ld", LLONG, 1ll << 42, 0, ""}, {"%+d", INT, 5, 0, ""},      {"% d", INT, 5, 0, ""},
    {"%.0f", DBL, 0, 0.5, ""},       {"%lf", DBL, 0, 2.5, ""},      {"%.3d", INT, 5, 0, ""},        {"%hx", INT, -1, 0, ""},
    {"%lx", LONG, -1, 0, ""},        {"%llu", LLONG, -1, 0, ""},    {"%.10s", STR, 0, 0, "k"},      {"%m", NOARG, 0, 0, ""},
};
static const int NPIECE = sizeof PIECES / sizeof *PIECES;

struct Args { // flattened machine words for one call; doubles go separately
  std::vector<long> g;
};
// Calls f with up to 6 general and 3 floating arguments: in the x86-64 calling
// convention they travel in separate registers/stack slots; variadic functions
// take them in order of their own class, so one call shape fits all formats
// whose general arguments and doubles each come in this order (no long double).
template <class Fp, class... Pre> static int vcall(Fp f, const std::vector<long> &g, const std::vector<double> &d, Pre... pre) {
  long a[6] = {0};
  double b[3] = {0};
  for (size_t i = 0; i < g.size() && i < 6; i++)
    a[i] = g[i];
  for (size_t i = 0; i < d.size() && i < 3; i++)
    b[i] = d[i];
  return f(pre..., a[0], a[1], a[2], a[3], a[4], a[5], b[0], b[1], b[2]);
}

// Result slots for %n in the first 8 bytes of the second buffer.
static bool run_fmt(const int *a, int n) {
  int size = a[0]; // -1: sprintf
  std::vector<long> g1, g2;
  std::vector<double> d;
  std::vector<lab> va;
  std::string fmt, out;
  std::vector<lab> want; // label per output byte (unbounded output)
  int strat = 12;        // strings are placed from here in the second buffer
  long double ld = 0;
  int has_ld = 0;
  int arg = 3;
  size_t so_far = 0;
  std::vector<std::pair<int, int>> nwrites; // offset, size
  int nslot = 0;
  for (int k = 1; k < n; k++) {
    const Piece &p = PIECES[a[k]];
    fmt += p.fmt;
    auto lab_for = [&] { return arg_label(arg++); };
    auto emit = [&](const std::string &o, lab l) {
      out += o;
      for (size_t i = 0; i < o.size(); i++)
        want.push_back(l);
    };
    char b[600];
    auto str_at = [&](const char *s) {
      int at = strat;
      memcpy(B.win + at, s, strlen(s) + 1);
      memcpy(PB.win + at, s, strlen(s) + 1);
      strat += strlen(s) + 1;
      return at;
    };
    auto emit_str = [&](const std::string &o, int at, int copied) {
      // padding is untainted, characters carry their own label
      size_t pad = o.size() - copied;
      bool left = p.fmt[1] == '-' || (p.fmt[1] == '*' && p.star1 < 0);
      if (!left)
        emit(o.substr(0, pad), 0);
      out += o.substr(left ? 0 : pad, copied);
      for (int i = 0; i < copied; i++)
        want.push_back(exB[at + i]);
      if (left)
        emit(o.substr(copied), 0);
    };
    switch (p.kind) {
    case NOARG: {
      errno = ENOENT;
      int r = snprintf(b, sizeof b, p.fmt, 0);
      emit(std::string(b, r), 0);
      break;
    }
    case INT:
    case LONG:
    case LLONG:
    case PTR: {
      int r = snprintf(b, sizeof b, p.fmt, (long long)p.i);
      g1.push_back(p.kind == INT ? (long)(int)p.i : p.i);
      g2.push_back(g1.back());
      va.push_back(lab_for());
      emit(std::string(b, r), va.back());
      break;
    }
    case DBL: {
      int r = snprintf(b, sizeof b, p.fmt, p.d);
      d.push_back(p.d);
      va.push_back(lab_for());
      emit(std::string(b, r), va.back());
      break;
    }
    case LDBL: {
      ld = p.d;
      has_ld++;
      int r = snprintf(b, sizeof b, p.fmt, (long double)p.d);
      va.push_back(lab_for());
      emit(std::string(b, r), va.back());
      break;
    }
    case STR: {
      int at = str_at(p.s);
      g1.push_back((long)(B.win + at));
      g2.push_back((long)(PB.win + at));
      va.push_back(lab_for());
      int r = snprintf(b, sizeof b, p.fmt, p.s);
      const char *dot = strchr(p.fmt, '.');
      int cp = strlen(p.s);
      if (dot)
        cp = std::min(cp, atoi(dot + 1));
      emit_str(std::string(b, r), at, cp);
      break;
    }
    case NULLSTR: {
      g1.push_back(0);
      g2.push_back(0);
      va.push_back(lab_for());
      int r = snprintf(b, sizeof b, p.fmt, (char *)nullptr);
      emit(std::string(b, r), 0xffffffff); // (null): the pointer's label or none
      break;
    }
    case STARINT: {
      g1.push_back(p.star1);
      g1.push_back(p.i);
      g2.push_back(p.star1);
      g2.push_back(p.i);
      va.push_back(lab_for());
      va.push_back(lab_for());
      int r = snprintf(b, sizeof b, p.fmt, p.star1, (int)p.i);
      emit(std::string(b, r), va.back());
      break;
    }
    case STARSTR: {
      int at = str_at(p.s);
      for (auto *g : {&g1, &g2}) {
        g->push_back(p.star1);
        g->push_back((long)((g == &g1 ? B.win : PB.win) + at));
      }
      va.push_back(lab_for());
      va.push_back(lab_for());
      int r = snprintf(b, sizeof b, p.fmt, p.star1, p.s);
      int cp = strlen(p.s);
      if (strchr(p.fmt, '.') && p.star1 >= 0)
        cp = std::min(cp, p.star1);
      emit_str(std::string(b, r), at, cp);
      break;
    }
    case STARSTARINT:
    case STARSTARDBL: {
      for (auto *g : {&g1, &g2}) {
        g->push_back(p.star1);
        g->push_back(p.star2);
        if (p.kind == STARSTARINT)
          g->push_back(p.i);
      }
      va.push_back(lab_for());
      va.push_back(lab_for());
      va.push_back(lab_for());
      int r;
      if (p.kind == STARSTARINT)
        r = snprintf(b, sizeof b, p.fmt, p.star1, p.star2, (int)p.i);
      else {
        d.push_back(p.d);
        r = snprintf(b, sizeof b, p.fmt, p.star1, p.star2, p.d);
      }
      emit(std::string(b, r), va.back());
      break;
    }
    case NPTR:
    case HHN:
    case HN:
    case LN: {
      int sz = p.kind == NPTR ? 4 : p.kind == HHN ? 1 : p.kind == HN ? 2 : 8;
      int at = nslot;
      if (nslot + 8 > 12)
        return false; // one counter per format string
      nslot += 8;
      g1.push_back((long)(B.win + at));
      g2.push_back((long)(PB.win + at));
      va.push_back(lab_for());
      for (int i = 0; i < sz; i++)
        exB[at + i] = 0;
      break;
    }
    default:
      break;
    }
  }
  (void)so_far;
  if (strat > W || out.size() + 2 > W || g1.size() > 6 || d.size() > 3 || (has_ld && (has_ld > 1 || g1.size() || d.size())))
    return false; // does not fit the harness
  va.resize(12);
  vh::st().nontrivial++;
  RL r;
  int cap = size < 0 ? (int)out.size() + 1 : size;
  int at = W - cap;
  if (at < 0)
    return false;
  int x, y;
  errno = ENOENT;
  const char *f = fmt.c_str();
  lab l0 = arg_label(0), l1 = arg_label(1), l2 = arg_label(2);
  char *pd = size == 0 ? nullptr : (char *)A.win + at, *pp = size == 0 ? nullptr : (char *)PA.win + at;
  if (has_ld) {
    x = size < 0 ? __dfsw_sprintf(pd, f, l0, l2, va.data(), &r, ld) : __dfsw_snprintf(pd, size, f, l0, l1, l2, va.data(), &r, ld);
    errno = ENOENT;
    y = size < 0 ? sprintf(pp, f, ld) : snprintf(pp, size, f, ld);
  } else {
    x = size < 0 ? vcall(__dfsw_sprintf, g1, d, pd, f, l0, l2, va.data(), &r) : vcall(__dfsw_snprintf, g1, d, pd, (size_t)size, f, l0, l1, l2, va.data(), &r);
    errno = ENOENT;
    y = size < 0 ? vcall(sprintf, g2, d, pp, f) : vcall(snprintf, g2, d, pp, (size_t)size, f);
  }
  if (y < 0 || y != (int)out.size())
    vh::fail("harness: %s formats %d bytes, %zu expected", fmt.c_str(), y, out.size());
  same(x, y);
  int shown = size < 0 ? y : std::min(y, size - 1);
  for (int i = 0; i < shown; i++) {
    lab w = want[i];
    if (w == 0xffffffff) { // (null)
      w = dfsan_read_label(A.win + at + i, 1);
      if (w != 0 && std::find(va.begin(), va.end(), w) == va.end())
        w = 0;
    }
    exA[at + i] = w;
  }
  if (size != 0)
    exA[at + std::max(shown, 0)] = 0; // the terminator is not tainted
  result_label(r, {});
  return true;
}

// ------------------------------------------------------------ realloc, calloc
struct Alloc {
  size_t from, to;
};
static const size_t SZ[] = {1, 8, 16, 24, 25, 40, 100, 1000, 5000, 200000, 300000};
static void run_alloc(const int *a) {
  setup();
  g_scheme = DISTINCT;
  RL r;
  auto lb = [&](size_t i) -> lab { return a[3] == 0 ? L(i % NL) : a[3] == 1 ? 0 : (i % 3 ? 0 : L(i % NL)); };
  switch (a[0]) {
  case 0: { // realloc, moved or in place
    size_t from = SZ[a[1]], to = SZ[a[2]];
    std::vector<void *> hold;
    // neighbours with labels, so that labels beyond the old block would show
    uint8_t *p = (uint8_t *)malloc(from);
    uint8_t *q = a[4] ? (uint8_t *)malloc(64) : nullptr; // keeps p from growing in place
    if (q)
      dfsan_set_label(L(200), q, 64);
    for (size_t i = 0; i < from; i++) {
      p[i] = i * 5 + 1;
      dfsan_set_label(lb(i), p + i, 1);
    }
    uint8_t *n = (uint8_t *)__dfsw_realloc(p, to, 0, arg_label(1), &r);
    r.check("realloc");
    VH_CHECK(n, "realloc of %zu to %zu failed", from, to);
    for (size_t i = 0; i < std::min(from, to); i++) {
      if (!g_labels)
        VH_CHECK(n[i] == (uint8_t)(i * 5 + 1), "realloc: byte %zu changed", i);
      else
        VH_CHECK(dfsan_read_label(n + i, 1) == lb(i), "realloc %zu to %zu: byte %zu carries label %u instead of %u", from, to, i,
                 dfsan_read_label(n + i, 1), lb(i));
    }
    if (q && g_labels)
      for (int i = 0; i < 64; i++)
        VH_CHECK(dfsan_read_label(q + i, 1) == L(200), "realloc changed the label of another allocation");
    if (n != p) // do not leave stale labels behind
      dfsan_set_label(0, p, from);
    if (g_labels) { // bytes that did not exist before hold nothing of the neighbour
      size_t us = n == p ? 0 : to;
      for (size_t i = from + 32; i < us; i++)
        VH_CHECK(dfsan_read_label(n + i, 1) == 0 || n == p, "realloc %zu to %zu: new byte %zu carries label %u", from, to, i,
                 dfsan_read_label(n + i, 1));
    }
    dfsan_set_label(0, n, to);
    free(n);
    if (q) {
      dfsan_set_label(0, q, 64);
      free(q);
    }
    break;
  }
  case 1: { // realloc that fails keeps the block
    size_t from = SZ[a[1]];
    uint8_t *p = (uint8_t *)malloc(from);
    for (size_t i = 0; i < from; i++) {
      p[i] = i;
      dfsan_set_label(lb(i), p + i, 1);
    }
    size_t huge = a[2] == 0 ? PTRDIFF_MAX : a[2] == 1 ? SIZE_MAX : SIZE_MAX / 2 - 4096;
    errno = 0;
    void *n = __dfsw_realloc(p, huge, 0, 0, &r);
    VH_CHECK(!n && errno == ENOMEM, "realloc of an impossible size: result %p, errno %d", n, errno);
    r.check("realloc");
    for (size_t i = 0; i < from; i++)
      VH_CHECK(p[i] == (uint8_t)i && (!g_labels || dfsan_read_label(p + i, 1) == lb(i)), "realloc that failed changed the block");
    dfsan_set_label(0, p, from);
    free(p);
    break;
  }
  case 2: { // realloc(NULL, n) is malloc, realloc(p, 0) frees
    void *n = __dfsw_realloc(nullptr, SZ[a[1]], 0, 0, &r);
    VH_CHECK(n, "realloc(NULL, %zu) failed", SZ[a[1]]);
    r.check("realloc");
    RL r2;
    VH_CHECK(!__dfsw_realloc(n, 0, 0, 0, &r2), "realloc(p, 0) returned a block");
    r2.check("realloc");
    break;
  }
  case 3: { // calloc delivers zero bytes without taint
    size_t nm = SZ[a[1]];
    size_t sz = a[2];
    void *o = calloc(nm * sz + 1, 1);
    dfsan_set_label(L(3), o, nm * sz + 1);
    free(o);
    uint8_t *n = (uint8_t *)__dfsw_calloc(nm, sz, arg_label(0), arg_label(1), &r);
    VH_CHECK(n || !sz, "calloc failed");
    r.check("calloc");
    for (size_t i = 0; i < nm * sz; i++) {
      VH_CHECK(n[i] == 0, "calloc: byte %zu is not zero", i);
      if (g_labels)
        VH_CHECK(dfsan_read_label(n + i, 1) == 0, "calloc: byte %zu carries a stale label", i);
    }
    dfsan_set_label(0, o, nm * sz + 1);
    free(n);
    break;
  }
  case 4: { // calloc that fails
    size_t nm[] = {SIZE_MAX / 2, SIZE_MAX, 1ull << 62, 1ull << 32}, sz[] = {4, 2, 4, 1ull << 32};
    errno = 0;
    void *n = __dfsw_calloc(nm[a[1]], sz[a[1]], 0, 0, &r);
    VH_CHECK(!n && errno == ENOMEM, "calloc of an impossible size: result %p errno %d", n, errno);
    r.check("calloc");
    break;
  }
  case 5: { // malloc, free
    void *n = __dfsw_malloc(SZ[a[1]], arg_label(0), &r);
    VH_CHECK(n && malloc_usable_size(n) >= SZ[a[1]], "malloc failed");
    r.check("malloc");
    __dfsw_free(n, 0);
    __dfsw_free(nullptr, 0);
    RL r2;
    errno = 0;
    n = __dfsw_malloc(PTRDIFF_MAX, 0, &r2);
    VH_CHECK(!n && errno == ENOMEM, "malloc of an impossible size");
    r2.check("malloc");
    break;
  }
  }
  vh::st().nontrivial++;
}
static void gen_alloc(const Visit &v) {
  int n = sizeof SZ / sizeof *SZ;
  for (int f = 0; f < n; f++) {
    for (int t = 0; t < n; t++)
      for (int s = 0; s < 3; s++)
        for (int q = 0; q < 2; q++)
          v({0, f, t, s, q});
    for (int h = 0; h < 3; h++)
      for (int s = 0; s < 3; s++)
        v({1, f, h, s, 0});
    v({2, f, 0, 0, 0});
    for (int z = 0; z < 3; z++)
      v({3, f, z, 0, 0});
    v({5, f, 0, 0, 0});
  }
  for (int k = 0; k < 4; k++)
    v({4, k, 0, 0, 0});
}

// Large copies and fills: whole pages of labels.
static void run_big(const int *a) {
  setup();
  g_scheme = DISTINCT;
  static uint8_t *s = nullptr, *d = nullptr;
  const size_t N = 1 << 17;
  if (!s) {
    s = (uint8_t *)::mmap(nullptr, N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    d = (uint8_t *)::mmap(nullptr, N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  }
  size_t len = a[1], off = a[2], soff = a[3];
  const size_t M = std::max(off, soff) + len + 1100; // bytes looked at
  auto dv = [](size_t i) -> uint8_t { return i * 13 + (i >> 8) + 9; };
  auto sv = [](size_t i) -> uint8_t { return i * 11 + (i >> 8) + 3; };
  std::vector<lab> ls(M), ldv(M);
  for (size_t i = 0; i < M; i++) {
    s[i] = sv(i);
    d[i] = dv(i);
    ls[i] = (i / 5) % 3 ? L((i * 7) % NL) : 0;
    ldv[i] = i % 7 ? L((i * 3) % NL) : 0;
    dfsan_set_label(ls[i], s + i, 1);
    dfsan_set_label(ldv[i], d + i, 1);
  }
  RL r;
  switch (a[0]) {
  case 0:
    __dfsw_memcpy(d + off, s + soff, len, 0, 0, 0, &r);
    break;
  case 1:
    __dfsw_memset(d + off, 0, len, 0, 0, 0, &r);
    break;
  case 2:
    __dfsw_memset(d + off, 0x41, len, 0, L(50), 0, &r);
    break;
  case 3:
    __dfsw_memmove(d + off, d + soff, len, 0, 0, 0, &r);
    break;
  }
  r.check("call");
  for (size_t i = 0; i < M; i++) {
    bool in = i >= off && i < off + len;
    uint8_t wb = !in ? dv(i) : a[0] == 0 ? sv(soff + i - off) : a[0] == 1 ? 0 : a[0] == 2 ? 0x41 : dv(soff + i - off);
    lab wl = !in ? ldv[i] : a[0] == 0 ? ls[soff + i - off] : a[0] == 1 ? 0 : a[0] == 2 ? L(50) : ldv[soff + i - off];
    if (!g_labels)
      VH_CHECK(d[i] == wb, "byte %zu is 0x%02x instead of 0x%02x", i, d[i], wb);
    else
      VH_CHECK(dfsan_read_label(d + i, 1) == wl, "byte %zu carries label %u instead of %u", i, dfsan_read_label(d + i, 1), wl);
  }
  vh::st().nontrivial++;
}
static void gen_big(const Visit &v) {
  auto all = [&](int len, std::initializer_list<int> offs, std::initializer_list<int> soffs) {
    for (int op = 0; op < 4; op++)
      for (int off : offs)
        for (int soff : soffs)
          if (op == 0 || op == 3 || soff == 0)
            v({op, len, off, soff});
  };
  for (int len = 25; len <= (T() ? 1500 : 600); len++)
    all(len, {0, 1, 40}, {0, 3});
  for (int len : {100, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 9215, 9216, 9217, 9218, 10240, 16384, 32767, 32768,
                  32769, 40000, 65535, 65536, 65537})
    all(len, {0, 1, 1023, 1024, 1025}, {0, 1, 1024});
}

// Long numerals: k spaces, zeros or digits before, inside or after the number.
enum { N_SPACES, N_ZEROS, N_DIGITS, N_FRACTION, N_TRAIL, N_EXP0, NNUMLONG };
static void run_num(const int *a) {
  setup();
  static const char *FN[] = {"strtol", "strtoll", "strtoul", "strtoull", "strtod"};
  int fn = a[0], shape = a[1], k = a[2];
  std::string s = shape == N_SPACES     ? std::string(k, ' ') + "12,"
                  : shape == N_ZEROS    ? std::string(k, '0') + "12,"
                  : shape == N_DIGITS   ? std::string(k, '3') + ","
                  : shape == N_FRACTION ? "0." + std::string(k, '1') + ","
                  : shape == N_TRAIL    ? "5," + std::string(k, '7')
                                        : "1e" + std::string(k, '0') + "2,";
  g_what = std::string(FN[fn]) + " of a numeral of " + std::to_string(s.size()) + " bytes";
  std::vector<char> buf(s.begin(), s.end());
  buf.push_back(0);
  char *p = buf.data();
  std::vector<lab> ls(buf.size());
  for (size_t i = 0; i < buf.size(); i++) {
    ls[i] = i % 5 == 2 ? 0 : L(i % 200);
    dfsan_set_label(ls[i], p + i, 1);
  }
  RL r;
  char *e1 = nullptr, *e2 = nullptr;
  unsigned long long x = 0, y = 0;
  double dx = 0, dy = 0;
  lab lb = L(201);
  errno = 0;
  switch (fn) {
  case 0: x = __dfsw_strtol(p, &e1, 10, 0, 0, lb, &r); break;
  case 1: x = __dfsw_strtoll(p, &e1, 10, 0, 0, lb, &r); break;
  case 2: x = __dfsw_strtoul(p, &e1, 10, 0, 0, lb, &r); break;
  case 3: x = __dfsw_strtoull(p, &e1, 10, 0, 0, lb, &r); break;
  case 4: dx = __dfsw_strtod(p, &e1, 0, 0, &r); break;
  }
  int er1 = errno;
  errno = 0;
  switch (fn) {
  case 0: y = strtol(p, &e2, 10); break;
  case 1: y = strtoll(p, &e2, 10); break;
  case 2: y = strtoul(p, &e2, 10); break;
  case 3: y = strtoull(p, &e2, 10); break;
  case 4: dy = strtod(p, &e2); break;
  }
  same(er1, errno, "errno");
  same(x, y);
  if (!g_labels)
    VH_CHECK(!memcmp(&dx, &dy, sizeof dx), "%s: result is %g, the library gives %g", g_what.c_str(), dx, dy);
  same((long)(e1 - p), (long)(e2 - p), "end pointer");
  r.check(g_what.c_str());
  if (g_labels) {
    std::set<int> must, may;
    for (long i = 0; i <= e2 - p; i++)
      for (int b : bytes_of(ls[i])) {
        may.insert(b);
        if (i < e2 - p && p[i] != ' ')
          must.insert(b);
      }
    if (fn < 4)
      must.insert(201), may.insert(201);
    auto got = bytes_of(r.v);
    for (int b : must)
      VH_CHECK(got.count(b), "%s: the number lacks input byte %d it was read from", g_what.c_str(), b);
    for (int b : got)
      VH_CHECK(may.count(b), "%s: the number carries input byte %d it does not depend on", g_what.c_str(), b);
  }
  dfsan_set_label(0, p, buf.size());
  vh::st().nontrivial++;
}
static void gen_num(const Visit &v) {
  std::set<int> n;
  for (int i = 1; i <= (T() ? 4000 : 600); i++)
    n.insert(i);
  for (int k = 8; k <= 13; k++)
    for (int d = -1; d <= 1; d++)
      n.insert((1 << k) + d);
  for (int fn = 0; fn < 5; fn++)
    for (int sh = 0; sh < NNUMLONG; sh++)
      for (int k : n)
        v({fn, sh, k});
}

// One directive of every shape: flags, width, precision, length, conversion.
template <class Fp, size_t... I, class... Pre>
static int wcall_(Fp f, const long *g, double d, std::index_sequence<I...>, Pre... pre) {
  return f(pre..., g[I]..., d);
}
// The same with a long double after the first `stars` arguments (it takes its turn on the stack).
template <class Fp, class... Pre> static int lcall_(Fp f, const long *g, int stars, long double d, Pre... pre) {
  return stars == 0 ? f(pre..., d, g[0]) : stars == 1 ? f(pre..., g[0], d, g[1]) : f(pre..., g[0], g[1], d, g[2]);
}
static const char *D_FLAGS[] = {"", "-", "0", "+", " ", "#", "-+", "0#", "+0", "-#", "'"};
static const char *D_WIDTH[] = {"", "1", "2", "12", "70", "300", "*", "*-"}; // *-: a negative argument
static const char *D_PREC[] = {"", ".", ".0", ".1", ".7", ".19", ".280", ".*", ".*-"};
static const char *D_LEN[] = {"", "hh", "h", "l", "ll", "q", "j", "z", "t", "L"};
static const char D_CONV[] = "diouxXcpaAeEfFgGs";
static const long D_INT[] = {0, 5, -7, 123456789012345};
static const double D_DBL[] = {0, -1.5, 123456.789, 1e300};
static const int NDF = 11, NDW = 8, NDP = 9, NDL = 10, NDC = sizeof D_CONV - 1;
static bool d_float(char c) { return strchr("aAeEfFgG", c); }
static bool d_ok(int f, int w, int p, int l, int c) {
  (void)w;
  char ch = D_CONV[c];
  if (ch == 's' || ch == 'c' || ch == 'p') {
    if (l || (*D_FLAGS[f] && strcmp(D_FLAGS[f], "-")))
      return false;
    return ch == 's' || !p;
  }
  if (d_float(ch))
    return l == 0 || l == 3 || l == 9;
  if (strchr(D_FLAGS[f], '#') && strchr("diu", ch))
    return false;
  if (strchr(D_FLAGS[f], '\'') && !strchr("diu", ch))
    return false;
  return true;
}
static std::string d_fmt(const int *a) {
  std::string w = D_WIDTH[a[1]], p = D_PREC[a[2]];
  if (w == "*-")
    w = "*";
  if (p == ".*-")
    p = ".*";
  return std::string("a%") + D_FLAGS[a[0]] + w + p + D_LEN[a[3]] + D_CONV[a[4]] + "b%s";
}
static void run_dir(const int *a) {
  setup();
  static uint8_t *d = nullptr, *e, *str;
  const int N = 1200;
  if (!d) {
    d = (uint8_t *)calloc(3, N);
    e = d + N;
    str = e + N;
  }
  std::string f = d_fmt(a), wd = D_WIDTH[a[1]], pr = D_PREC[a[2]];
  char ch = D_CONV[a[4]];
  int val = a[5], bound = a[6];
  // arguments
  std::vector<long> g;
  std::vector<lab> va;
  int width = wd == "*" ? 11 : wd == "*-" ? -11 : atoi(wd.c_str());
  int prec = pr == ".*" ? 3 : pr == ".*-" ? -3 : pr.empty() ? -1 : atoi(pr.c_str() + 1);
  if (wd[0] == '*')
    g.push_back(width), va.push_back(L(210));
  if (pr.size() > 1 && pr[1] == '*')
    g.push_back(prec), va.push_back(L(211));
  static const char *STRS[] = {"", "xyz", "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789", "\xff%d\x80"};
  double fl = 0;
  int stars = g.size();
  bool ld = d_float(ch) && a[3] == 9;
  if (ch == 's') {
    strcpy((char *)str + 100, STRS[val]);
    for (int i = 0; i < 90; i++)
      dfsan_set_label(i % 4 == 3 ? 0 : L(i), str + 100 + i, 1);
    g.push_back((long)(str + 100));
  } else if (d_float(ch))
    fl = D_DBL[val];
  else
    g.push_back(ch == 'c' ? (D_INT[val] & 0x7f) | 0x40 : D_INT[val]);
  va.push_back(L(212));
  strcpy((char *)str, "TAIL");
  for (int i = 0; i < 5; i++)
    dfsan_set_label(L(220 + i), str + i, 1);
  g.push_back((long)str);
  va.push_back(L(213));
  va.resize(8);
  g.resize(6);
  char one[700];
  auto call = [&](auto fn, auto... pre) {
    return ld ? lcall_(fn, g.data(), stars, (long double)fl, pre...) : wcall_(fn, g.data(), fl, std::make_index_sequence<6>(), pre...);
  };
  int n1 = call(snprintf, one, sizeof one, f.substr(1, f.size() - 4).c_str());
  VH_CHECK(n1 >= 0 && n1 < (int)sizeof one, "harness: directive");
  int full = n1 + 6; // a, directive, b, TAIL
  int size = bound == 0 ? full + 1 : bound == 1 ? full : bound == 2 ? n1 + 1 : bound == 3 ? n1 + 3 : bound == 4 ? n1 / 2 + 1 : 1;
  if (size < 1)
    size = 1;
  for (int i = 0; i < N; i++) {
    d[i] = e[i] = 0x5a;
    if (dfsan_read_label(d + i, 1) != L(230))
      dfsan_set_label(L(230), d + i, 1);
  }
  g_what = "snprintf(" + std::to_string(size) + ", \"" + f + "\")";
  RL r;
  int x = bound == 6 ? call(__dfsw_sprintf, (char *)d, f.c_str(), L(214), L(216), va.data(), &r)
                     : call(__dfsw_snprintf, (char *)d, (size_t)size, f.c_str(), L(214), L(215),
                              L(216), va.data(), &r);
  int y = bound == 6 ? call(sprintf, (char *)e, f.c_str())
                     : call(snprintf, (char *)e, (size_t)size, f.c_str());
  VH_CHECK(y == full, "harness: %s formats %d bytes, %d expected", f.c_str(), y, full);
  if (bound == 6)
    size = full + 1;
  same(x, y);
  r.check(g_what.c_str());
  if (!g_labels)
    VH_CHECK(!memcmp(d, e, N), "%s: leaves other bytes than the library", g_what.c_str());
  else {
    int shown = std::min(full, size - 1);
    int sn = ch == 's' ? (prec >= 0 ? (int)strnlen((char *)str + 100, prec) : (int)strlen((char *)str + 100)) : 0;
    bool left = strchr(D_FLAGS[a[0]], '-') || width < 0;
    int sb = left ? 1 : 1 + n1 - sn; // where the characters of the string start
    for (int i = 0; i < N; i++) {
      lab w = i > shown    ? L(230)
              : i == shown ? 0
              : i == 0     ? 0
              : i <= n1    ? (ch == 's' ? (i >= sb && i < sb + sn ? ((i - sb) % 4 == 3 ? 0 : L(i - sb)) : 0) : L(212))
              : i == n1 + 1 ? 0
                            : L(220 + i - n1 - 2);
      lab got = dfsan_read_label(d + i, 1);
      VH_CHECK(got == w, "%s: byte %d carries label %u instead of %u", g_what.c_str(), i, got, w);
    }
    VH_CHECK(r.v == 0, "%s: the result carries a label", g_what.c_str());
  }
  vh::st().nontrivial++;
}
static void gen_dir(const Visit &v) {
  for (int f = 0; f < NDF; f++)
    for (int w = 0; w < NDW; w++)
      for (int p = 0; p < NDP; p++)
        for (int l = 0; l < NDL; l++)
          for (int c = 0; c < NDC; c++)
            if (d_ok(f, w, p, l, c))
              for (int val = 0; val < 4; val++) {
                if (val == 3 && d_float(D_CONV[c]) && strchr("fF", D_CONV[c]) && p == 6)
                  continue; // longer than the harness buffer
                for (int b = 0; b < 7; b++)
                  v({f, w, p, l, c, val, b});
              }
}

// Long format strings: k bytes of literal text, or k directives.
template <size_t... I, class Fp, class... Pre> static int many_(Fp f, std::index_sequence<I...>, const long *g, Pre... pre) { return f(pre..., g[I]...); }
static void run_flong(const int *a) {
  setup();
  const int N = 70000;
  static uint8_t *d = nullptr, *e;
  if (!d)
    d = (uint8_t *)calloc(N, 1), e = (uint8_t *)calloc(N, 1);
  int kind = a[0], k = a[1], cut = a[2];
  std::string f;
  std::vector<long> g;
  std::vector<lab> va, want;
  if (kind == 0) { // literal text around one directive
    f = std::string(k, 'q') + "%d" + std::string(k / 2, 'r') + "%c";
    g = {-42, 'Z'};
    va = {L(3), L(4)};
    want.insert(want.end(), k, 0);
    want.insert(want.end(), 3, L(3));
    want.insert(want.end(), k / 2, 0);
    want.push_back(L(4));
  } else if (kind == 1) { // many directives
    for (int i = 0; i < k; i++) {
      f += i % 3 == 1 ? "%c" : i % 3 == 2 ? ".%3d" : "%x";
      g.push_back(i % 3 == 1 ? 'A' + i % 26 : i);
      va.push_back(i % 5 == 4 ? 0 : L(i));
      char b[20];
      if (i % 3 == 2)
        want.push_back(0);
      int n = i % 3 == 1 ? 1 : i % 3 == 2 ? 3 : snprintf(b, sizeof b, "%x", i);
      want.insert(want.end(), n, va.back());
    }
  } else { // padding of k bytes
    f = "<%*d>";
    g = {k, 17};
    va = {L(5), L(6)};
    want.push_back(0);
    want.insert(want.end(), std::max(k, 2), L(6));
    want.push_back(0);
  }
  int full = want.size(), size = cut == 0 ? full + 1 : cut == 1 ? full : full / 2 + 1, M = full + 40;
  g.resize(120);
  va.resize(120);
  for (int i = 0; i < M; i++) {
    d[i] = e[i] = 0x5a;
    dfsan_set_label(L(230), d + i, 1);
  }
  g_what = "snprintf with a long format";
  RL r;
  using Seq = std::make_index_sequence<120>;
  int x = many_(__dfsw_snprintf, Seq(), g.data(), (char *)d, (size_t)size, f.c_str(), 0u, 0u, 0u, va.data(), &r);
  int y = many_(snprintf, Seq(), g.data(), (char *)e, (size_t)size, f.c_str());
  VH_CHECK(y == full, "harness: long format %d, expected %d", y, full);
  same(x, y);
  r.check(g_what.c_str());
  if (!g_labels)
    VH_CHECK(!memcmp(d, e, M), "%s: leaves other bytes than the library", g_what.c_str());
  else
    for (int i = 0; i < M; i++) {
      lab w = i >= size ? L(230) : i >= std::min(full, size - 1) ? 0 : want[i], got = dfsan_read_label(d + i, 1);
      VH_CHECK(got == w, "%s: byte %d carries label %u instead of %u", g_what.c_str(), i, got, w);
    }
  vh::st().nontrivial++;
}
static void gen_flong(const Visit &v) {
  std::set<int> n;
  for (int i = 1; i <= (T() ? 1500 : 300); i++)
    n.insert(i);
  for (int k = 9; k <= 15; k++)
    for (int d = -1; d <= 1; d++)
      n.insert((1 << k) + d);
  for (int kind = 0; kind < 3; kind++)
    for (int k : n)
      for (int c = 0; c < 3; c++)
        if (kind != 1 || k <= 120)
          v({kind, k, c});
}

// Long strings: one call of every string function at every length.
enum { L_CPY, L_CAT, L_CAT2, L_NCPY, L_NCPY2, L_DUP, L_LEN, L_CHR, L_RCHR, L_MCHR, L_STR, L_PBRK, L_MCMP, L_BCMP, L_CMP, L_NCMP,
       L_CASE, L_NCASE, L_SPRINTF, L_SNPRINTF, NLONG };
static const char *LONGN[] = {"strcpy", "strcat", "strcat to a long string", "strncpy (exact)", "strncpy (padding)", "strdup", "strlen",
                              "strchr", "strrchr", "memchr", "strstr", "strpbrk", "memcmp", "bcmp", "strcmp", "strncmp",
                              "strcasecmp", "strncasecmp", "sprintf(\"%s\")", "snprintf(\"%s\") cut short"};
static void run_long(const int *a) {
  setup();
  const size_t N = (1 << 16) + 700;
  static uint8_t *s = nullptr, *d = nullptr;
  if (!s) {
    s = (uint8_t *)::mmap(nullptr, N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    d = (uint8_t *)::mmap(nullptr, N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  }
  int op = a[0];
  size_t n = a[1], at = op == L_CAT ? 3 : op == L_CAT2 ? 300 : 0, pad = op == L_NCPY2 ? 20 : 0;
  size_t M = n + at + pad + 40; // bytes looked at
  std::vector<lab> ls(M), ld(M);
  g_what = LONGN[op];
  bool cmp = op >= L_MCMP && op <= L_NCASE;
  for (size_t i = 0; i < M; i++) {
    s[i] = i < n ? 1 + i % 250 : 0;
    d[i] = cmp ? s[i] : i < at ? 'd' : 0x5a;
    ls[i] = i % 7 ? L(i % NL) : 0;
    ld[i] = i % 3 ? L((i * 5 + 11) % NL) : 0;
    if (g_loose) { // labels that tell the first and the last bytes apart
      size_t t = n - i;
      ls[i] = t < 60 ? L(60 + t) : i < 60 ? L(i) : 0;
      ld[i] = t < 40 ? L(120 + t) : i < 40 ? L(160 + i) : 0;
    }
    dfsan_set_label(ls[i], s + i, 1);
    dfsan_set_label(ld[i], d + i, 1);
  }
  if (op == L_CAT || op == L_CAT2)
    d[at] = 0;
  if (op == L_CHR || op == L_MCHR)
    s[n - 1] = 253;
  if (op == L_STR || op == L_PBRK)
    s[n - 1] = 254;
  if (cmp && a[2])
    d[n - 1] = a[2] > 0 ? 255 : 251;
  std::vector<uint8_t> wd(d, d + M);
  std::vector<lab> wl = ld;
  RL r;
  char *S = (char *)s, *D = (char *)d, *X = nullptr;
  long x = 0, y = 0;
  lab l0 = L(200), l1 = L(201), l2 = L(202);
  auto copied = [&](size_t to, size_t len) {
    for (size_t i = 0; i < len; i++)
      wd[to + i] = s[i], wl[to + i] = ls[i];
  };
  switch (op) {
  case L_CPY: x = __dfsw_strcpy(D, S, l0, l1, &r) == D, y = 1, copied(0, n + 1); break;
  case L_CAT: case L_CAT2: x = __dfsw_strcat(D, S, l0, l1, &r) == D, y = 1, copied(at, n + 1); break;
  case L_NCPY: x = __dfsw_strncpy(D, S, n, l0, l1, l2, &r) == D, y = 1, copied(0, n); break;
  case L_NCPY2:
    x = __dfsw_strncpy(D, S, n + pad, l0, l1, l2, &r) == D, y = 1, copied(0, n + 1);
    for (size_t i = n + 1; i < n + pad; i++)
      wd[i] = 0, wl[i] = ~0u; // padding: any label is accepted here
    break;
  case L_DUP:
    X = __dfsw_strdup(S, l0, &r);
    for (size_t i = 0; i <= n; i++) {
      same((int)(uint8_t)X[i], (int)s[i], "a byte of the copy");
      if (g_labels)
        VH_CHECK(dfsan_read_label(X + i, 1) == ls[i], "strdup: byte %zu carries label %u instead of %u", i, dfsan_read_label(X + i, 1), ls[i]);
    }
    free(X);
    break;
  case L_LEN: x = __dfsw_strlen(S, l0, &r), y = n; break;
  case L_CHR: X = __dfsw_strchr(S, 253, l0, l1, &r), x = X ? X - S : -1, y = n - 1; break;
  case L_RCHR: X = __dfsw_strrchr(S, 1, l0, l1, &r), x = X ? X - S : -1, y = (n - 1) / 250 * 250; break;
  case L_MCHR: X = (char *)__dfsw_memchr(S, 253, n, l0, l1, l2, &r), x = X ? X - S : -1, y = n - 1; break;
  case L_STR: X = __dfsw_strstr(S, (char *)"\xfe", l0, l1, &r), x = X ? X - S : -1, y = n - 1; break;
  case L_PBRK: X = __dfsw_strpbrk(S, "\xfd\xfe", l0, l1, &r), x = X ? X - S : -1, y = n - 1; break;
  case L_MCMP: x = sgn(__dfsw_memcmp(S, D, n, l0, l1, l2, &r)), y = sgn(memcmp(S, D, n)); break;
  case L_BCMP: x = !!__dfsw_bcmp(S, D, n, l0, l1, l2, &r), y = !!memcmp(S, D, n); break;
  case L_CMP: x = sgn(__dfsw_strcmp(S, D, l0, l1, &r)), y = sgn(strcmp(S, D)); break;
  case L_NCMP: x = sgn(__dfsw_strncmp(S, D, n, l0, l1, l2, &r)), y = sgn(strncmp(S, D, n)); break;
  case L_CASE: x = sgn(__dfsw_strcasecmp(S, D, l0, l1, &r)), y = sgn(strcasecmp(S, D)); break;
  case L_NCASE: x = sgn(__dfsw_strncasecmp(S, D, n, l0, l1, l2, &r)), y = sgn(strncasecmp(S, D, n)); break;
  case L_SPRINTF: {
    lab va[1] = {l2};
    x = __dfsw_sprintf(D, "%s", 0, 0, va, &r, S), y = n, copied(0, n + 1), wl[n] = ~0u;
    break;
  }
  case L_SNPRINTF: {
    lab va[1] = {l2};
    x = __dfsw_snprintf(D, n, "%s", 0, 0, 0, va, &r, S), y = n, copied(0, n - 1), wd[n - 1] = 0, wl[n - 1] = ~0u;
    break;
  }
  }
  same(x, y);
  r.check(g_what.c_str());
  if (g_labels && g_loose && op >= L_LEN && op <= L_NCASE) {
    size_t es = op == L_LEN || op == L_RCHR || ((op == L_CMP || op == L_CASE) && !a[2]) ? n + 1 : n;
    std::set<int> must, may;
    for (size_t i = 0; i < es; i++) {
      for (int b : bytes_of(ls[i]))
        must.insert(b);
      if (cmp)
        for (int b : bytes_of(ld[i]))
          must.insert(b);
    }
    may = must;
    for (int b : {200, 201, 202})
      may.insert(b);
    auto got = bytes_of(r.v);
    for (int b : must)
      VH_CHECK(got.count(b), "%s on %zu bytes: the result lacks input byte %d, which decides it", g_what.c_str(), n, b);
    for (int b : got)
      VH_CHECK(may.count(b), "%s on %zu bytes: the result carries input byte %d, which does not decide it", g_what.c_str(), n, b);
  }
  for (size_t i = 0; i < M; i++) {
    if (!g_labels)
      VH_CHECK(d[i] == wd[i], "%s: byte %zu is 0x%02x instead of 0x%02x", g_what.c_str(), i, d[i], wd[i]);
    else if (wl[i] != ~0u)
      VH_CHECK(dfsan_read_label(d + i, 1) == wl[i], "%s: byte %zu carries label %u instead of %u", g_what.c_str(), i, dfsan_read_label(d + i, 1), wl[i]);
    if (g_labels)
      VH_CHECK(dfsan_read_label(s + i, 1) == ls[i], "%s: byte %zu of the source carries label %u instead of %u", g_what.c_str(), i, dfsan_read_label(s + i, 1), ls[i]);
  }
  vh::st().nontrivial++;
}
static void gen_long(const Visit &v) {
  std::set<int> n;
  for (int i = 1; i <= (T() ? 1500 : 600); i++)
    n.insert(i);
  for (int k = 9; k <= 16; k++)
    for (int d = -1; d <= 1; d++)
      n.insert((1 << k) + d);
  for (int op = 0; op < NLONG; op++)
    for (int i : n) {
      v({op, i, 0});
      if (op >= L_MCMP && op <= L_NCASE)
        v({op, i, 1}), v({op, i, -1});
    }
}

int main(int argc, char **argv) {
  add_fns();
  std::vector<vh::Suite> S;
  for (int lb = 0; lb < 2; lb++) {
    std::string pre = lb ? "c19_" : "c20_";
    auto group = [&](const std::string &name, std::vector<std::string> fns, const char *rule) {
      vh::Suite s;
      s.name = pre + name;
      s.rule = rule;
      auto in = [fns](const Fn &f) {
        return std::find(fns.begin(), fns.end(), std::string(f.name)) != fns.end();
      };
      s.gen = [in, lb](const Visit &v) {
        for (size_t i = 0; i < F.size(); i++)
          if (in(F[i]))
            F[i].gen([&](std::vector<int> a) {
              for (int k = 0; k < (lb ? F[i].schemes : 1); k++) {
                Case c{(int)i, k};
                c.insert(c.end(), a.begin(), a.end());
                v(c);
              }
            });
      };
      s.run = [lb](const Case &c) {
        g_labels = lb;
        g_what = F[c[0]].name;
        begin(c[1]);
        F[c[0]].run(c.data() + 2);
        finish();
      };
      s.describe = [](const Case &c) {
        std::string o = std::string(F[c[0]].name) + " label scheme " + std::to_string(c[1]) + " arguments";
        for (size_t i = 2; i < c.size(); i++)
          o += " " + std::to_string(c[i]);
        return o;
      };
      S.push_back(s);
    };
    group("copy", {"memcpy", "memmove", "memmove (overlapping)", "memset", "strcpy", "strcat", "strncpy", "strdup"},
          "every function, label pattern, length, offset, overlap and small string over {a,b,0xff}");
    group("search", {"strlen", "strchr", "strrchr", "memchr", "strstr", "strpbrk"}, "every small string and search argument");
    group("compare", {"memcmp", "bcmp", "strcmp", "strncmp", "strcasecmp", "strncasecmp"},
          "every pair of small strings over ordinary, upper-case and high bytes and every limit");
    group("convert", {"strtol", "strtoll", "strtoul", "strtoull", "strtod"}, "every numeral of the list with every base");
    vh::Suite f;
    f.name = pre + "format";
    f.rule = "every sequence of up to 2 (results, and thorough labels: 3) format pieces out of 59, unbounded and with bounds 0-10, 12 and 40";
    f.gen = [lb](const Visit &v) {
      auto sizes = [&](std::vector<int> seq) {
        for (int size : {-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 40})
          for (int k = 0; k < (lb ? (seq.size() > 1 && !vh::g_thorough ? 2 : NSCHEME) : 1); k++) {
            Case c{k, size};
            c.insert(c.end(), seq.begin(), seq.end());
            v(c);
          }
      };
      sizes({});
      for (int i = 0; i < NPIECE; i++) {
        sizes({i});
        for (int j = 0; j < NPIECE; j++) {
          sizes({i, j});
          if (!lb || vh::g_thorough)
            for (int k = 0; k < NPIECE; k++)
              sizes({i, j, k});
        }
      }
    };
    f.run = [lb](const Case &c) {
      g_labels = lb;
      begin(c[0]);
      std::string s;
      for (size_t i = 2; i < c.size(); i++)
        s += PIECES[c[i]].fmt;
      g_what = (c[1] < 0 ? "sprintf(\"" : "snprintf(" + std::to_string(c[1]) + ", \"") + s + "\")";
      if (run_fmt(c.data() + 1, c.size() - 1))
        finish();
    };
    f.describe = [](const Case &c) {
      std::string s;
      for (size_t i = 2; i < c.size(); i++)
        s += PIECES[c[i]].fmt;
      return "format '" + s + "' bound " + std::to_string(c[1]) + " label scheme " + std::to_string(c[0]);
    };
    S.push_back(f);
    S.push_back({pre + "alloc", "every pair of block sizes for realloc (moving and in place), failing and zero-sized requests, calloc over labelled memory",
                 gen_alloc, [lb](const Case &c) {
                   g_labels = lb;
                   run_alloc(c.data());
                 }});
    S.push_back({pre + "long", "every string function on strings of every length up to 600 (thorough 1500) and around every power of two up to 2^16", gen_long, [lb](const Case &c) {
                   g_labels = lb;
                   run_long(c.data());
                 }});
    S.push_back({pre + "num", "every conversion of numerals with every number (up to 600, thorough 4000, and around powers of two up to 2^13) of spaces, zeros, digits or exponent zeros",
                 gen_num, [lb](const Case &c) {
                   g_labels = lb;
                   run_num(c.data());
                 }});
    S.push_back({pre + "dir", "one directive of every shape: 11 flag sets x 8 widths x 9 precisions x 10 lengths x 17 conversions x 4 values, bounds cutting before, inside and after it",
                 gen_dir, [lb](const Case &c) {
                   g_labels = lb;
                   run_dir(c.data());
                 }, false, 30, [](const Case &c) {
                   return "format '" + d_fmt(c.data()) + "' value " + std::to_string(c[5]) + " bound " + std::to_string(c[6]);
                 }});
    S.push_back({pre + "flong", "formats with literal text or padding of every length up to 300 (thorough 1500) and around powers of two up to 2^15, and with up to 120 directives",
                 gen_flong, [lb](const Case &c) {
                   g_labels = lb;
                   run_flong(c.data());
                 }});
    S.push_back({pre + "big", "copies and fills of every length up to 600 (thorough 1500) and of lengths and offsets around page and page-release boundaries", gen_big, [lb](const Case &c) {
                   g_labels = lb;
                   run_big(c.data());
                 }});
  }
  // the same searches and comparisons in the other mode, in a process started with that mode
  for (auto x : std::vector<vh::Suite>(S))
    if (x.name == "c19_search" || x.name == "c19_compare" || x.name == "c19_long") {
      x.name = "c19n_" + x.name.substr(4);
      x.rule += ", with results that depend on the data examined (strict_data_dependencies=0)";
      x.run = [run = x.run](const Case &c) {
        VH_CHECK(g_loose, "harness: mode");
        run(c);
      };
      S.push_back(x);
    }
  const char *o = getenv("DFSAN_OPTIONS");
  g_loose = o && strstr(o, "strict_data_dependencies=0");
  for (int i = 1; i < argc; i++)
    if (!strncmp(argv[i], "c19n_", 5) && !g_loose) {
      setenv("DFSAN_OPTIONS", "strict_data_dependencies=0", 1);
      execv("/proc/self/exe", argv);
      return 2;
    }
  return vh::main_(argc, argv, S);
}
