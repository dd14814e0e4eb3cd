// C21: label storage. Every sequence of set/add/read operations over ranges at
// byte, shadow-page and page-release boundaries is compared, byte by byte, with
// a plain array of sets of input bytes.
#include "io.h"
#include <map>

extern "C" {
lab __dfsan_union_load(const lab *, size_t);
}
static constexpr int NL = 6;
static lab g_first = 0;
static lab L(int i) { return i ? g_first + i - 1 : 0; } // L(0) is the empty label
static constexpr size_t N = 26 * 1024; // bytes under observation
static uint8_t *reg[3];                // mapping, global data, stack-like thread memory
static uint8_t g_data[N + 4096];

static void setup() {
  if (g_first)
    return;
  fixtures();
  put("labels", "abcdef");
  g_io.db = g_dir + "/m.tdag";
  unlink(g_io.db.c_str());
  setenv("POLYDB", g_io.db.c_str(), 1);
  __taint_start();
  RL r;
  lab va[1] = {0};
  int fd = __dfsw_open("labels", O_RDONLY, 0, 0, va, &r);
  static uint8_t b[NL];
  VH_CHECK(__dfsw_read(fd, b, NL, 0, 0, 0, &r) == NL, "harness: read");
  ::close(fd);
  g_first = dfsan_read_label(b, 1);
  reg[0] = (uint8_t *)::mmap(nullptr, N + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) + 4096;
  reg[1] = (uint8_t *)(((uintptr_t)g_data + 1023) & ~1023ull);
  static thread_local uint8_t tl[N + 4096];
  reg[2] = (uint8_t *)(((uintptr_t)tl + 1023) & ~1023ull);
}
static unsigned set_of(lab l) {
  static std::map<lab, unsigned> memo{{0, 0}};
  auto it = memo.find(l);
  if (it != memo.end())
    return it->second;
  static Live *live = nullptr;
  if (!live)
    live = new Live;
  unsigned m = 0;
  for (auto &[s, o] : live->t.expand(l)) {
    VH_CHECK(o < NL, "label %u denotes input byte %lu, which was never read", l, o);
    m |= 1u << o;
  }
  return memo[l] = m;
}

static const int OFF[] = {0, 1, 1023, 1024, 1025, 2047, 2048, 5000};
static const int SIZ[] = {0, 1, 2, 1023, 1024, 1025, 4096, 8191, 8192, 8193, 9215, 9216, 9217, 10239, 10240, 10241, 20480};
static const int NOFF = sizeof OFF / sizeof *OFF, NSIZ = sizeof SIZ / sizeof *SIZ;

struct World {
  uint8_t *p;
  std::vector<uint8_t> m;
  std::vector<lab> l;
  World(int r, int init) : p(reg[r]), m(N, 0), l(N, 0) {
    lab *sh = nullptr;
    (void)sh;
    dfsan_set_label(0, p, N);
    if (init == 1) {
      dfsan_set_label(L(6), p, N);
      m.assign(N, 1 << 5);
      l.assign(N, L(6));
    }
    if (init == 2)
      for (size_t i = 0; i < N; i += 512) {
        dfsan_set_label(L(5), p + i, 1);
        m[i] = 1 << 4;
        l[i] = L(5);
      }
    check("initial", -1, 0, 0);
  }
  void check(const char *op, int lb, int off, int sz) {
    for (size_t i = 0; i < N; i++) {
      lab got = dfsan_read_label(p + i, 1);
      if (got == l[i] && (got == 0) == (m[i] == 0))
        continue;
      VH_CHECK(set_of(got) == m[i], "after %s(label %d, offset %d, size %d) byte %zu carries input bytes %x instead of %x", op, lb, off,
               sz, i, set_of(got), m[i]);
      l[i] = got;
    }
  }
};
// op: kind (0 set, 1 add, 2 read, 3 union of the shadow row by read_label twice), label, offset, size
static void step(World &w, int kind, int lb, int o, int s) {
  size_t off = OFF[o], sz = SIZ[s];
  switch (kind) {
  case 0:
    dfsan_set_label(L(lb), w.p + off, sz);
    for (size_t i = off; i < off + sz; i++) {
      w.m[i] = lb ? 1 << (lb - 1) : 0;
      w.l[i] = L(lb);
    }
    w.check("set_label", lb, off, sz);
    break;
  case 1:
    dfsan_add_label(L(lb), w.p + off, sz);
    for (size_t i = off; i < off + sz; i++)
      w.m[i] |= lb ? 1 << (lb - 1) : 0;
    w.check("add_label", lb, off, sz);
    break;
  case 2: {
    unsigned want = 0;
    for (size_t i = off; i < off + sz; i++)
      want |= w.m[i];
    lab got = dfsan_read_label(w.p + off, sz);
    VH_CHECK(set_of(got) == want, "reading %zu bytes at offset %zu yields input bytes %x instead of %x", sz, off, set_of(got), want);
    w.check("read_label", 0, off, sz);
    break;
  }
  }
  vh::st().transitions++;
}
static void run(const Case &c) {
  setup();
  World w(c[0], c[1]);
  for (size_t i = 2; i + 3 < c.size(); i += 4)
    step(w, c[i], c[i + 1], c[i + 2], c[i + 3]);
  vh::st().nontrivial++;
}
static bool fits(int o, int s) { return OFF[o] + SIZ[s] <= (int)N; }
// all pairs: one set/clear/add, then one set/clear/add, then a read
static void gen_pairs(const Visit &v) {
  std::vector<std::vector<int>> rng;
  for (int o = 0; o < NOFF; o++)
    for (int s = 0; s < NSIZ; s++)
      if (fits(o, s))
        rng.push_back({o, s});
  auto thin = [&](size_t i) { return vh::g_thorough || i % 3 == 0; };
  for (int r = 0; r < 3; r++)
    for (int init = 0; init < 3; init++)
      for (auto &a : rng)
        for (int k : {0, 1})
          for (int lb : {0, 1})
            v({r, init, k, lb, a[0], a[1], 2, 0, a[0], a[1]});
  for (int init = 0; init < 3; init++)
    for (size_t i = 0; i < rng.size(); i++)
      for (size_t j = 0; j < rng.size(); j++) {
        if (!thin(i + j))
          continue;
        auto &a = rng[i], &b = rng[j];
        v({0, init, 0, 1, a[0], a[1], 0, 0, b[0], b[1], 2, 0, a[0], a[1]});
        if ((i + j) % (vh::g_thorough ? 1 : 2) == 0) {
          v({0, init, 1, 1, a[0], a[1], 1, 2, b[0], b[1], 2, 0, b[0], b[1]});
          v({0, init, 0, 0, a[0], a[1], 1, 2, b[0], b[1], 2, 0, a[0], a[1]});
        }
      }
}
// all sequences of small operations
static void gen_seq(const Visit &v) {
  int depth = vh::g_thorough ? 5 : 4;
  static const int R[][2] = {{0, 1}, {0, 2}, {1, 1}, {1, 2}, {2, 2}, {0, 13}};
  Case c{0, 0};
  std::function<void(int)> rec = [&](int d) {
    if (d == 0) {
      Case x = c;
      x.insert(x.end(), {2, 0, 0, 4});
      v(x);
      return;
    }
    for (auto &r : R)
      for (int k : {0, 1})
        for (int lb : {0, 1, 2}) {
          if (k == 1 && lb == 0)
            continue;
          c.insert(c.end(), {k, lb, r[0], r[1]});
          rec(d - 1);
          c.resize(c.size() - 4);
        }
  };
  rec(depth - 1);
}
// mapping and unmapping memory: fresh memory carries no label, neighbours keep theirs
static void run_map(const Case &c) {
  setup();
  size_t pg = 4096, len = c[0], at = c[1] * pg, tot = 16 * pg;
  uint8_t *p = (uint8_t *)mmap(nullptr, tot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  for (size_t i = 0; i < tot; i++)
    VH_CHECK(dfsan_read_label(p + i, 1) == 0, "fresh mapping: byte %zu carries a label", i);
  dfsan_set_label(L(2), p, tot);
  size_t up = (len + pg - 1) / pg * pg;
  if (c[2] == 0)
    VH_CHECK(munmap(p + at, len) == 0, "harness: munmap");
  else if (c[2] == 1)
    VH_CHECK(mmap(p + at, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == p + at, "harness: mmap");
  else {
    RL r;
    void *x = __dfsw_mmap(p + at, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0, 0, 0, 0, 0, 0, 0, &r);
    VH_CHECK(x == p + at, "harness: mmap");
  }
  for (size_t i = 0; i < tot; i++) {
    bool in = i >= at && i < at + up;
    lab got = dfsan_read_label(p + i, 1);
    VH_CHECK(got == (in ? 0 : L(2)), "after %s of %zu bytes at %zu byte %zu carries label %u", c[2] ? "mmap" : "munmap", len, at, i, got);
  }
  munmap(p, tot);
  vh::st().nontrivial++;
}
static void gen_map(const Visit &v) {
  for (int len : {1, 100, 4095, 4096, 4097, 8192, 8193, 12288, 20000, 32768})
    for (int at = 0; at < 8; at++)
      for (int k = 0; k < 3; k++)
        v({len, at, k});
}
// combining labels: neutral element, idempotence, exact union, on every pair
static void run_union(const Case &c) {
  setup();
  std::vector<lab> a{0};
  for (int i = 1; i <= NL; i++)
    a.push_back(L(i));
  a.push_back(dfsan_union(L(1), L(3)));
  a.push_back(dfsan_union(L(2), L(3)));
  a.push_back(dfsan_union(a[7], a[8]));
  a.push_back(dfsan_union(L(5), L(6)));
  lab x = a[c[0]], y = a[c[1]], z = a[c[2]];
  unsigned sx = set_of(x), sy = set_of(y), sz = set_of(z);
  lab u = dfsan_union(x, y);
  VH_CHECK(set_of(u) == (sx | sy), "combining labels %u and %u yields input bytes %x instead of %x", x, y, set_of(u), sx | sy);
  if (x == y || !y)
    VH_CHECK(u == x, "combining label %u with %u yields %u", x, y, u);
  if (!x)
    VH_CHECK(u == y, "combining the empty label with %u yields %u", y, u);
  if (x != y) {
    lab w = __dfsan_union(x, y);
    VH_CHECK(set_of(w) == (sx | sy), "combining labels %u and %u yields input bytes %x instead of %x", x, y, set_of(w), sx | sy);
    lab t = __polytracker_union_table(x ? x : y, y ? y : x);
    VH_CHECK(set_of(t) == (sx | sy), "the union table maps %u and %u to input bytes %x instead of %x", x, y, set_of(t), sx | sy);
  }
  lab row[4] = {x, y, z, x};
  for (int n = 1; n <= 4; n++) {
    unsigned w = 0;
    for (int i = 0; i < n; i++)
      w |= set_of(row[i]);
    lab g = __dfsan_union_load(row, n);
    VH_CHECK(set_of(g) == w, "loading a value with labels %u %u %u %u (%d bytes) yields input bytes %x instead of %x", x, y, z, x, n, set_of(g), w);
  }
  (void)sz;
  vh::st().nontrivial++;
}
static void gen_union(const Visit &v) {
  for (int i = 0; i <= 10; i++)
    for (int j = 0; j <= 10; j++)
      for (int k = 0; k <= 10; k++)
        v({i, j, k});
}

// every size of range, at every small offset
static void run_size(const Case &c) {
  setup();
  static uint8_t *base = nullptr;
  const size_t T = (1 << 20) + 65536;
  if (!base)
    base = (uint8_t *)::mmap(nullptr, T, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  size_t n = c[0], off = 4096 + c[1];
  uint8_t *p = base + off;
  const size_t G = 64; // bytes looked at on both sides
  dfsan_set_label(0, base, 4096);
  for (size_t i = 0; i < G; i++)
    dfsan_set_label(L(6), p - 1 - i, 1), dfsan_set_label(L(6), p + n + i, 1);
  auto expect = [&](unsigned in, const char *what) {
    lab last = 0;
    unsigned lm = 0;
    for (size_t i = 0; i < n; i++) {
      lab g = dfsan_read_label(p + i, 1);
      if (g != last)
        lm = set_of(g), last = g;
      VH_CHECK((g ? lm : 0) == in, "after %s of %zu bytes byte %zu carries input bytes %x instead of %x", what, n, i, g ? lm : 0, in);
    }
    for (size_t i = 0; i < G; i++)
      VH_CHECK(dfsan_read_label(p - 1 - i, 1) == L(6) && dfsan_read_label(p + n + i, 1) == L(6), "after %s of %zu bytes a byte outside changed", what, n);
    VH_CHECK(set_of(dfsan_read_label(p, n)) == in, "after %s reading %zu bytes yields input bytes %x instead of %x", what, n, set_of(dfsan_read_label(p, n)), in);
  };
  dfsan_set_label(L(1), p, n);
  expect(1, "setting a label");
  dfsan_add_label(L(2), p, n);
  expect(3, "adding a label");
  // one byte that differs is found wherever it is
  for (size_t at : {(size_t)0, n / 3, n / 2, n - 1}) {
    dfsan_set_label(0, p, n);
    dfsan_set_label(L(4), p + at, 1);
    VH_CHECK(set_of(dfsan_read_label(p, n)) == 8, "the label of byte %zu of %zu is not found", at, n);
  }
  dfsan_set_label(L(3), p, n);
  dfsan_set_label(0, p, n);
  expect(0, "clearing");
  dfsan_add_label(L(5), p, n);
  expect(16, "adding a label to clear memory");
  dfsan_set_label(0, p - G, n + 2 * G);
  for (size_t i = 0; i < n + 2 * G; i += n > 4096 ? 97 : 1)
    VH_CHECK(dfsan_read_label(p - G + i, 1) == 0, "after clearing %zu bytes byte %zu carries a label", n + 2 * G, i);
  vh::st().nontrivial++;
}
static void gen_size(const Visit &v) {
  std::set<int> n;
  for (int i = 1; i <= (vh::g_thorough ? 4200 : 1100); i++)
    n.insert(i);
  for (int k = 10; k <= 20; k++)
    for (int d = -2; d <= 2; d++)
      n.insert((1 << k) + d);
  for (int i : n)
    for (int o : {0, 1, 3, 1000})
      if (i < 70000 || o == 1 || vh::g_thorough)
        v({i, o});
}
// values of many bytes: the label of each byte counts
static void run_load(const Case &c) {
  setup();
  int n = c[0], i = c[1], j = c[2];
  std::vector<lab> row(n + 2, L(6));
  for (int k = 0; k < n; k++)
    row[k] = 0;
  row[i] = L(1);
  unsigned want = 1;
  if (j >= 0)
    row[j] = L(2), want = i == j ? 2 : 3;
  lab g = __dfsan_union_load(row.data(), n);
  VH_CHECK(set_of(g) == want, "loading a value of %d bytes with labels at %d and %d yields input bytes %x instead of %x", n, i, j, set_of(g), want);
  vh::st().nontrivial++;
}
static void gen_load(const Visit &v) {
  for (int n = 1; n <= (vh::g_thorough ? 64 : 40); n++)
    for (int i = 0; i < n; i++)
      for (int j = -1; j < n; j++)
        v({n, i, j});
  for (int n : {100, 128, 129, 255, 256, 257, 1000})
    for (int i = 0; i < n; i++)
      v({n, i, -1});
}

static std::string desc(const Case &c) {
  std::string o = "region " + std::to_string(c[0]) + " initial labels " + std::to_string(c[1]);
  static const char *K[] = {"set", "add", "read"};
  for (size_t i = 2; i + 3 < c.size(); i += 4)
    o += "; " + std::string(K[c[i]]) + " label " + std::to_string(c[i + 1]) + " offset " + std::to_string(OFF[c[i + 2]]) + " size " +
         std::to_string(SIZ[c[i + 3]]);
  return o;
}
int main(int argc, char **argv) {
  std::vector<vh::Suite> S;
  S.push_back({"c21_pairs", "every single range and pairs of ranges at shadow-page and page-release boundaries, set, cleared, added and read, on mapped, global and thread-local memory",
               gen_pairs, run, false, 30, desc});
  S.push_back({"c21_seq", "every sequence of set, clear and add over small and one releasable range", gen_seq, run, false, 30, desc});
  S.push_back({"c21_map", "every length and position of unmapping and remapping", gen_map, run_map});
  S.push_back({"c21_size", "ranges of every size up to 1100 (thorough 4200) and around powers of two up to 2^20, at four offsets", gen_size, run_size});
  S.push_back({"c21_load", "values of every size up to 40 (thorough 64) bytes with every pair of labelled bytes", gen_load, run_load});
  S.push_back({"c21_union", "every triple of eleven labels", gen_union, run_union});
  return vh::main_(argc, argv, S);
}
