// C08: every arrangement of three sections out of a palette of alignments,
// sizes and fill levels, on the real OutputFile.
#include "taintdag/outputfile.h"
#include "taintdag/error.h"
#include "taintdag/section.h"
#include "tdag.h"
#include "vh.h"
#include <array>
#include <utility>
using namespace taintdag;
using vh::Case;
using vh::Visit;

static size_t g_fill[3];
static bool g_ctor_bad;
static uint8_t *g_span[3];
static size_t g_span_n[3];

template <int Pos, size_t Align, size_t Size> struct Fake {
  static constexpr size_t allocation_size = Size;
  static constexpr size_t align_of = Align;
  static constexpr uint8_t tag = 40 + Pos * 7;
  std::span<uint8_t> rng;
  template <class OF> Fake(SectionArg<OF> a) : rng(a.range) {
    g_span[Pos] = rng.data();
    g_span_n[Pos] = rng.size();
    for (size_t i = 0; i < std::min(g_fill[Pos], rng.size()); i++)
      rng[i] = (uint8_t)(0x11 * (Pos + 1));
  }
  size_t size() const { return g_fill[Pos]; }
};

struct Pal {
  size_t al, sz;
};
#ifndef LAYOUT_PAL
#define LAYOUT_PAL {1, 1}, {1, 4096}, {2, 2}, {2, 6}, {4, 12}, {8, 8}, {8, 40}, {16, 48}, {64, 64}, {4096, 4096}
#endif
static constexpr Pal P[] = {LAYOUT_PAL};
static constexpr int NP = sizeof(P) / sizeof(P[0]);

template <int A, int B, int C> void one(const std::string &path) {
  using S0 = Fake<0, P[A].al, P[A].sz>;
  using S1 = Fake<1, P[B].al, P[B].sz>;
  using S2 = Fake<2, P[C].al, P[C].sz>;
  OutputFile<S0, S1, S2> f{path};
  (void)f.template section<S1>();
}
template <int A, int B> void two(const std::string &path) {
  using S0 = Fake<0, P[A].al, P[A].sz>;
  using S1 = Fake<1, P[B].al, P[B].sz>;
  OutputFile<S0, S1> f{path};
}
template <int A> void single(const std::string &path) {
  using S0 = Fake<0, P[A].al, P[A].sz>;
  OutputFile<S0> f{path};
}
using Fn = void (*)(const std::string &);
template <int... I> static constexpr auto table2(std::integer_sequence<int, I...>) {
  return std::array<Fn, sizeof...(I)>{&two<I / NP, I % NP>...};
}
template <int... I> static constexpr auto table1(std::integer_sequence<int, I...>) {
  return std::array<Fn, sizeof...(I)>{&single<I>...};
}
// Triples: the first two run over the palette, the third over four kinds.
static constexpr int K3[] = {0, 2, 6, 8};
template <int... I> static constexpr auto table3(std::integer_sequence<int, I...>) {
  return std::array<Fn, sizeof...(I)>{&one<I / 4 / NP, I / 4 % NP, K3[I % 4]>...};
}
static auto T1 = table1(std::make_integer_sequence<int, NP>{});
static auto T2 = table2(std::make_integer_sequence<int, NP * NP>{});
static auto T3 = table3(std::make_integer_sequence<int, NP * NP * 4>{});

static std::string path() {
  return vh::g_scratch + "/lay" + std::to_string(vh::g_worker) + (vh::g_replay ? "r" : "");
}

// case: n, palette indices, fill kinds (0 empty, 1 one byte, 2 all)
static void run(const Case &c) {
  int n = c[0];
  int idx[3];
  for (int i = 0; i < n; i++)
    idx[i] = i == 2 ? K3[c[1 + i]] : c[1 + i];
  for (int i = 0; i < 3; i++)
    g_fill[i] = 0;
  for (int i = 0; i < n; i++) {
    int k = c[1 + n + i];
    g_fill[i] = k == 0 ? 0 : k == 1 ? 1 : P[idx[i]].sz;
  }
  bool err = false;
  error_function = [&](int) {
    err = true;
    throw 1;
  };
  std::string p = path();
  unlink(p.c_str());
  try {
    if (n == 1)
      T1[c[1]](p);
    else if (n == 2)
      T2[c[1] * NP + c[2]](p);
    else
      T3[(c[1] * NP + c[2]) * 4 + c[3]](p);
  } catch (int) {
  }
  VH_CHECK(!err, "the layout was refused");
  Tdag t;
  std::string e = t.open(p);
  VH_CHECK(e.empty(), "%s", e.c_str());
  VH_CHECK(t.count == n, "section count %d instead of %d", t.count, n);
  unsigned tags = 0;
  for (int i = 0; i < n; i++)
    tags += 40 + i * 7;
  VH_CHECK(t.magic == (uint16_t)(tags ^ n), "magic %u", t.magic);
  uint64_t hdr = 8 + 24ull * n;
  for (int i = 0; i < n; i++) {
    // headers in the order of the sections
    Tdag::Sec s;
    memcpy(&s, t.m + 8 + 24 * i, 24);
    uint64_t al = P[idx[i]].al, sz = P[idx[i]].sz;
    VH_CHECK(s.tag == 40u + i * 7, "tag of section %d is %u", i, s.tag);
    VH_CHECK(s.align == al, "section %d declares alignment %u instead of %lu", i, s.align, al);
    VH_CHECK(s.off % al == 0, "section %d at offset %lu is not aligned to %lu", i, s.off, al);
    VH_CHECK(s.off >= hdr, "section %d at %lu overlaps the header", i, s.off);
    VH_CHECK(s.off + sz <= t.len, "section %d at %lu of %lu bytes ends outside the file of %lu bytes", i, s.off, sz, t.len);
    VH_CHECK(s.size == g_fill[i], "section %d declares %lu bytes, %lu were recorded", i, s.size, g_fill[i]);
    VH_CHECK(g_span_n[i] == sz, "section %d was given %lu bytes instead of %lu", i, g_span_n[i], sz);
    for (uint64_t k = 0; k < sz; k++)
      VH_CHECK(t.m[s.off + k] == (k < g_fill[i] ? 0x11 * (i + 1) : 0), "section %d byte %lu is 0x%x", i, k, t.m[s.off + k]);
    for (int j = 0; j < i; j++) {
      Tdag::Sec o;
      memcpy(&o, t.m + 8 + 24 * j, 24);
      VH_CHECK(o.off + P[idx[j]].sz <= s.off || s.off + sz <= o.off, "sections %d and %d overlap", j, i);
    }
  }
  unlink(p.c_str());
  vh::st().nontrivial++;
  vh::st().transitions += n;
}

static void gen(const Visit &v) {
  for (int n = 1; n <= 3; n++) {
    int combos = n == 1 ? NP : n == 2 ? NP * NP : NP * NP * 4;
    int fills = n == 1 ? 3 : n == 2 ? 9 : 27;
    for (int q = 0; q < combos; q++)
      for (int f = 0; f < fills; f++) {
        Case c{n};
        if (n == 1)
          c.push_back(q);
        else if (n == 2) {
          c.push_back(q / NP);
          c.push_back(q % NP);
        } else {
          c.push_back(q / 4 / NP);
          c.push_back(q / 4 % NP);
          c.push_back(q % 4);
        }
        int x = f;
        for (int i = 0; i < n; i++, x /= 3)
          c.push_back(x % 3);
        v(c);
      }
  }
}
static std::string describe(const Case &c) {
  std::string s;
  int n = c[0];
  for (int i = 0; i < n; i++) {
    auto &p = P[i == 2 ? K3[c[1 + i]] : c[1 + i]];
    s += "section(align " + std::to_string(p.al) + ", " + std::to_string(p.sz) + " bytes, " +
         (c[1 + n + i] == 0 ? "empty" : c[1 + n + i] == 1 ? "1 byte recorded" : "full") + ") ";
  }
  return s;
}
// ---- sections beyond 4 GiB (sparse) ------------------------------------------
template <int Pos, size_t Align, size_t Size> struct Huge {
  static constexpr size_t allocation_size = Size;
  static constexpr size_t align_of = Align;
  static constexpr uint8_t tag = 40 + Pos * 7;
  template <class OF> Huge(SectionArg<OF> a) {
    g_span[Pos] = a.range.data();
    g_span_n[Pos] = a.range.size();
    if (g_fill[Pos] && g_fill[Pos] <= a.range.size()) {
      a.range[0] = 0x21 * (Pos + 1);
      a.range[g_fill[Pos] - 1] = 0x21 * (Pos + 1);
    }
  }
  size_t size() const { return g_fill[Pos]; }
};
static constexpr Pal H[] = {{8, 64}, {4, 1ull << 31}, {8, 1ull << 32}, {1, (1ull << 32) + 5}, {64, 3ull << 32}};
static constexpr int NH = sizeof(H) / sizeof(H[0]);
template <int A, int B> void hone(const std::string &path) {
  OutputFile<Huge<0, H[A].al, H[A].sz>, Huge<1, H[B].al, H[B].sz>, Huge<2, 8, 4096>> f{path};
}
template <int... I> static constexpr auto tableh(std::integer_sequence<int, I...>) {
  return std::array<Fn, sizeof...(I)>{&hone<I / NH, I % NH>...};
}
static auto TH = tableh(std::make_integer_sequence<int, NH * NH>{});
static const uint64_t HF[] = {0, 1, 64, 1ull << 31, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 5, 3ull << 32};
static void gen_huge(const Visit &v) {
  for (int a = 0; a < NH; a++)
    for (int b = 0; b < NH; b++)
      for (int f = 0; f < 8; f++)
        for (int g = 0; g < 8; g++)
          if (HF[f] <= H[a].sz && HF[g] <= H[b].sz && (vh::g_thorough || f > 2 || g > 2 || f == g))
            v({a, b, f, g});
}
static void run_huge(const Case &c) {
  g_fill[0] = HF[c[2]];
  g_fill[1] = HF[c[3]];
  g_fill[2] = 8;
  uint64_t sz[3] = {H[c[0]].sz, H[c[1]].sz, 4096}, al[3] = {H[c[0]].al, H[c[1]].al, 8};
  bool err = false;
  error_function = [&](int) {
    err = true;
    throw 1;
  };
  std::string p = path();
  unlink(p.c_str());
  try {
    TH[c[0] * NH + c[1]](p);
  } catch (int) {
  }
  VH_CHECK(!err, "the layout was refused");
  Tdag t;
  std::string e = t.open(p);
  unlink(p.c_str());
  VH_CHECK(e.empty(), "%s", e.c_str());
  VH_CHECK(t.count == 3, "section count %d", t.count);
  Tdag::Sec s[3];
  for (int i = 0; i < 3; i++) {
    memcpy(&s[i], t.m + 8 + 24 * i, 24);
    VH_CHECK(s[i].off % al[i] == 0 && s[i].align == al[i], "section %d at offset %lu is not aligned to %lu", i, s[i].off, al[i]);
    VH_CHECK(s[i].off >= 8 + 24 * 3 && s[i].off + sz[i] <= t.len, "section %d at %lu of %lu bytes is not inside the file of %lu bytes", i, s[i].off, sz[i], t.len);
    VH_CHECK(s[i].size == g_fill[i], "section %d declares %lu bytes, %lu were recorded", i, s[i].size, g_fill[i]);
    VH_CHECK(g_span_n[i] == sz[i], "section %d was given %lu bytes instead of %lu", i, g_span_n[i], sz[i]);
    if (g_fill[i])
      VH_CHECK(t.m[s[i].off] == 0x21 * (i + 1) && t.m[s[i].off + g_fill[i] - 1] == 0x21 * (i + 1), "section %d does not hold what was recorded", i);
    for (int j = 0; j < i; j++)
      VH_CHECK(s[j].off + sz[j] <= s[i].off || s[i].off + sz[i] <= s[j].off, "sections %d and %d overlap", j, i);
  }
  vh::st().nontrivial++;
  vh::st().transitions += 3;
}
int main(int argc, char **argv) {
  std::vector<vh::Suite> s;
  s.push_back({"c08_layout", "arrangement of sections by alignment, size and fill level", gen, run, false, 30, describe});
  s.push_back({"c08_huge", "three sections of up to 12 GiB, filled up to 32-bit boundaries and beyond (sparse file)", gen_huge, run_huge, false, 60, {}});
  return vh::main_(argc, argv, s);
}
