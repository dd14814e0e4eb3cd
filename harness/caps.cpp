// C12: every table of the trace on a small memory range with guards, all
// request sequences around its capacity.
#include "taintdag/outputfile.h"
#include "taintdag/bitmap_section.h"
#include "taintdag/control_flow_log.h"
#include "taintdag/error.h"
#include "taintdag/fnmapping.h"
#include "taintdag/fntrace.h"
#include "taintdag/labels.h"
#include "taintdag/sink.h"
#include "taintdag/string_table.h"
#include "taintdag/taint_source.h"
#include "vh.h"
#include <cmath>
#include <map>
#include <memory>
using namespace taintdag;
using vh::Case;
using vh::Visit;
static bool g_err;
struct Stop {};

struct Guarded {
  static constexpr size_t G = 64;
  std::unique_ptr<uint8_t[]> raw;
  uint8_t *p;
  size_t n;
  Guarded(size_t n) : raw(new uint8_t[n + 2 * G + 16]), n(n) {
    p = raw.get() + G;
    p += (16 - (uintptr_t)p % 16) % 16;
    for (size_t i = 0; i < G - 16; i++)
      p[-1 - (long)i] = p[n + i] = 0xA5;
    memset(p, 0, n);
  }
  std::span<uint8_t> span() { return {p, n}; }
  void check(const char *w) {
    for (size_t i = 0; i < G - 16; i++)
      VH_CHECK(p[-1 - (long)i] == 0xA5 && p[n + i] == 0xA5, "%s: memory outside the table was written", w);
  }
};
struct DummyOF {
  StringTable *st = nullptr;
  template <class T> T &section() { return *(T *)st; }
};
// 1 accepted, 0 visibly refused, -1 neither
template <class F> static int req(F &&f) {
  g_err = false;
  try {
    bool r = f();
    if (r && !g_err)
      return 1;
    return 0;
  } catch (Stop &) {
    return 0;
  }
}
template <class T> static T rd(const uint8_t *p) {
  T v;
  memcpy(&v, p, sizeof v);
  return v;
}
static void gate() {
  error_function = [](int) {
    g_err = true;
    throw Stop{};
  };
}

// ---- labels: ops 1..7 read of n bytes, 10+ union of label pairs
static void run_labels(const Case &c) {
  gate();
  int cap = c[0]; // entries including label 0
  Guarded g(cap * 8);
  DummyOF of;
  std::unique_ptr<Labels> L;
  int r0 = req([&] { L.reset(new Labels(SectionArg<DummyOF>{of, g.span()})); return true; });
  VH_CHECK(r0 == 1, "the table could not be created");
  std::vector<uint64_t> m{0};
  for (size_t i = 1; i < c.size(); i++) {
    int o = c[i];
    vh::st().transitions++;
    if (o < 20) {
      taint_range_t rg{0, 0};
      int r = req([&] { rg = L->create_source_labels(3, 100, o); return true; });
      bool fits = (int)m.size() + o <= cap;
      VH_CHECK(r == (fits ? 1 : 0), "%d input bytes with %zu of %d labels used: %s", o, m.size(), cap, r ? "accepted" : "refused");
      if (r) {
        VH_CHECK(rg.first == m.size() && rg.second == m.size() + o - 1, "labels %u..%u instead of %zu..", rg.first, rg.second, m.size());
        for (int k = 0; k < o; k++)
          m.push_back(1ull << 63 | (uint64_t)(100 + k) << 8 | 3);
      }
    } else {
      uint32_t a = (o - 20) / 8, b = (o - 20) % 8;
      if (a >= m.size() || b >= m.size() || !a || !b || a == b)
        continue;
      uint32_t lb = 0;
      int r = req([&] { lb = L->union_taint(a, b); return true; });
      if (r) {
        VH_CHECK(lb && lb <= m.size() && (int)lb < cap, "union gave label %u with %zu of %d labels used", lb, m.size(), cap);
        if (lb == m.size())
          m.push_back(rd<uint64_t>(g.p + 8 * lb));
      } else
        VH_CHECK((int)m.size() == cap, "union refused with %zu of %d labels used", m.size(), cap);
    }
    g.check("labels");
    VH_CHECK(L->count() == m.size(), "%zu labels counted, %zu recorded", L->count(), m.size());
    for (size_t k = 0; k < m.size(); k++)
      VH_CHECK(rd<uint64_t>(g.p + 8 * k) == m[k], "label %zu was changed", k);
    for (size_t k = m.size(); k < (size_t)cap; k++)
      VH_CHECK(rd<uint64_t>(g.p + 8 * k) == 0, "label %zu was written by a refused request", k);
  }
  vh::st().nontrivial += (int)m.size() >= cap - 1;
}
static void seqs(int depth, const std::vector<int> &ops, Case pre, const Visit &v) {
  size_t base = pre.size();
  std::function<void(Case &)> rec = [&](Case &c) {
    if (c.size() - base == (size_t)depth) {
      v(c);
      return;
    }
    for (int o : ops) {
      c.push_back(o);
      rec(c);
      c.pop_back();
    }
  };
  rec(pre);
}
static void gen_labels(const Visit &v) {
  for (int cap = 1; cap <= 6; cap++) {
    std::vector<int> ops;
    for (int n = 1; n <= cap + 1; n++)
      ops.push_back(n);
    for (int a = 1; a < cap; a++)
      for (int b = 1; b < a; b++)
        ops.push_back(20 + a * 8 + b);
    int d = vh::g_thorough ? 6 : 5;
    while (d > 2 && pow(ops.size(), d) > (vh::g_thorough ? 3e6 : 4e5))
      d--;
    seqs(d, ops, {cap}, v);
  }
}

// ---- fixed-size tables: sinks, events
static void run_fixed(const Case &c) {
  gate();
  int kind = c[0], cap = c[1];
  size_t es = kind == 0 ? 16 : 4;
  Guarded g(cap * es);
  DummyOF of;
  std::unique_ptr<TaintSink> S;
  std::unique_ptr<Events> E;
  if (kind == 0)
    S.reset(new TaintSink(SectionArg<DummyOF>{of, g.span()}));
  else
    E.reset(new Events(SectionArg<DummyOF>{of, g.span()}));
  std::vector<int> m;
  for (size_t i = 2; i < c.size(); i++) {
    int o = c[i];
    vh::st().transitions++;
    int r = req([&] {
      if (kind == 0)
        S->log_single(1000 + o, 7 + o, o);
      else
        E->log_fn_event(o & 1 ? Event::kind_t::exit : Event::kind_t::entry, o);
      return true;
    });
    bool fits = (int)m.size() < cap;
    VH_CHECK(r == (fits ? 1 : 0), "record %zu in a table of %d: %s", m.size(), cap, r ? "silently dropped" : "refused");
    if (r)
      m.push_back(o);
    g.check("records");
    size_t n = kind == 0 ? S->count() : E->count();
    VH_CHECK(n == m.size(), "%zu records counted, %zu recorded", n, m.size());
    for (size_t k = 0; k < m.size(); k++) {
      uint8_t *p = g.p + k * es;
      if (kind == 0)
        VH_CHECK(rd<int64_t>(p) == 1000 + m[k] && rd<uint32_t>(p + 8) == 7u + m[k] && p[12] == m[k], "record %zu was changed", k);
      else
        VH_CHECK(p[0] == (m[k] & 1) && rd<uint16_t>(p + 2) == m[k], "event %zu was changed", k);
    }
  }
  vh::st().nontrivial += (int)m.size() == cap;
}
static void gen_fixed(const Visit &v) {
  for (int kind : {0, 1})
    for (int cap = 0; cap <= 4; cap++)
      seqs(cap + 3, {0, 1, 2}, {kind, cap}, v);
}

// ---- control-flow log on ranges of every size
static const uint32_t CFV[] = {0, 127, 128, 1u << 14, 1u << 21, 1u << 28, 0xffffffffu};
static void run_cf(const Case &c) {
  gate();
  Guarded g(c[0]);
  DummyOF of;
  ControlFlowLog L{SectionArg<DummyOF>{of, g.span()}};
  std::string m;
  auto var = [](uint32_t v) {
    std::string s;
    while (v >= 128) {
      s += (char)(v & 127 | 128);
      v >>= 7;
    }
    return s + (char)v;
  };
  for (size_t i = 1; i < c.size(); i++) {
    int o = c[i];
    vh::st().transitions++;
    uint32_t f = CFV[o / 10 % 7], l = CFV[o / 70 % 7];
    int k = o % 10;
    std::string e(1, (char)k);
    e += var(f);
    if (k == 2)
      e += var(l);
    int r = req([&] {
      if (k == 0)
        L.enter_function(f);
      else if (k == 1)
        L.leave_function(f);
      else
        L.tainted_control_flow(l, f);
      return true;
    });
    bool fits = m.size() + e.size() <= (size_t)c[0];
    VH_CHECK(r == (fits ? 1 : 0), "event of %zu bytes with %zu of %d used: %s", e.size(), m.size(), c[0], r ? "silently dropped" : "refused");
    if (r)
      m += e;
    g.check("control-flow log");
    VH_CHECK(L.size() == m.size(), "log declares %zu bytes, %zu recorded", L.size(), m.size());
    VH_CHECK(!memcmp(g.p, m.data(), m.size()), "log content was changed");
  }
  vh::st().nontrivial++;
}
static void gen_cf(const Visit &v) {
  std::vector<int> ops;
  for (int k : {0, 1})
    for (int f = 0; f < 7; f++)
      ops.push_back(k + 10 * f);
  std::vector<int> few{0, 1 + 20, 2, 2 + 10 * 2 + 70 * 2, 2 + 10 * 6 + 70 * 6, 0 + 60};
  for (int f = 0; f < 7; f++)
    for (int l = 0; l < 7; l++)
      ops.push_back(2 + 10 * f + 70 * l);
  for (int n = 0; n <= 26; n++) {
    seqs(1, ops, {n}, v);
    seqs(2, ops, {n}, v);
    seqs(vh::g_thorough ? 5 : 4, few, {n}, v);
  }
}

// ---- string table, sources and functions share names
// case: string bytes, sources cap, functions cap, ops: 0..5 source with name of that length, 10..15 function name,
// 20..25 plain string
static void run_str(const Case &c) {
  gate();
  Guarded gs(c[0]), ge(c[1] * 16), gf(c[2] * 4);
  DummyOF of;
  StringTable st{SectionArg<DummyOF>{of, gs.span()}};
  of.st = &st;
  Sources S{SectionArg<DummyOF>{of, ge.span()}};
  Functions Fn{SectionArg<DummyOF>{of, gf.span()}};
  std::vector<std::pair<std::string, int>> src;
  std::vector<std::string> fns;
  std::vector<std::pair<uint32_t, std::string>> strs;
  size_t used = 0;
  for (size_t i = 3; i < c.size(); i++) {
    int o = c[i], n = o % 10, before = used;
    vh::st().transitions++;
    std::string nm(n, (char)('a' + (o >= 10 && o < 20 ? 0 : i)));
    size_t need = (2 + n + 1) / 2 * 2;
    bool sfits = used + need <= (size_t)c[0];
    if (o < 10) {
      int idx = -1;
      int r = req([&] { auto x = S.add_source(nm, 5 + i, i); if (x) idx = *x; return bool(x); });
      bool fits = sfits && (int)src.size() < c[1];
      VH_CHECK(r == fits, "source with a name of %d: %s, %zu bytes of names and %zu sources used", n, r ? "accepted" : "refused", used, src.size());
      if (sfits && (fits || st.size() != used))
        used += need; // a name may stay behind without its source
      if (r) {
        VH_CHECK(idx == (int)src.size(), "source %zu has index %d", src.size(), idx);
        src.push_back({nm, 5 + i});
      }
      auto mi = S.mapping_idx(5 + i);
      VH_CHECK(mi.has_value() == (bool)r, "the descriptor of a %s source is %sknown", r ? "recorded" : "refused", r ? "not " : "");
    } else if (o < 20) {
      int idx = -1;
      auto it = std::find(fns.begin(), fns.end(), nm);
      int r = req([&] { auto x = Fn.add_mapping(nm); if (x) idx = *x; return bool(x); });
      if (it != fns.end())
        VH_CHECK(r && idx == it - fns.begin(), "function seen before has index %d", idx);
      else {
        bool fits = sfits && (int)fns.size() < c[2];
        VH_CHECK(r == fits, "function with a name of %d: %s", n, r ? "accepted" : "refused");
        if (sfits && (fits || st.size() != used))
          used += need;
        if (r) {
          VH_CHECK(idx == (int)fns.size(), "function %zu has index %d", fns.size(), idx);
          fns.push_back(nm);
        }
      }
    } else {
      uint32_t off = 0;
      int r = req([&] { auto x = st.add_string(nm); if (x) off = *x; return bool(x); });
      VH_CHECK(r == sfits, "string of %d with %zu of %d used: %s", n, used, c[0], r ? "accepted" : "refused");
      if (r) {
        strs.push_back({off, nm});
        used += need;
      }
    }
    gs.check("names");
    ge.check("sources");
    gf.check("functions");
    VH_CHECK(st.size() == used, "names declare %zu bytes, %zu recorded", st.size(), used);
    VH_CHECK(S.count() == src.size() && Fn.count() == fns.size(), "%zu sources, %zu functions counted", S.count(), Fn.count());
    auto str = [&](uint32_t off) {
      VH_CHECK(off + 2 <= (size_t)c[0], "a name lies outside the table");
      size_t l = rd<uint16_t>(gs.p + off);
      VH_CHECK(off + 2 + l <= (size_t)c[0], "a name ends outside the table");
      return std::string((char *)gs.p + off + 2, l);
    };
    for (auto &[off, s] : strs)
      VH_CHECK(str(off) == s && st.from_offset(off) == s, "a string was changed");
    for (size_t k = 0; k < src.size(); k++)
      VH_CHECK(str(rd<uint32_t>(ge.p + 16 * k)) == src[k].first && rd<int>(ge.p + 16 * k + 4) == src[k].second, "source %zu was changed", k);
    for (size_t k = 0; k < fns.size(); k++)
      VH_CHECK(str(rd<uint32_t>(gf.p + 4 * k)) == fns[k], "function %zu was changed", k);
  }
  vh::st().nontrivial++;
}
static void gen_str(const Visit &v) {
  std::vector<int> ops{0, 1, 4, 10, 11, 13, 20, 21, 23};
  for (int nb : {0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 16, 20})
    for (int ns : {0, 1, 2})
      for (int nf : {0, 1, 2})
        seqs(vh::g_thorough ? 5 : 4, ops, {nb, ns, nf}, v);
}

// ---- the longest string that fits, for several table configurations
template <class ST> static void long_one(int n, int cap) {
  gate();
  Guarded g(cap);
  DummyOF of;
  std::unique_ptr<ST> st;
  if (!req([&] { st.reset(new ST(SectionArg<DummyOF>{of, g.span()})); return true; }))
    return; // refused as a whole
  std::string s(n, 'q');
  uint64_t off = 0;
  for (int rep = 0; rep < 3; rep++) {
    size_t before = st->size();
    int r = req([&] { auto x = st->add_string(s); if (x) off = *x; return bool(x); });
    g.check("names");
    if (r) {
      VH_CHECK(st->from_offset(off) == s, "a string of %d bytes does not read back", n);
      VH_CHECK(n <= std::numeric_limits<typename ST::length_t>::max(), "an overlong string was accepted");
    } else
      VH_CHECK(st->size() == before, "a refused string takes room");
  }
  size_t k = 0;
  for (auto it = st->begin(); it != st->end(); ++it, ++k)
    VH_CHECK(*it == s, "string %zu reads differently when listed", k);
}
static void run_long(const Case &c) {
  vh::st().transitions += 3;
  vh::st().nontrivial++;
  if (c[0] == 0)
    long_one<StringTableBase<uint32_t, uint16_t>>(c[1], c[2]);
  else if (c[0] == 1)
    long_one<StringTableBase<uint16_t, uint8_t>>(c[1], c[2]);
  else
    long_one<StringTableBase<uint8_t, uint8_t>>(c[1], c[2]);
}
static void gen_long(const Visit &v) {
  for (int n : {0, 1, 65533, 65534, 65535, 65536, 65537})
    for (int d = -4; d <= 4; d++)
      for (int k : {1, 2, 3})
        if (n * k + 2 * k + d >= 0)
          v({0, n, n * k + 2 * k + d});
  for (int t : {1, 2})
    for (int n : {0, 1, 2, 252, 253, 254, 255, 256, 257})
      for (int cap : {0, 1, 2, 200, 253, 254, 255, 256, 257, 258, 300, 511, 512, 700})
        v({t, n, cap});
}
static std::string d(const Case &c) { return vh::jcase(c.data(), (int)c.size()); }

int main(int argc, char **argv) {
  std::vector<vh::Suite> s;
  s.push_back({"c12_labels", "label table of 1-6 entries; sequence of reads and unions", gen_labels, run_labels, false, 30, d});
  s.push_back({"c12_fixed", "output records and function events; fill level", gen_fixed, run_fixed, false, 30, d});
  s.push_back({"c12_cf", "control-flow log of 0-26 bytes; sequence of events", gen_cf, run_cf, false, 30, d});
  s.push_back({"c12_str", "name table, sources and functions of small sizes; sequence of requests", gen_str, run_str, false, 30, d});
  s.push_back({"c12_long", "string length against table size and length field", gen_long, run_long, false, 30, d});
  return vh::main_(argc, argv, s);
}
