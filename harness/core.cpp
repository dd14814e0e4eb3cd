// Label engine: unions, allocation, control-flow marks, encoding, bitmap.
// Everything here runs the real headers of /repo against in-memory sections.
#include "vh.h"
#include "taintdag/bitmap_section.h"
#include "taintdag/encoding.h"
#include "taintdag/error.h"
#include "taintdag/labeldeq.h"
#include "taintdag/labels.h"
#include "taintdag/outputfile.h"
#include "taintdag/stream_offset.h"
#include <bitset>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>
#include <unordered_set>

using namespace taintdag;
using vh::Case;
using vh::Visit;
static uint64_t vh_sm_next(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

struct ErrorExit {};
static void throwing(int) { throw ErrorExit{}; }

// ---- independent reading of a stored entry (the documented file format) ----
enum Kind { KNone, KSrc, KRange, KUnion };
struct Ent {
  Kind k = KNone;
  bool cf = false;
  uint32_t idx = 0;
  uint64_t off = 0;
  uint32_t a = 0, b = 0; // range: first,last; union: higher,lower
};
static Ent rd(uint64_t v) {
  Ent e;
  e.cf = (v >> 62) & 1;
  if (v >> 63) {
    e.k = KSrc;
    e.idx = v & 0xff;
    e.off = (v >> 8) & ((1ull << 54) - 1);
    return e;
  }
  e.a = (v >> 31) & 0x7fffffff;
  e.b = v & 0x7fffffff;
  if (e.a == e.b)
    e.k = KNone;
  else
    e.k = e.a < e.b ? KRange : KUnion;
  return e;
}

struct Dummy {};
static Dummy dummy;

// Atom sets: up to 1024 input bytes.
using Set = std::bitset<1024>;

struct World {
  static constexpr size_t cap = 8192;
  std::unique_ptr<uint64_t[]> own;
  uint64_t *mem;
  std::unique_ptr<Labels> L;
  // model: what each issued label must denote, and which labels are marked
  std::vector<Set> sem;
  std::vector<char> marked;
  std::vector<std::vector<uint32_t>> deps; // direct dependencies as stored
  std::map<std::pair<uint32_t, uint64_t>, int> atoms;
  uint64_t base = 0; // labels below base (other than 0) are never looked at

  World(size_t n = cap) {
    own.reset(new uint64_t[n]());
    mem = own.get();
    L.reset(new Labels(SectionArg<Dummy>{dummy, {(uint8_t *)mem, n * 8}}));
    reset_model();
  }
  World(uint64_t *m, size_t n, uint64_t skip) : mem(m), base(skip) {
    L.reset(new Labels(SectionArg<Dummy>{dummy, {(uint8_t *)mem, n * 8}}));
    if (skip > 1)
      L->construct_range(skip - 1, [](uint8_t *) {});
    reset_model();
  }
  void reset_model() {
    sem.assign(1, {});
    marked.assign(1, 0);
    deps.assign(1, {});
  }
  uint64_t lo() const { return base ? base : 1; }
  size_t idx(uint32_t l) const { return base ? l - base + 1 : l; }
  uint32_t lab(size_t i) const { return base ? i - 1 + base : i; }
  size_t count() const { return sem.size(); } // model indices 1..count-1
  uint64_t raw(uint32_t l) const { return mem[l]; }
  int atom(uint32_t s, uint64_t o) {
    auto k = std::make_pair(s, o);
    auto it = atoms.find(k);
    if (it != atoms.end())
      return it->second;
    int n = (int)atoms.size();
    VH_CHECK(n < 1024, "harness: too many atoms");
    return atoms[k] = n;
  }
};

enum Prop { P1 = 1, P2 = 2, P3 = 3 };

// What a table entry denotes, following the stored entries (memoised per call).
static Set denote(World &w, uint32_t l, std::map<uint32_t, Set> &memo, int depth = 0) {
  if (auto it = memo.find(l); it != memo.end())
    return it->second;
  VH_CHECK(depth < 4000, "label %u: derivation does not end", l);
  Ent e = rd(w.raw(l));
  Set s;
  switch (e.k) {
  case KNone:
    vh::fail("label %u stores an invalid entry %lx", l, w.raw(l));
  case KSrc: {
    auto it = w.atoms.find({e.idx, e.off});
    VH_CHECK(it != w.atoms.end(), "label %u denotes an input byte (%u,%lu) that was never read", l, e.idx, e.off);
    s.set(it->second);
    break;
  }
  case KRange:
    VH_CHECK(e.a >= w.lo() && e.b < l, "label %u: range %u..%u not made of earlier labels", l, e.a, e.b);
    for (uint32_t x = e.a; x <= e.b; x++)
      s |= denote(w, x, memo, depth + 1);
    break;
  case KUnion:
    VH_CHECK(e.b >= w.lo() && e.a < l, "label %u: union %u,%u not made of earlier labels", l, e.a, e.b);
    s = denote(w, e.a, memo, depth + 1) | denote(w, e.b, memo, depth + 1);
    break;
  }
  return memo[l] = s;
}
// Same, but using the model's sets for the entry's members (they are verified
// when created and their stability is checked on every step).
static Set denote1(World &w, uint32_t l) {
  Ent e = rd(w.raw(l));
  Set s;
  auto in = [&](uint32_t x) {
    VH_CHECK(x >= w.lo() && x < l && w.idx(x) < w.count(), "label %u refers to label %u, which did not exist before it", l, x);
    return w.sem[w.idx(x)];
  };
  switch (e.k) {
  case KNone:
    vh::fail("label %u stores an invalid entry %lx", l, w.raw(l));
  case KSrc: {
    auto it = w.atoms.find({e.idx, e.off});
    VH_CHECK(it != w.atoms.end(), "label %u denotes an input byte (%u,%lu) that was never read", l, e.idx, e.off);
    s.set(it->second);
    break;
  }
  case KRange:
    VH_CHECK(e.b < l, "label %u: range %u..%u reaches past it", l, e.a, e.b);
    for (uint32_t x = e.a; x <= e.b; x++)
      s |= in(x);
    break;
  case KUnion:
    s = in(e.a) | in(e.b);
    break;
  }
  return s;
}

static void closure(World &w, uint32_t l, std::vector<char> &out) {
  std::vector<uint32_t> st{l};
  while (!st.empty()) {
    uint32_t x = st.back();
    st.pop_back();
    if (out[w.idx(x)])
      continue;
    out[w.idx(x)] = 1;
    Ent e = rd(w.raw(x));
    if (e.k == KRange)
      for (uint32_t y = e.a; y <= e.b; y++)
        st.push_back(y);
    else if (e.k == KUnion) {
      st.push_back(e.a);
      st.push_back(e.b);
    }
  }
}

constexpr uint64_t CFBIT = 1ull << 62;

// Executes one op on the real code and (if chk) compares with the model.
// ops: 0 SRC(src,len | dup<<8): a<<? ; 1 UNION(l,r) ; 2 MARK(l)
struct Runner {
  World w;
  Prop p;
  std::map<uint32_t, uint64_t> next_off;
  Runner(Prop p) : p(p) {}
  Runner(Prop p, uint64_t *m, size_t n, uint64_t skip) : w(m, n, skip), p(p) {}

  // kind: source number; off = -1: continue where this source stopped
  void src(uint32_t s, int64_t off, uint32_t len, bool chk) {
    if (off < 0)
      off = next_off[s];
    next_off[s] = off + len;
    std::vector<uint64_t> before;
    if (chk)
      before = snapshot();
    auto rng = w.L->create_source_labels(s, off, len);
    uint32_t first = w.lab(w.count());
    for (uint32_t i = 0; i < len; i++) {
      Set st;
      st.set(w.atom(s, off + i));
      w.sem.push_back(st);
      w.marked.push_back(0);
    }
    if (!chk)
      return;
    same(before, "reading input");
    VH_CHECK(rng.first == first && rng.second == first + len - 1,
             "read of %u bytes returned labels %u..%u, expected the next block %u..%u", len, rng.first, rng.second, first, first + len - 1);
    VH_CHECK(w.L->count() == w.lab(w.count()), "label count is %zu after the block, expected %u", w.L->count(), w.lab(w.count()));
    for (uint32_t i = 0; i < len; i++) {
      Ent e = rd(w.raw(first + i));
      VH_CHECK(e.k == KSrc && e.idx == s && e.off == (uint64_t)off + i && !e.cf,
               "label %u should denote byte (%u,%ld) but stores %lx", first + i, s, (long)(off + i), w.raw(first + i));
    }
  }
  std::vector<uint64_t> snapshot() {
    return std::vector<uint64_t>(w.mem + w.lo(), w.mem + w.lo() + w.count() - 1);
  }
  void same(const std::vector<uint64_t> &b, const char *what) {
    for (size_t i = 0; i < b.size(); i++)
      VH_CHECK(b[i] == w.mem[w.lo() + i], "%s changed label %lu from %lx to %lx", what, w.lo() + i, b[i], w.mem[w.lo() + i]);
    if (!w.base)
      VH_CHECK(w.mem[0] == 0, "%s changed the untainted label", what);
  }
  uint32_t uni(uint32_t l, uint32_t r, bool chk) {
    std::vector<uint64_t> before;
    if (chk)
      before = snapshot();
    uint32_t pre = w.lab(w.count());
    uint32_t ret = w.L->union_taint(l, r);
    uint32_t post = (uint32_t)w.L->count();
    Set want = w.sem[w.idx(l)] | w.sem[w.idx(r)];
    if (chk) {
      if (p == P1) {
        VH_CHECK(ret >= w.lo() && ret < post, "combining %u and %u returned label %u, which does not exist", l, r, ret);
        std::map<uint32_t, Set> memo;
        Set got = ret < pre ? denote(w, ret, memo) : denote1(w, ret);
        VH_CHECK(got == want, "combining %u and %u returned %u, which denotes %zu input bytes, not the %zu of the operands (entry %lx)", l, r, ret,
                 got.count(), want.count(), w.raw(ret));
      } else if (p == P2) {
        same(before, "combining labels");
        VH_CHECK(post == pre || post == pre + 1, "one combination changed the label count from %u to %u", pre, post);
        VH_CHECK(ret < post && ret >= w.lo(), "returned label %u does not exist (count %u)", ret, post);
        if (post == pre + 1) {
          VH_CHECK(ret == pre, "combination created label %u but returned %u", pre, ret);
          denote1(w, ret);
        }
        // repeat straight away
        uint32_t again = w.L->union_taint(l, r);
        VH_CHECK(again == ret && w.L->count() == post, "repeating combine(%u,%u) returned %u (first %u), count %u -> %zu", l, r, again, ret, post,
                 w.L->count());
      } else if (p == P3) {
        VH_CHECK(post == pre || !rd(w.raw(ret)).cf, "a fresh combination %u is born marked", ret);
        for (size_t i = 0; i < before.size(); i++)
          VH_CHECK(!((before[i] ^ w.mem[w.lo() + i]) & CFBIT), "combining labels changed the mark of label %lu", w.lo() + i);
      }
    }
    if (post > pre) {
      w.sem.push_back(want);
      w.marked.push_back(0);
    }
    return ret;
  }
  void mark(uint32_t l, bool chk) {
    std::vector<uint64_t> before;
    if (chk)
      before = snapshot();
    std::vector<char> want = w.marked;
    closure(w, l, want);
    w.L->affects_control_flow(l);
    w.marked = want;
    if (chk) {
      VH_CHECK(w.L->count() == w.lab(w.count()), "marking changed the label count");
      for (size_t i = 0; i < before.size(); i++) {
        uint64_t now = w.mem[w.lo() + i];
        VH_CHECK((now | CFBIT) == (before[i] | CFBIT), "marking %u changed what label %lu denotes: %lx -> %lx", l, w.lo() + i, before[i], now);
        VH_CHECK(((now & CFBIT) != 0) == (want[i + 1] != 0), "after marking %u, label %lu is %smarked but should%s be", l, w.lo() + i,
                 now & CFBIT ? "" : "not ", want[i + 1] ? "" : " not");
      }
      if (!w.base)
        VH_CHECK(w.mem[0] == 0, "marking changed the untainted label");
    }
  }
  // roots: layouts of the first input labels
  void root(int r) {
    switch (r) {
    case 0: src(0, 0, 2, false); break;
    case 1: src(0, 0, 3, false); break;
    case 2: src(0, 0, 4, false); break;
    case 3: src(0, 0, 2, false); src(1, 0, 2, false); break;
    case 4: src(0, 0, 2, false); src(0, 0, 2, false); break;
    case 5: src(0, 5, 1, false); src(0, 5, 1, false); src(0, 6, 1, false); break;
    case 6: src(0, 0, 5, false); break;
    case 7: src(1, 7, 1, false); src(0, 7, 1, false); src(1, 7, 1, false); src(1, 8, 1, false); break;
    case 8: src(0, 3, 2, false); src(0, 2, 2, false); break;
    case 9: src(0, 0, 6, false); break;
    case 10: src(0, 0, 3, false); src(2, 1, 3, false); break;
    case 11: src(0, 0, 7, false); break;
    default: vh::fail("harness: root %d", r);
    }
  }
};

// History case: [root, (op,a,b)*]; the last op is the one checked.
static void run_hist(Prop p, const Case &c) {
  Runner r(p);
  r.root(c[0]);
  size_t n = (c.size() - 1) / 3;
  for (size_t i = 0; i < n; i++) {
    int op = c[1 + 3 * i], a = c[2 + 3 * i], b = c[3 + 3 * i];
    bool chk = i + 1 == n || vh::g_replay;
    if (i + 1 == n && (op == 2 || (op == 1 && a != b)) && vh::g_slot)
      vh::st().distinct++;
    if (op == 0)
      r.src(a, -1, b, chk);
    else if (op == 1)
      r.uni(a, b, chk);
    else
      r.mark(a, chk);
  }
}
static size_t hist_labels(const Case &c, std::string *key) {
  Runner r(P1);
  r.root(c[0]);
  for (size_t i = 0; i < (c.size() - 1) / 3; i++) {
    int op = c[1 + 3 * i], a = c[2 + 3 * i], b = c[3 + 3 * i];
    if (op == 0)
      r.src(a, -1, b, false);
    else if (op == 1)
      r.uni(a, b, false);
    else
      r.mark(a, false);
  }
  if (key)
    key->assign((char *)(r.w.mem + 1), (r.w.L->count() - 1) * 8);
  return r.w.L->count();
}

// All operations applicable with `cnt` labels (labels 1..cnt-1).
static void each_op(size_t cnt, bool marks, bool srcs, const std::function<void(int, int, int)> &f) {
  for (size_t a = 1; a < cnt; a++)
    for (size_t b = 1; b < cnt; b++)
      f(1, a, b);
  if (marks)
    for (size_t a = 1; a < cnt; a++)
      f(2, a, 0);
  if (srcs) {
    f(0, 3, 1);
    f(0, 3, 2);
  }
}

// Explicit-state search, deduplicated on the label table.
struct BfsCfg {
  int root;
  size_t maxlab;
  bool marks;
  size_t maxdepth;
};
static void gen_bfs(Prop p, const std::vector<BfsCfg> &cfgs) {
  for (size_t ri = 0; ri < cfgs.size(); ri++) {
    if ((int)(ri % vh::g_nworkers) != vh::g_worker)
      continue;
    size_t maxlab = cfgs[ri].maxlab, maxdepth = cfgs[ri].maxdepth;
    bool marks = cfgs[ri].marks;
    std::unordered_set<std::string> seen;
    std::deque<Case> q;
    Case c0{cfgs[ri].root};
    std::string k;
    hist_labels(c0, &k);
    seen.insert(k);
    q.push_back(c0);
    while (!q.empty()) {
      Case c = q.front();
      q.pop_front();
      vh::st().states++;
      size_t cnt = hist_labels(c, nullptr);
      if ((c.size() - 1) / 3 >= maxdepth)
        continue;
      Case d = c;
      d.resize(c.size() + 3);
      each_op(cnt, marks, true, [&](int op, int a, int b) {
        if (op == 0 && cnt + b > maxlab)
          return;
        d[c.size()] = op;
        d[c.size() + 1] = a;
        d[c.size() + 2] = b;
        vh::mark(d);
        vh::st().evals++;
        vh::st().transitions++;
        run_hist(p, d);
        std::string kk;
        size_t n2 = hist_labels(d, &kk);
        if (n2 <= maxlab && seen.insert(kk).second) {
          vh::st().nontrivial++;
          if (vh::st().nsamples < 3 && d.size() > 6)
            vh::sample(d);
          q.push_back(d);
        }
      });
    }
  }
}
// Stateless enumeration: every history of exactly <= depth ops, no merging.
static void gen_dfs(const Visit &v, const std::vector<int> &roots, size_t depth, bool marks) {
  std::function<void(Case &)> rec = [&](Case &c) {
    size_t n = (c.size() - 1) / 3;
    if (n)
      v(c);
    if (n == depth)
      return;
    size_t cnt = hist_labels(c, nullptr);
    each_op(cnt, marks, true, [&](int op, int a, int b) {
      c.push_back(op);
      c.push_back(a);
      c.push_back(b);
      rec(c);
      c.resize(c.size() - 3);
    });
  };
  for (int r : roots) {
    Case c{r};
    rec(c);
  }
}
static std::string desc_hist(const Case &c) {
  std::string s = "root" + std::to_string(c[0]);
  for (size_t i = 0; i + 3 <= c.size() - 1; i += 3) {
    int op = c[1 + i];
    s += op == 0 ? "; read " + std::to_string(c[3 + i]) + " bytes" : op == 1 ? "; combine(" + std::to_string(c[2 + i]) + "," + std::to_string(c[3 + i]) + ")" : "; mark(" + std::to_string(c[2 + i]) + ")";
  }
  return s;
}

// Distance suite: combine, then K other labels, then combine again, with
// further combinations. Case: [shape, K, how, l, r, variant]
static void run_dist(Prop p, const Case &c) {
  int shape = c[0], K = c[1], how = c[2], variant = c[5];
  Runner r(p);
  r.src(0, 0, 4, false);            // 1..4
  uint32_t u13 = r.uni(1, 3, true); // 5: union
  uint32_t r12 = r.uni(1, 2, true); // 6: range
  uint32_t r34 = r.uni(3, 4, true); // 7: range
  uint32_t base[] = {1, 2, 3, 4, u13, r12, r34};
  uint32_t l = base[c[3]], rr = base[c[4]];
  if (l == rr)
    return;
  uint32_t first = r.uni(l, rr, true);
  if (variant == 1)
    r.mark(first, true);
  if (variant == 2)
    r.mark(l, true);
  // K fillers
  if (how == 0) {
    if (K)
      r.src(1, -1, K, K < 400);
  } else {
    for (int i = 0; i < K; i++)
      r.src(2, 3 * i, 1, false);
  }
  uint32_t mid = r.w.L->count();
  uint32_t second = shape == 0 ? r.uni(l, rr, true) : r.uni(rr, l, true);
  // The entry of `first`, if the combination created one, lies K labels back.
  if (p == P2) {
    bool reuse = first == l || first == rr || mid - first <= 100;
    if (reuse && (shape == 0 || (first != l && first != rr)))
      VH_CHECK(second == first && r.w.L->count() == mid,
               "combine(%u,%u) returned %u, and after %d other labels a repeat returned %u", l, rr, first, K, second);
  }
  // Continue on top of the results.
  uint32_t third = r.uni(first, second, true);
  r.uni(third, 2, true);
  if (K > 0) {
    r.uni(mid - 1, first, true);
    r.uni(second, mid - 1, true);
  }
  if (p == P3) {
    r.mark(second, true);
    r.mark(third, true);
  }
}

// Labels near the top of the range: skip to a base, then all short histories.
static const uint64_t kBases[] = {120, 1u << 8, 1u << 15, 1u << 16, 1u << 24, 1u << 30, (1u << 31) - 16, (1ull << 31) - 12};
static uint64_t *big_map() {
  static uint64_t *m = nullptr;
  if (!m) {
    m = (uint64_t *)mmap(nullptr, (1ull << 31) * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED)
      abort();
  }
  return m;
}
static std::unique_ptr<Runner> g_big;
static int g_big_base = -1;
static Prop g_big_prop;
static void prep_big(Prop p, int bi) {
  if (g_big_base == bi && g_big_prop == p)
    return;
  uint64_t b = kBases[bi];
  // start so that the few labels we create straddle the base
  uint64_t skip = b > 5 ? b - 3 : b;
  if (bi >= 6)
    skip = b;
  g_big.reset();
  g_big.reset(new Runner(p, big_map(), 1ull << 31, skip));
  g_big_base = bi;
  g_big_prop = p;
}
// case [base, ops: (op,a,b)*] with labels given relative to the first one
static void run_high(Prop p, const Case &c) {
  prep_big(p, c[0]); // inherited through fork when already prepared
  Runner &r = *g_big;
  uint32_t f = r.w.lo();
  r.src(7, (1ull << 54) - 3, 3, true); // offsets at the top of their range, too
  r.src(0, 0, 1, true);
  for (size_t i = 1; i + 3 <= c.size(); i += 3) {
    if (c[i] == 1)
      r.uni(f + c[i + 1], f + c[i + 2], true);
    else if (c[i] == 2)
      r.mark(f + c[i + 1], true);
  }
}
static void gen_high(Prop p, const Visit &v) {
  size_t depth = vh::g_thorough ? 3 : 2;
  for (int b = 0; b < 8; b++) {
    prep_big(p, b);
    std::function<void(Case &, int)> rec = [&](Case &c, int cnt) {
      if (c.size() > 1)
        v(c);
      if ((c.size() - 1) / 3 == depth)
        return;
      for (int x = 0; x < cnt; x++) {
        for (int y = 0; y < cnt; y++) {
          if (x == y)
            continue;
          c.insert(c.end(), {1, x, y});
          // upper bound on the number of labels; run_high uses only existing ones
          rec(c, 4);
          c.resize(c.size() - 3);
        }
        if (p == P3) {
          c.insert(c.end(), {2, x, 0});
          rec(c, 4);
          c.resize(c.size() - 3);
        }
      }
    };
    Case c{b};
    rec(c, 4);
  }
}

// ---- marks on deep and wide graphs -----------------------------------------
// case [shape, n, m, pre, target]
static void run_graph(const Case &c) {
  int shape = c[0], n = c[1], m = c[2], pre = c[3], tgt = c[4];
  Runner r(P3);
  std::vector<uint32_t> lv; // labels of interest
  auto pad = [&] { r.src(9, r.next_off[9] + 2, 1, false); };
  if (shape == 0) {
    // chain of unions: u0=s0, u_{i+1} = u_i + s_{i+1} (never adjacent)
    r.src(0, 0, 1, false);
    uint32_t u = 1;
    for (int i = 0; i < n; i++) {
      r.src(0, 10 + 2 * i, 1, false);
      uint32_t s = r.w.L->count() - 1;
      pad();
      u = r.uni(u, s, false);
      lv.push_back(u);
    }
  } else if (shape == 1) {
    // n unions side by side, then a range over them (queue grows to n)
    r.src(0, 0, 2 * n + 2 * m + 4, false);
    uint32_t firstu = 0, lastu = 0;
    for (int i = 0; i < n; i++) {
      uint32_t u = r.uni(1 + i, 1 + i + 2 + m, false);
      if (!firstu)
        firstu = u;
      lastu = u;
    }
    uint32_t acc = firstu;
    if (lastu > firstu) {
      // grow one range over all unions
      acc = r.uni(firstu, firstu + 1, false);
      for (uint32_t x = firstu + 2; x <= lastu; x++) {
        acc = r.uni(acc, x, false);
      }
    }
    lv = {acc, firstu, lastu, (firstu + lastu) / 2};
  } else if (shape == 2) {
    // two levels: n*m unions of unions (pushes while popping)
    r.src(0, 0, 2 * n + 6, false);
    std::vector<uint32_t> lev;
    for (int i = 0; i < n; i++)
      lev.push_back(r.uni(1 + i, 4 + i, false));
    std::vector<uint32_t> l2;
    for (int i = 0; i < n; i++)
      for (int j = 0; j < m; j++) {
        uint32_t a = lev[i], b = lev[(i + 2 + j) % n];
        if (a == b)
          continue;
        l2.push_back(r.uni(a, b, false));
      }
    uint32_t acc = l2.empty() ? lev[0] : l2[0];
    for (auto x : l2)
      acc = r.uni(acc, x, false);
    lv = {acc};
    if (!l2.empty())
      lv.push_back(l2[l2.size() / 2]);
    lv.push_back(lev[n / 2]);
    lv.push_back(lev[0]);
  } else if (shape == 3) {
    // balanced tree of unions over 2^k padded sources
    std::vector<uint32_t> lev;
    n++;
    for (int i = 0; i < n; i++) {
      r.src(0, 3 * i, 1, false);
      lev.push_back(r.w.L->count() - 1);
      pad();
    }
    while (lev.size() > 1) {
      std::vector<uint32_t> nx;
      for (size_t i = 0; i + 1 < lev.size(); i += 2) {
        nx.push_back(r.uni(lev[i], lev[i + 1], false));
        pad();
      }
      if (lev.size() % 2)
        nx.push_back(lev.back());
      lev = nx;
      lv.push_back(lev[0]);
    }
  } else {
    // one plain range over n inputs, optionally extended by a union
    r.src(0, 0, n, false);
    r.src(1, 0, 1, false);
    uint32_t acc = 1;
    for (int i = 2; i <= n; i++)
      acc = r.uni(acc, i, false);
    lv.push_back(acc);
    lv.push_back(r.uni(acc, n + 1, false));
    lv.push_back(r.uni(n + 1, 1, false));
  }
  if (pre >= 0 && pre < (int)lv.size())
    r.mark(lv[pre], true);
  r.mark(lv[tgt % lv.size()], true);
  if (vh::g_slot)
    vh::st().nontrivial++;
  // idempotent, and a second traversal after more labels
  r.mark(lv[tgt % lv.size()], true);
  uint32_t x = r.uni(lv[0], lv[tgt % lv.size()], true);
  r.src(3, -1, 2, true);
  uint32_t y = r.uni(x, r.w.L->count() - 1, true);
  r.mark(y, true);
}
static void gen_graph(const Visit &v) {
  auto go = [&](int shape, int n, int m, int nl) {
    for (int pre = -1; pre < nl; pre++)
      for (int t = 0; t < nl; t++)
        v({shape, n, m, pre, t});
  };
  int top = vh::g_thorough ? 140 : 72;
  for (int n = 1; n <= top; n++) {
    // chain: targets at selected depths
    for (int pre : {-1, 0, n / 2, n - 1})
      for (int t : {0, n / 2, n - 1})
        v({0, n, 0, pre, t});
    for (int m : {0, 1, 5})
      go(1, n, m, 4);
    if (n >= 4)
      for (int m : {1, 2, 3})
        go(2, n, m, 4);
    go(3, n, 0, 3);
    go(4, n, 0, 3);
  }
}

// ---- long runs of labels -----------------------------------------------------
// Judged from the stored table itself: what a label is made of and which labels carry a mark.
struct Big {
  World w;
  size_t n;
  explicit Big(size_t n_, size_t cap) : w(cap), n(n_) {}
  static constexpr uint64_t SRC = 1ull << 63, CF = 1ull << 62, M = (1ull << 31) - 1;
  template <class F> void kids(uint32_t l, F f) {
    uint64_t v = w.raw(l);
    if (v & SRC)
      return;
    uint32_t a = (v & ~CF) >> 31, b = v & M;
    VH_CHECK(a && b && a < l && b < l, "label %u refers to %u and %u", l, a, b);
    if (a > b) {
      f(a);
      f(b);
    } else
      for (uint32_t x = a; x <= b; x++)
        f(x);
  }
  std::vector<bool> reach(const std::vector<uint32_t> &from) {
    std::vector<bool> seen(w.L->count());
    std::vector<uint32_t> q;
    auto add = [&](uint32_t l) {
      VH_CHECK(l < seen.size(), "label %u does not exist", l);
      if (!seen[l]) {
        seen[l] = true;
        q.push_back(l);
      }
    };
    for (auto l : from)
      add(l);
    while (!q.empty()) {
      uint32_t l = q.back();
      q.pop_back();
      kids(l, add);
    }
    return seen;
  }
  // input bytes (labels 1..n) behind l
  std::vector<bool> bytes(uint32_t l) {
    auto s = reach({l});
    for (uint32_t x = 1; x < s.size(); x++)
      if (s[x] && !(w.raw(x) & SRC))
        s[x] = false;
    s.resize(n + 1);
    return s;
  }
};
static const int BIGN[] = {255, 256, 257, 1000, 1001, 1023, 1024, 1025, 2049, 4096, 32769, 65535, 65536, 65537};
static void gen_c01big(const Visit &v) {
  for (int n : BIGN)
    for (int s : {3, 200, n / 2, n - 100, n - 2})
      if (s > 1 && s < n)
        v({n, s});
}
static void run_c01big(const Case &c) {
  int n = c[0], s = c[1];
  Big b(n, 3 * n + 5000);
  auto rng = b.w.L->create_source_labels(0, 0, n);
  VH_CHECK(rng.first == 1 && rng.second == (uint32_t)n, "input labels %u..%u", rng.first, rng.second);
  std::vector<uint32_t> R(n + 1), S(n + 1);
  R[1] = 1;
  for (int i = 2; i <= n; i++)
    R[i] = b.w.L->union_taint(R[i - 1], i);
  S[s] = s;
  for (int i = s + 1; i <= n; i++)
    S[i] = b.w.L->union_taint(S[i - 1], i);
  auto span = [&](int lo, int hi) {
    std::vector<bool> x(n + 1);
    for (int i = lo; i <= hi; i++)
      x[i] = true;
    return x;
  };
  std::vector<std::pair<uint32_t, std::vector<bool>>> V;
  for (int i : {1, s - 2, s - 1, s, s + 1, n - 1, n})
    if (i >= 1)
      V.push_back({R[i], span(1, i)});
  for (int i : {s, s + 1, (s + n) / 2, n - 1, n})
    V.push_back({S[i], span(s, i)});
  V.push_back({(uint32_t)n, span(n, n)});
  for (auto &x : V)
    VH_CHECK(b.bytes(x.first) == x.second, "a run of %d bytes accumulated one by one denotes other bytes (label %u)", n, x.first);
  size_t k = V.size();
  for (size_t i = 0; i < k; i++)
    for (size_t j = 0; j < k; j++) {
      uint32_t u = b.w.L->union_taint(V[i].first, V[j].first);
      auto want = V[i].second;
      for (int x = 0; x <= n; x++)
        if (V[j].second[x])
          want[x] = true;
      auto got = b.bytes(u);
      if (got != want) {
        int x = 1;
        while (x < n && got[x] == want[x])
          x++;
        vh::fail("combining labels %u and %u gives label %u, which %s input byte %d", V[i].first, V[j].first, u, got[x] ? "wrongly includes" : "lacks", x - 1);
      }
      if (vh::g_slot)
        vh::st().transitions++;
      if ((i + j) % 5 == 0)
        V.push_back({u, want});
    }
  if (vh::g_slot)
    vh::st().nontrivial++;
}
// ---- operands at scale ------------------------------------------------------
// One prepared world: 2^21+2^12 input bytes read in one block (label i is byte
// i-1) and the runs F..F-1+i accumulated up to 2^20+3 bytes; each case is a fork of it.
struct Scale {
  static constexpr uint32_t N = (1u << 21) + 4096, R = (1u << 20) + 3, F = 5;
  World w{N + R + 20000};
  std::vector<uint32_t> run;
  Scale() : run(R + 1) {
    auto g = w.L->create_source_labels(0, 0, N);
    VH_CHECK(g.first == 1 && g.second == N, "a read of %u bytes returned labels %u..%u", N, g.first, g.second);
    run[1] = F;
    for (uint32_t i = 2; i <= R; i++)
      run[i] = w.L->union_taint(run[i - 1], F - 1 + i);
  }
  using Iv = std::vector<std::pair<uint32_t, uint32_t>>;
  static Iv norm(Iv v) {
    std::sort(v.begin(), v.end());
    Iv o;
    for (auto &x : v)
      if (!o.empty() && x.first <= o.back().second + 1)
        o.back().second = std::max(o.back().second, x.second);
      else
        o.push_back(x);
    return o;
  }
  Iv bytes(uint32_t l) {
    Iv o;
    std::set<uint32_t> seen;
    std::vector<uint32_t> st{l};
    while (!st.empty()) {
      uint32_t x = st.back();
      st.pop_back();
      if (!seen.insert(x).second)
        continue;
      VH_CHECK(seen.size() < 100000, "label %u: derivation has too many steps", l);
      VH_CHECK(x >= 1 && x < w.L->count(), "label %u does not exist", x);
      Ent e = rd(w.raw(x));
      if (e.k == KSrc) {
        VH_CHECK(e.idx == 0 && e.off < N, "label %u denotes a byte (%u,%lu) that was never read", x, e.idx, e.off);
        o.push_back({e.off + 1, e.off + 1});
      } else if (e.k == KRange) {
        VH_CHECK(e.a >= 1 && e.b < x, "label %u: range %u..%u is not made of earlier labels", x, e.a, e.b);
        if (e.a <= N)
          o.push_back({e.a, std::min(e.b, N)});
        for (uint32_t y = std::max(e.a, N + 1); y <= e.b && st.size() < 200000; y++)
          st.push_back(y);
      } else {
        VH_CHECK(e.k == KUnion && e.a < x && e.b < x, "label %u stores entry %lx", x, w.raw(x));
        st.push_back(e.a);
        st.push_back(e.b);
      }
    }
    return norm(o);
  }
};
static std::unique_ptr<Scale> g_scale;
static Scale &scale() {
  if (!g_scale)
    g_scale.reset(new Scale);
  return *g_scale;
}
static const uint32_t SCALE[] = {1, 2, 3, 254, 255, 256, 257, 4095, 4096, 4097, 32768, 32769, 65534, 65535, 65536, 65537, 1u << 20, (1u << 20) + 1};
// operand k over the bytes s.. with a reference to byte p: label and its bytes
static std::pair<uint32_t, Scale::Iv> operand(Scale &S, int k, uint32_t p, uint32_t s) {
  auto &L = *S.w.L;
  switch (k) {
  case 0: return {s, {{s, s}}};
  case 1: return {L.union_taint(s, s + 1), {{s, s + 1}}};
  case 2: return {L.union_taint(L.union_taint(s, s + 1), s + 2), {{s, s + 2}}};
  case 3: return {L.union_taint(s + 2, s), {{s, s}, {s + 2, s + 2}}};
  case 4: return {L.union_taint(S.F, s), {{S.F, S.F}, {s, s}}};
  case 5: return {L.union_taint(s, p), {{p, p}, {s, s}}};
  case 6: return {L.union_taint(S.F - 1, s), {{S.F - 1, S.F - 1}, {s, s}}};
  case 7: return {L.union_taint(s, S.F - 2), {{S.F - 2, S.F - 2}, {s, s}}};
  default: {
    uint32_t n = p - S.F + 1;
    return {L.union_taint(S.run[n], s), {{S.F, p}, {s, s}}};
  }
  }
}
static void gen_scale(const Visit &v) {
  scale();
  for (uint32_t len : SCALE)
    for (uint32_t gap : SCALE)
      for (int ka = 0; ka < 4; ka++) {
        if ((ka == 1 || ka == 3) && len > 1 && !vh::g_thorough)
          continue;
        for (int kb = 0; kb < 9; kb++)
          for (int d = 0; d < 2; d++)
            v({(int)len, (int)gap - 1, ka, kb, d});
      }
}
// [length, gap, kind of first, kind of second, order]
static void run_scale(bool two, const Case &c) {
  Scale &S = scale();
  auto &L = *S.w.L;
  uint32_t last = S.F - 1 + c[0], s = last + 1 + c[1];
  std::pair<uint32_t, Scale::Iv> a;
  switch (c[2]) {
  case 0: a = {S.run[c[0]], {{S.F, last}}}; break;
  case 1: a = operand(S, 3, S.F, last); break;
  case 2: a = {last, {{last, last}}}; break;
  default: a = operand(S, 1, S.F, last); break;
  }
  auto b = operand(S, c[3], last, s);
  for (auto &o : {a, b})
    VH_CHECK(S.bytes(o.first) == Scale::norm(o.second), "a value over %zu runs of input bytes has label %u, which denotes other bytes", o.second.size(), o.first);
  if (c[4])
    std::swap(a, b);
  auto want = a.second;
  want.insert(want.end(), b.second.begin(), b.second.end());
  size_t pre = L.count();
  uint32_t u = L.union_taint(a.first, b.first);
  size_t post = L.count();
  if (two) {
    VH_CHECK(u < post && post <= pre + 1 && (post == pre || u == pre), "one combination changed the label count from %zu to %zu and returned %u", pre, post, u);
    uint32_t again = L.union_taint(a.first, b.first);
    VH_CHECK(again == u && L.count() == post, "repeating combine(%u,%u) returned %u (first %u)", a.first, b.first, again, u);
  }
  auto got = S.bytes(u);
  want = Scale::norm(want);
  if (got != want)
    vh::fail("combining labels %u and %u returned %u, which denotes %zu runs of input bytes from %u to %u, not the %zu runs from %u to %u of the operands", a.first, b.first, u,
             got.size(), got.empty() ? 0 : got[0].first, got.empty() ? 0 : got.back().second, want.size(), want[0].first, want.back().second);
  // and on top of the result
  for (uint32_t x : {s + 1, s + 3, last, last + 1, S.F - 1, S.F - 3}) {
    uint32_t t = c[4] ? L.union_taint(x, u) : L.union_taint(u, x);
    auto w2 = want;
    w2.push_back({x, x});
    VH_CHECK(S.bytes(t) == Scale::norm(w2), "combining label %u with %u returned %u, which denotes other input bytes", u, x, t);
  }
  if (vh::g_slot) {
    vh::st().transitions += 7;
    vh::st().nontrivial++;
  }
}
// reuse distance with labels of every magnitude: [input bytes, K, l, r, order]
static void gen_reuse(const Visit &v) {
  for (int n : {8, 120, 255, 256, 257, 999, 1000, 1001, 1024, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20})
    for (int K : {0, 1, 50, 97, 98, 99})
      for (int l = 0; l < 6; l++)
        for (int r = 0; r < 6; r++)
          if (l != r)
            for (int d = 0; d < 2; d++)
              v({n, K, l, r, d});
}
static void run_reuse(const Case &c) {
  uint32_t n = c[0];
  World w(n + 2000);
  auto &L = *w.L;
  L.create_source_labels(0, 0, n);
  uint32_t b[6] = {1, n, n / 2, 3, 0, 0};
  b[4] = L.union_taint(2, n - 2);
  b[5] = L.union_taint(n - 1, n);
  uint32_t l = b[c[2]], r = b[c[3]];
  uint32_t first = L.union_taint(l, r);
  if (first == l || first == r)
    return;
  if (c[1]) {
    auto g = L.create_source_labels(1, 5, c[1]);
    VH_CHECK(g.second - g.first + 1 == (uint32_t)c[1] && g.first > n, "a read of %d bytes returned labels %u..%u", c[1], g.first, g.second);
  }
  size_t cnt = L.count();
  uint32_t again = c[4] ? L.union_taint(r, l) : L.union_taint(l, r);
  VH_CHECK(again == first && L.count() == cnt, "combine(%u,%u) returned %u, and after %d other labels a repeat returned %u", l, r, first, c[1], again);
  if (vh::g_slot)
    vh::st().nontrivial++;
}
// blocks of every magnitude: [length of a first block, length, offset index]
static void gen_block(const Visit &v) {
  for (int pre : {0, 1, 255, 65535})
    for (int n : {1, 2, 255, 256, 257, 4096, 32768, 65535, 65536, 65537, 1 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 25) + 3})
      for (int o = 0; o < 4; o++)
        if (n < (1 << 24) || (o == 0 && pre < 2) || vh::g_thorough)
          v({pre, n, o});
}
static void run_block(const Case &c) {
  static const uint64_t OFF[] = {0, 0xfff0, 0xfffffff0ull, (1ull << 54) - (1ull << 26)};
  uint64_t off = OFF[c[2]];
  size_t pre = c[0], n = c[1], cap = pre + n + 64;
  uint64_t *m = big_map();
  Labels L(SectionArg<Dummy>{dummy, {(uint8_t *)m, cap * 8}});
  if (pre)
    L.create_source_labels(3, 7, pre);
  auto g = L.create_source_labels(1, off, n);
  VH_CHECK(g.first == pre + 1 && g.second == pre + n, "a read of %zu bytes returned labels %u..%u, expected %zu..%zu", n, g.first, g.second, pre + 1, pre + n);
  VH_CHECK(L.count() == pre + n + 1, "label count is %zu after %zu bytes", L.count(), pre + n);
  for (size_t i = 0; i < n; i++) {
    Ent e = rd(m[pre + 1 + i]);
    VH_CHECK(e.k == KSrc && e.idx == 1 && e.off == off + i && !e.cf, "label %zu should denote byte %lu of its source but stores %lx", pre + 1 + i, off + i, m[pre + 1 + i]);
  }
  g = L.create_source_labels(2, 1, 3);
  VH_CHECK(g.first == pre + n + 1 && g.second == pre + n + 3, "the read after %zu bytes returned labels %u..%u", pre + n, g.first, g.second);
  if (vh::g_slot)
    vh::st().nontrivial++;
}
// [shape, n, first mark, second mark]
static void gen_c03big(const Visit &v) {
  for (int sh = 0; sh < 4; sh++)
    for (int n : BIGN)
      for (int a = 0; a < 4; a++)
        for (int b = -1; b < 4; b++)
          if (vh::g_thorough || n < 5000 || b < 1)
            v({sh, n, a, b});
}
static void run_c03big(const Case &c) {
  int sh = c[0], n = c[1];
  Big b(2 * n + 8, 8 * n + 5000);
  auto &L = *b.w.L;
  L.create_source_labels(0, 0, 2 * n + 8);
  std::vector<uint32_t> lv;
  if (sh == 0) { // a run of input bytes
    uint32_t acc = 1;
    for (int i = 2; i <= n; i++)
      acc = L.union_taint(acc, i);
    lv = {acc, L.union_taint(acc, n + 3), (uint32_t)n, acc - 1};
  } else if (sh == 1) { // a run of derived labels
    uint32_t f = 0, l = 0;
    for (int i = 0; i < n; i++) {
      l = L.union_taint(1 + i, 4 + i + n);
      f = f ? f : l;
    }
    uint32_t acc = f;
    for (uint32_t x = f + 1; x <= l; x++)
      acc = L.union_taint(acc, x);
    lv = {acc, l, f, L.union_taint(acc, 2 * n + 6)};
  } else if (sh == 2) { // a chain
    uint32_t acc = 1;
    for (int i = 0; i < n; i++)
      acc = L.union_taint(acc, 3 + 2 * i);
    lv = {acc, acc - 1, acc - (uint32_t)n / 2, 3};
  } else { // pairs of pairs, then a run over them
    uint32_t f = 0, l = 0, g = 0;
    for (int i = 0; i < n; i++) {
      l = L.union_taint(1 + i, 4 + i);
      f = f ? f : l;
    }
    for (int i = 0; i + 3 < n; i++) {
      l = L.union_taint(f + i, f + i + 3);
      g = g ? g : l;
    }
    uint32_t acc = g;
    for (uint32_t x = g + 1; x <= l; x++)
      acc = L.union_taint(acc, x);
    lv = {acc, g, l, acc - 1};
  }
  size_t cnt = L.count();
  std::vector<uint64_t> before(b.w.mem, b.w.mem + cnt);
  std::vector<uint32_t> marks;
  for (int m : {c[2], c[3]}) {
    if (m < 0)
      continue;
    marks.push_back(lv[m]);
    L.affects_control_flow(lv[m]);
    auto want = b.reach(marks);
    VH_CHECK(L.count() == cnt, "marking changed the label count");
    for (size_t x = 1; x < cnt; x++) {
      VH_CHECK((b.w.raw(x) & ~Big::CF) == (before[x] & ~Big::CF), "marking changed what label %zu denotes", x);
      VH_CHECK(!!(b.w.raw(x) & Big::CF) == want[x], "label %zu is %smarked after marking label %u of %zu", x, want[x] ? "not " : "", lv[m], cnt);
    }
    if (vh::g_slot)
      vh::st().transitions++;
  }
  if (vh::g_slot)
    vh::st().nontrivial++;
}

// ---- LabelDeq against std::deque -------------------------------------------
template <size_t N> static void deq_run(const Case &c, size_t at) {
  utils::LabelDeq<N> q;
  std::deque<label_t> m;
  label_t next = 1;
  bool push = true;
  for (size_t i = at; i < c.size(); i++, push = !push)
    for (int k = 0; k < c[i]; k++) {
      VH_CHECK(q.empty() == m.empty(), "queue emptiness wrong (model holds %zu)", m.size());
      if (push) {
        q.push_back(next);
        m.push_back(next++);
      } else {
        if (m.empty())
          break;
        label_t x = q.pop_front();
        VH_CHECK(x == m.front(), "queue returned %u, expected %u", x, m.front());
        m.pop_front();
      }
    }
  while (!m.empty()) {
    VH_CHECK(!q.empty(), "queue lost %zu elements", m.size());
    label_t x = q.pop_front();
    VH_CHECK(x == m.front(), "queue returned %u, expected %u", x, m.front());
    m.pop_front();
  }
  VH_CHECK(q.empty(), "queue not empty at the end");
}
static void run_deq(const Case &c) {
  switch (c[0]) {
  case 2: return deq_run<2>(c, 1);
  case 3: return deq_run<3>(c, 1);
  case 8: return deq_run<8>(c, 1);
  default: return deq_run<32>(c, 1);
  }
}
static void gen_deq(const Visit &v) {
  // all push/pop bit strings for tiny capacities
  for (int n : {2, 3, 8}) {
    int L = 14;
    for (int bits = 0; bits < (1 << L); bits++) {
      Case c{n};
      bool cur = true;
      int run = 0;
      for (int i = 0; i < L; i++) {
        bool p = (bits >> i) & 1;
        if (p == cur)
          run++;
        else {
          c.push_back(run);
          cur = p;
          run = 1;
        }
      }
      c.push_back(run);
      v(c);
    }
  }
  int t = vh::g_thorough ? 1 : 3;
  for (int a = 0; a <= 36; a++)
    for (int b = 0; b <= a; b += 1)
      for (int d = 0; d <= 36; d += t)
        for (int e = 0; e <= a - b + d; e += t)
          v({32, a, b, d, e, 34, 2, 3});
}

// ---- encoding ---------------------------------------------------------------
static std::vector<uint64_t> edge(int bits, uint64_t minv) {
  std::set<uint64_t> s;
  uint64_t mx = bits == 64 ? ~0ull : (1ull << bits) - 1;
  for (int k = 0; k < bits; k++) {
    for (int d = -2; d <= 2; d++)
      s.insert(((1ull << k) + d) & mx);
    s.insert(mx ^ (1ull << k));
    for (int j = 0; j < k; j++)
      s.insert((1ull << k) | (1ull << j));
  }
  for (uint64_t i = 0; i < 300; i++)
    s.insert(i & mx), s.insert((mx - i) & mx);
  std::vector<uint64_t> r;
  for (auto x : s)
    if (x >= minv)
      r.push_back(x);
  return r;
}
static void enc_one(const Taint &t, uint64_t want, bool is_src, bool cf) {
  uint64_t e = encode(t);
  VH_CHECK(e == want, "stored form %lx, the format says %lx", e, want);
  VH_CHECK(decode(e) == t, "stored form %lx does not decode to the taint stored", e);
  VH_CHECK(is_source_taint(e) == is_src, "input-byte test wrong for %lx", e);
  VH_CHECK(check_affects_control_flow(e) == cf, "mark test wrong for %lx", e);
  uint64_t m = add_affects_control_flow(e);
  VH_CHECK(m == (e | CFBIT), "adding the mark to %lx gave %lx", e, m);
  VH_CHECK(check_affects_control_flow(m), "mark not visible on %lx", m);
  VH_CHECK(equal_ignore_cf(e, m) && equal_ignore_cf(m, e), "comparison ignoring marks wrong for %lx", e);
  Taint back = decode(m);
  VH_CHECK(std::visit([](auto &x) { return x.affects_control_flow; }, back), "decoded mark lost on %lx", m);
  for (int b = 0; b < 64; b++) {
    if (b == 62)
      continue;
    VH_CHECK(!equal_ignore_cf(e, e ^ (1ull << b)), "entries differing in bit %d compare equal", b);
  }
}
// case [kind, slice]
static void run_enc(const Case &c) {
  int kind = c[0];
  auto lb = edge(31, 1);
  if (kind == 0) { // sources; c[1] = source index
    auto offs = edge(54, 0);
    for (auto o : offs)
      for (int cf = 0; cf < 2; cf++) {
        vh::st().transitions++;
        enc_one(SourceTaint((source_index_t)c[1], (source_offset_t)o, cf), (1ull << 63) | ((uint64_t)cf << 62) | (o << 8) | (uint64_t)(uint8_t)c[1], true, cf);
      }
  } else {
    uint64_t a = kind == 1 ? lb[c[1]] : (uint64_t)c[1];
    auto go = [&](uint64_t b) {
      if (a == b)
        return;
      for (int cf = 0; cf < 2; cf++) {
        vh::st().transitions++;
        if (a < b)
          enc_one(RangeTaint(a, b, cf), ((uint64_t)cf << 62) | (a << 31) | b, false, cf);
        uint64_t hi = std::max(a, b), lo = std::min(a, b);
        if (hi - lo > 1)
          enc_one(UnionTaint(a, b, cf), ((uint64_t)cf << 62) | (hi << 31) | lo, false, cf);
      }
    };
    if (kind == 1)
      for (auto b : lb)
        go(b);
    else
      for (uint64_t b = 1; b <= 400; b++)
        go(b);
  }
}
static void gen_enc(const Visit &v) {
  for (int i = 0; i < 256; i++)
    v({0, i});
  auto lb = edge(31, 1);
  for (size_t i = 0; i < lb.size(); i++)
    v({1, (int)i});
  for (int a = 1; a <= 400; a++)
    v({2, a});
}

// ---- bitmap -------------------------------------------------------------------
template <typename B, size_t Cap> struct Bm {
  using S = BitmapSectionBase<5, Cap, B>;
  static void run(const Case &c) {
    constexpr size_t N = S::allocation_size;
    alignas(16) uint8_t raw[N + 32];
    memset(raw, 0, sizeof raw);
    memset(raw + 8 + N, 0xA5, 16); // guard; the section starts 8 bytes in
    memset(raw, 0xA5, 8);
    uint8_t *mem = raw + 8;
    memset(mem, 0, N);
    S s(std::span<uint8_t>(mem, N));
    std::bitset<Cap> m;
    size_t hi = 0;
    VH_CHECK(s.size() == 0, "a fresh index reports %zu bytes in use", s.size());
    for (size_t i = 2; i + 1 < c.size(); i += 2) {
      size_t b = c[i], n = c[i + 1];
      if (n == (size_t)-1 || c[i + 1] < 0) {
        bool was = s.set(b);
        VH_CHECK(was == m[b], "set(%zu) reported previously %d", b, was);
        m[b] = 1;
        n = 1;
      } else {
        s.set_range(b, n);
        for (size_t k = b; k < b + n; k++)
          m[k] = 1;
      }
      if (n)
        hi = std::max(hi, b + n);
      for (size_t k = 0; k < Cap; k++)
        VH_CHECK(s.is_set(k) == m[k], "label %zu is %sflagged after op %zu", k, m[k] ? "not " : "", i / 2);
      // the stored bytes: bit k lives in byte k/8, bit k%8 (little endian words)
      for (size_t k = 0; k < N * 8; k++)
        VH_CHECK(((mem[k / 8] >> (k % 8)) & 1) == (k < Cap ? m[k] : 0), "stored bit %zu wrong", k);
      VH_CHECK(s.size() * 8 >= hi, "size %zu bytes does not cover flagged label %zu", s.size(), hi - 1);
      VH_CHECK(s.size() <= N, "size %zu exceeds the storage of %zu bytes", s.size(), N);
      VH_CHECK(s.size() % sizeof(B) == 0, "size %zu is not a whole number of words", s.size());
      VH_CHECK(s.size() <= (hi + 8 * sizeof(B) - 1) / (8 * sizeof(B)) * sizeof(B), "size %zu reports more than the words in use (highest flagged label %zu)",
               s.size(), hi - 1);
      for (int g = 0; g < 8; g++)
        VH_CHECK(raw[g] == 0xA5 && raw[8 + N + g] == 0xA5, "write outside the index");
    }
    vh::st().nontrivial += m.any();
  }
};
static void run_bm(const Case &c) {
  switch (c[0]) {
  case 8:
    return c[1] ? Bm<uint8_t, 37>::run(c) : Bm<uint8_t, 32>::run(c);
  case 16:
    return Bm<uint16_t, 75>::run(c);
  case 32:
    return Bm<uint32_t, 140>::run(c);
  default:
    return c[1] ? Bm<uint64_t, 270>::run(c) : Bm<uint64_t, 256>::run(c);
  }
}
static void gen_bm(const Visit &v) {
  struct Cfg {
    int w, odd, cap;
  } cfgs[] = {{8, 0, 32}, {8, 1, 37}, {16, 0, 75}, {32, 0, 140}, {64, 0, 256}, {64, 1, 270}};
  for (auto &f : cfgs) {
    // every single range and single bit
    for (int b = 0; b < f.cap; b++) {
      v({f.w, f.odd, b, -1});
      for (int n = 0; b + n <= f.cap; n++)
        v({f.w, f.odd, b, n});
    }
    // every ordered pair: all for 8-bit words, boundary values for wider ones
    std::vector<std::pair<int, int>> rs;
    if (f.w == 8) {
      for (int b = 0; b < f.cap; b++)
        for (int n = -1; b + n <= f.cap; n++)
          if (n != 0)
            rs.push_back({b, n});
    } else {
      std::set<int> pts;
      for (int k = 0; k <= f.cap; k += f.w)
        for (int d = -2; d <= 2; d++)
          if (k + d >= 0 && k + d <= f.cap)
            pts.insert(k + d);
      pts.insert(f.cap);
      pts.insert(f.cap - 1);
      for (int a : pts)
        for (int b : pts)
          if (a < b)
            rs.push_back({a, b - a});
    }
    if (!vh::g_thorough && f.w == 8 && f.odd)
      continue;
    for (auto &x : rs)
      for (auto &y : rs)
        v({f.w, f.odd, x.first, x.second, y.first, y.second});
  }
}
// The rejecting side: out-of-range requests must be refused without effect.
static void run_bmrej(const Case &c) {
  using S = BitmapSectionBase<5, 70, uint32_t>;
  alignas(8) uint8_t mem[S::allocation_size + 16];
  memset(mem, 0, sizeof mem);
  S s(std::span<uint8_t>(mem, S::allocation_size));
  s.set_range(3, 5);
  std::vector<uint8_t> before(mem, mem + sizeof mem);
  size_t sz = s.size();
  bool threw = false;
  try {
    if (c[0] == 0)
      s.set(c[1]);
    else if (c[0] == 1)
      s.set_range(c[1], c[2]);
    else
      (void)s.is_set(c[1]);
  } catch (ErrorExit &) {
    threw = true;
  }
  size_t end = c[0] == 1 ? (size_t)c[1] + c[2] : (size_t)c[1] + 1;
  bool must = c[0] == 1 ? (c[2] > 0 && end > 70) : end > 70;
  VH_CHECK(threw == must, "request (%d,%d,%d) was %srefused", c[0], c[1], c[2], threw ? "" : "not ");
  if (threw)
    VH_CHECK(!memcmp(before.data(), mem, sizeof mem) && s.size() == sz, "a refused request changed the index");
}
static void gen_bmrej(const Visit &v) {
  for (int b = 0; b < 100; b++) {
    v({0, b, 0});
    v({2, b, 0});
    for (int n = 0; n < 110; n++)
      v({1, b, n});
  }
}

// ---- positions in sources that cannot be asked for one --------------------
static const uint64_t SO_LEN[] = {0, 1, 7, 0x7fffffffull, 0xffffffffull, 1ull << 32, (1ull << 40) + 3};
static const int SO_IDX[] = {0, 1, 127, 128, 253, 254};
static void gen_so(const Visit &v) {
  Case c;
  int depth = vh::g_thorough ? 5 : 3;
  std::function<void()> rec = [&]() {
    if ((int)c.size() == depth)
      return v(c);
    for (int x = 0; x < 6 * 7; x++) {
      if (vh::g_thorough && c.size() >= 2 && x / 7 > 3)
        break;
      c.push_back(x);
      rec();
      c.pop_back();
    }
  };
  rec();
}
static void run_so(const Case &c) {
  auto o = std::make_unique<StreamOffset<255>>();
  std::map<int, uint64_t> m;
  for (int x : c) {
    int i = SO_IDX[x / 7];
    uint64_t n = SO_LEN[x % 7], g = o->increase(i, n);
    VH_CHECK(g == m[i], "source %d: %lu bytes start at %lu, reported at %lu", i, n, m[i], g);
    m[i] += n;
  }
  for (int i = 0; i < 255; i++) {
    uint64_t g = o->increase(i, 1);
    VH_CHECK(g == m[i], "source %d ended at %lu, reported at %lu", i, m[i], g);
  }
  bool threw = false;
  try {
    o->increase(255, 1);
  } catch (ErrorExit &) {
    threw = true;
  }
  vh::st().transitions += c.size();
  vh::st().nontrivial++;
  VH_CHECK(threw, "an advance of a source that does not exist was accepted");
}

int main(int argc, char **argv) {
  error_function = throwing;
  std::vector<vh::Suite> S;
  std::vector<int> allroots{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11};
  for (Prop p : {P1, P2, P3}) {
    std::string n = "c0" + std::to_string((int)p);
    bool mk = p == P3;
    S.push_back({n + "_bfs",
                 "explicit-state search over label tables: from 12 input layouts every combine(l,r)" + std::string(" and mark(l)") +
                     ", with further reads; states merged on the stored table; non-trivial = transition reaching a new table",
                 [=](const Visit &) {
                   bool t = vh::g_thorough;
                   // deep on the small layouts, shallower on the wide ones
                   std::vector<BfsCfg> cf;
                   size_t k = t ? 1 : 0;
                   for (int r : {0, 1, 5})
                     cf.push_back({r, 9 + k, mk, (mk ? 5 : 6) + k});
                   for (int r : {2, 3, 4, 7, 8})
                     cf.push_back({r, 10, mk, (mk ? 4 : 5) + k});
                   for (int r : {6, 9, 10, 11})
                     cf.push_back({r, 12, mk, (mk ? 3 : 3) + k});
                   if (!mk)
                     for (int r : {0, 1, 3, 5})
                       cf.push_back({r, 9, true, 4 + k});
                   gen_bfs(p, cf);
                 },
                 [p](const Case &c) { run_hist(p, c); }, false, 60, desc_hist});
    S.push_back({n + "_dfs", "every history of reads, combinations and marks up to the depth, without merging states; the last operation is checked",
                 [=](const Visit &v) {
                   gen_dfs(v, {0}, vh::g_thorough ? 6 : 5, true);
                   gen_dfs(v, {1, 5, 2, 3, 4, 8}, vh::g_thorough ? 5 : 4, true);
                   gen_dfs(v, {6, 7, 9, 10, 11}, 3, true);
                 },
                 [p](const Case &c) { run_hist(p, c); }, false, 60, desc_hist});
    S.push_back({n + "_dist", "combine two of 7 labels, create K other labels (K around every search-distance boundary), combine again and build on the result",
                 [=](const Visit &v) {
                   std::vector<int> Ks;
                   for (int k = 0; k <= (vh::g_thorough ? 300 : 130); k++)
                     Ks.push_back(k);
                   for (int k : {200, 254, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025})
                     if (k < 1000)
                       Ks.push_back(k);
                   for (int K : Ks)
                     for (int l = 0; l < 7; l++)
                       for (int r = 0; r < 7; r++)
                         for (int sh = 0; sh < 2; sh++)
                           for (int var = 0; var < 3; var++)
                             v({sh, K, 0, l, r, var});
                   for (int K = 90; K < 110; K++)
                     for (int l = 0; l < 7; l++)
                       for (int r = 0; r < 7; r++)
                         v({0, K, 1, l, r, 0});
                 },
                 [p](const Case &c) { run_dist(p, c); }, false, 60,
                 [](const Case &c) { return "combine labels #" + std::to_string(c[3]) + ",#" + std::to_string(c[4]) + ", " + std::to_string(c[1]) + " other labels, repeat"; }});
    S.push_back({n + "_high", "all short histories with labels placed at 2^8, 2^15, 2^16, 2^24, 2^30 and the last labels below 2^31, input offsets at the top of their range",
                 [=](const Visit &v) { gen_high(p, v); }, [p](const Case &c) { run_high(p, c); }, true, 120, {}});
  }
  S.push_back({"c03_graph", "chains, fans, two-level fans, trees and ranges of every size up to the bound, each mark target and prior mark", gen_graph, run_graph, false, 60,
               [](const Case &c) { return "graph shape " + std::to_string(c[0]) + " n=" + std::to_string(c[1]) + " m=" + std::to_string(c[2]); }});
  S.push_back({"c01_big", "runs of up to 65537 input bytes accumulated one by one from two starting points, all pairs of their boundary labels combined", gen_c01big, run_c01big, false, 60, {}});
  S.push_back({"c01_scale", "operands of up to 2^20+1 input bytes at distances up to 2^20+1, every pair of shapes and both orders, and six combinations on top", gen_scale,
               [](const Case &c) { run_scale(false, c); }, true, 60, {}});
  S.push_back({"c02_scale", "the same operands: one label per combination, repeated at once", gen_scale, [](const Case &c) { run_scale(true, c); }, true, 60, {}});
  S.push_back({"c02_reuse", "repeat after K<100 other labels, with operands of every magnitude up to 2^20", gen_reuse, run_reuse, false, 60, {}});
  S.push_back({"c02_block", "blocks of 1 to 2^25+3 input bytes at four starting offsets after an earlier block: consecutive and denoting the bytes read", gen_block, run_block, true, 60, {}});
  S.push_back({"c03_big", "runs of input bytes, runs of derived labels, chains and two-level runs of 255 to 65537 labels, each pair of marks", gen_c03big, run_c03big, false, 60, {}});
  S.push_back({"c03_deq", "every push/pop string of length 14 on capacities 2,3,8 and every (push a, pop b, push c, pop d, ...) on capacity 32, against std::deque", gen_deq,
               run_deq, false, 60, {}});
  S.push_back({"c04_enc", "all 256 source numbers x boundary offsets; all pairs of boundary labels; all label pairs up to 400; both mark values", gen_enc, run_enc, false, 60, {}});
  S.push_back({"c05_bitmap", "every single range and bit, every ordered pair of ranges (8-bit words) or of boundary ranges (16, 32, 64-bit words)", gen_bm, run_bm, false, 60,
               [](const Case &c) {
                 std::string s = std::to_string(c[0]) + "-bit words:";
                 for (size_t i = 2; i + 1 < c.size(); i += 2)
                   s += " [" + std::to_string(c[i]) + ",+" + std::to_string(c[i + 1]) + ")";
                 return s;
               }});
  S.push_back({"c05_reject", "every request around the capacity of a 70-label index", gen_bmrej, run_bmrej, false, 60, {}});
  S.push_back({"c15_off", "all sequences of 3 (thorough 5) advances of chosen ones of 255 positions by amounts around 0, 2^31, 2^32 and 2^40", gen_so, run_so, false, 60, {}});
  return vh::main_(argc, argv, S);
}
