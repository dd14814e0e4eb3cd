// C34: the hooks the instrumentation calls, before and after tracking starts.
#include "io.h"

struct H {
  bool on = false;
  lab nlab = 1;
  std::set<lab> marks;
  std::vector<std::string> fns;
  std::vector<std::pair<int, unsigned>> ev;
  std::vector<Tdag::Cf> cf;
  int last = -1;
  uint8_t b[8];
  void entry(const std::string &name) {
    // the hook takes a length, not a terminated string; all names are passed in
    // the same buffer
    static char n[1 << 17];
    memcpy(n, name.data(), name.size());
    n[name.size()] = '#';
    unsigned i = __polytracker_log_func_entry(n, name.size());
    if (!on) {
      VH_CHECK(i == 0, "function entry before the start returned %u", i);
      return;
    }
    unsigned k = 0;
    while (k < fns.size() && fns[k] != name)
      k++;
    if (k == fns.size())
      fns.push_back(name);
    VH_CHECK(i == k, "function entry of the function numbered %u returned %u", k, i);
    ev.push_back({0, i});
    last = i;
  }
  void exit_() {
    if (on && last < 0)
      return; // nothing recorded to return from
    __polytracker_log_func_exit(last < 0 ? 0 : last);
    if (on && last >= 0)
      ev.push_back({1, (unsigned)last});
  }
  void branch(lab l, int how) {
    if (how)
      __dfsw___polytracker_log_conditional_branch(12345, l);
    else
      __polytracker_log_conditional_branch(l);
    if (on && l)
      marks.insert(l);
  }
  void tcf(uint64_t v, uint32_t fid, lab l) {
    RL r;
    uint64_t got = __dfsw___polytracker_log_tainted_control_flow(v, fid, l, 0, &r);
    VH_CHECK(got == v, "the value 0x%lx that decides a branch became 0x%lx", (long)v, (long)got);
    r.check("the control-flow hook");
    VH_CHECK(r.v == l, "the value that decides a branch has label %u, after the hook %u", l, r.v);
    if (on && l)
      cf.push_back({2, fid, l});
    vh::st().nontrivial++;
  }
  void fn(uint32_t id, bool in) {
    in ? __polytracker_enter_function(id) : __polytracker_leave_function(id);
    if (on)
      cf.push_back({in ? 0 : 1, id, 0});
  }
  void join(lab a, lab b) {
    lab u = __polytracker_union_table(a, b);
    if (!on) {
      VH_CHECK(u == 0, "combining labels before the start gave label %u", u);
      return;
    }
    if (a == b || !a || !b) {
      VH_CHECK(u == (a ? a : b), "combining labels %u and %u gave %u", a, b, u);
      return;
    }
    VH_CHECK(u != 0 && u <= nlab, "combining labels %u and %u gave %u", a, b, u);
    if (u == nlab)
      nlab++;
  }
  void start() {
    start_runtime();
    on = true;
    RL r;
    lab va[2];
    int fd = __dfsw_open("w/A", O_RDONLY, 0, 0, va, &r);
    VH_CHECK(__dfsw_read(fd, b, 4, 0, 0, 0, &r) == 4, "harness: read");
    for (int i = 0; i < 4; i++)
      VH_CHECK(dfsan_read_label(b + i, 1) == (lab)i + 1, "harness: the first labels are not 1 to 4");
    nlab = 5;
  }
};
static H *g_h;
static void verify(Tdag &t) {
  H &h = *g_h;
  VH_CHECK(t.nlabels() == h.nlab, "%zu labels are recorded, %u were created", t.nlabels(), h.nlab);
  std::set<lab> want;
  std::vector<lab> q(h.marks.begin(), h.marks.end());
  while (!q.empty()) {
    lab l = q.back();
    q.pop_back();
    if (!want.insert(l).second || t.raw(l) >> 63)
      continue;
    lab a = (t.raw(l) >> 31) & 0x7fffffff, b = t.raw(l) & 0x7fffffff;
    if (a < b)
      for (lab x = a; x <= b; x++)
        q.push_back(x);
    else {
      q.push_back(a);
      q.push_back(b);
    }
  }
  for (lab l = 1; l < h.nlab; l++)
    VH_CHECK(t.cf(l) == !!want.count(l), "label %u is %smarked as deciding a branch", l, t.cf(l) ? "" : "not ");
  VH_CHECK(t.nfn() == h.fns.size(), "%zu functions are recorded, %zu were entered", t.nfn(), h.fns.size());
  for (size_t i = 0; i < h.fns.size(); i++)
    VH_CHECK(t.fn(i) == h.fns[i], "function %zu is recorded as a name of length %zu, it has %zu", i, t.fn(i).size(), h.fns[i].size());
  VH_CHECK(t.nev() == h.ev.size(), "%zu function events are recorded, there were %zu", t.nev(), h.ev.size());
  for (size_t i = 0; i < h.ev.size(); i++)
    VH_CHECK(t.ev(i) == h.ev[i], "function event %zu is recorded wrong", i);
  VH_CHECK(t.cflog() == h.cf, "the control-flow log does not hold the %zu events that happened", h.cf.size());
}
using Ops = std::vector<Op<H>>;
static bool any(Abs &) { return true; }
static Ops ops(bool on) {
  Ops o;
  o.push_back({"entry(f)", any, [](H &h) { h.entry("f"); }});
  o.push_back({"entry(fg)", any, [](H &h) { h.entry("fg"); }});
  o.push_back({"entry(gh)", any, [](H &h) { h.entry("gh"); }});
  o.push_back({"exit", any, [](H &h) { h.exit_(); }});
  o.push_back({"branch(0)", any, [](H &h) { h.branch(0, 0); }});
  o.push_back({"branch(1)", any, [](H &h) { h.branch(1, 0); }});
  o.push_back({"dfsw branch(last)", any, [](H &h) { h.branch(h.nlab - 1, 1); }});
  o.push_back({"control flow(1,7,1)", any, [](H &h) { h.tcf(1, 7, 1); }});
  o.push_back({"control flow(-1,300,0)", any, [](H &h) { h.tcf(~0ull, 300, 0); }});
  o.push_back({"control flow(0,0,last)", any, [](H &h) { h.tcf(0, 0, h.nlab - 1); }});
  o.push_back({"enter(7)", any, [](H &h) { h.fn(7, true); }});
  o.push_back({"leave(7)", any, [](H &h) { h.fn(7, false); }});
  o.push_back({"enter(2^32-1)", any, [](H &h) { h.fn(~0u, true); }});
  o.push_back({"union(1,2)", any, [](H &h) { h.join(1, 2); }});
  o.push_back({"union(last,1)", any, [](H &h) { h.join(h.nlab - 1, 1); }});
  o.push_back({"union(4,0)", any, [](H &h) { h.join(4, 0); }});
  if (on)
    o.push_back({"union(2,4)", any, [](H &h) { h.join(2, 4); }});
  return o;
}
static const uint64_t VAL[] = {0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 1ull << 32, (1ull << 63) - 1, 1ull << 63, ~0ull};
static const lab LAB[] = {0, 1, 2, 4, 5, 6};
static const uint32_t FID[] = {0, 1, 127, 128, 300, 16383, 16384, 1u << 21, 1u << 28, 1u << 31, ~0u};
static const int LEN[] = {0, 1, 2, 127, 128, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 4095, 4096, 4097, 32767, 32768, 65534, 65535};
int main(int argc, char **argv) {
  std::vector<vh::Suite> suites;
  static Ops pre = ops(false), post = ops(true);
  {
    vh::Suite s;
    s.name = "c34_hooks";
    s.rule = "all sequences of instrumentation hooks, some called before tracking starts (as global constructors do), the others after";
    s.fork_each = true;
    s.gen = [](const Visit &v) {
      fixtures();
      auto rec = [&](int np, int nq) {
        Case c{np};
        std::function<void(int)> go = [&](int i) {
          if (i == np + nq) {
            v(c);
            return;
          }
          for (int k = 0; k < (int)(i < np ? pre : post).size(); k++) {
            c.push_back(k);
            go(i + 1);
            c.pop_back();
          }
        };
        go(0);
      };
      int d = vh::g_thorough ? 1 : 0;
      rec(2 + d, 1);
      rec(1, 3);
      rec(0, 3 + d);
      rec(2, 2);
    };
    s.run = [](const Case &c) {
      fixtures();
      static H h;
      g_h = &h;
      for (int i = 0; i < c[0]; i++)
        pre[c[1 + i]].run(h);
      h.start();
      for (size_t i = 1 + c[0]; i < c.size(); i++)
        post[c[i]].run(h);
      vh::st().transitions += c.size();
      end_case(verify);
    };
    s.describe = [](const Case &c) {
      std::string o = "before the start: ";
      for (int i = 0; i < c[0]; i++)
        o += pre[c[1 + i]].name + "; ";
      o += "after: ";
      for (size_t i = 1 + c[0]; i < c.size(); i++)
        o += post[c[i]].name + "; ";
      return o;
    };
    suites.push_back(s);
  }
  {
    vh::Suite s;
    s.name = "c34_values";
    s.rule = "the control-flow hook with every value, label and function number of a boundary set, before and after the start; function entries with names of every boundary length";
    s.fork_each = true;
    s.gen = [](const Visit &v) {
      fixtures();
      for (int on = 0; on < 2; on++)
        for (int x = 0; x < (int)std::size(VAL); x++)
          for (int l = 0; l < (int)std::size(LAB); l++)
            for (int f = 0; f < (int)std::size(FID); f++)
              v({on, x, l, f});
      for (int i = 0; i < (int)std::size(LEN); i++)
        for (int j = 0; j < (int)std::size(LEN); j++)
          v({2, i, j, 0}), v({2, i, j, 1});
    };
    s.run = [](const Case &c) {
      fixtures();
      static H h;
      g_h = &h;
      if (c[0] == 0)
        h.tcf(VAL[c[1]], FID[c[3]], LAB[c[2]]);
      h.start();
      h.join(1, 3);
      h.join(2, 5);
      VH_CHECK(h.nlab == 7, "harness: labels");
      if (c[0] == 1)
        h.tcf(VAL[c[1]], FID[c[3]], LAB[c[2]]);
      if (c[0] == 2) {
        h.entry(std::string(LEN[c[1]], 'n'));
        h.entry(std::string(LEN[c[2]], 'n' + c[3]));
        h.exit_();
        vh::st().nontrivial++;
      }
      vh::st().transitions++;
      end_case(verify);
    };
    s.describe = [](const Case &c) {
      if (c[0] == 2)
        return "function names of length " + std::to_string(LEN[c[1]]) + " and " + std::to_string(LEN[c[2]]);
      return std::string(c[0] ? "after" : "before") + " the start, value " + std::to_string(VAL[c[1]]) + ", label " + std::to_string(LAB[c[2]]) + ", function " + std::to_string(FID[c[3]]);
    };
    suites.push_back(s);
  }
  return vh::main_(argc, argv, suites);
}
