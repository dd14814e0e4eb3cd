// Recorder: the real recording code behind a C interface, driven from Python.
// Calls return -2 when the code reported an error (error_exit).
#include "taintdag/outputfile.h"
#include "taintdag/error.h"
#include "taintdag/polytracker.h"
#include <sanitizer/dfsan_interface.h>
#include <string_view>
using namespace taintdag;
extern "C" void vh_shadow_clear();
namespace {
struct Stop {};
// The sections of the trace, for values the PolyTracker interface cannot set.
using Bits = BitmapSectionBase<5, BitCount{max_label} + 1>;
using File = OutputFile<Sources, Labels, StringTable, TaintSink, Bits, Functions, Events, ControlFlowLog>;
template <class F> int64_t guard(F &&f) {
  try {
    return f();
  } catch (Stop &) {
    return -2;
  }
}
util::Offset off(int64_t o) { return o < 0 ? util::Offset{} : util::Offset::from_off_t(o); }
int64_t rng(std::optional<taint_range_t> r, uint32_t *out) {
  if (!r)
    return -1;
  out[0] = r->first;
  out[1] = r->second;
  return 0;
}
uint8_t mem[1 << 17];
} // namespace
#define X extern "C" __attribute__((visibility("default")))
X void rec_init() {
  error_function = [](int) { throw Stop{}; };
}
X void *rec_new(const char *p) {
  vh_shadow_clear();
  try {
    return new PolyTracker(std::filesystem::path{p});
  } catch (Stop &) {
    return nullptr;
  }
}
X void rec_del(PolyTracker *p) { delete p; }
X int64_t rec_open(PolyTracker *p, int fd, const char *n, size_t len) {
  return guard([&] { p->open_file(fd, std::filesystem::path{std::string{n, len}}); return 0; });
}
X int64_t rec_close(PolyTracker *p, int fd) {
  return guard([&] { p->close_file(fd); return 0; });
}
// Labels the harness memory at [at, at+n).
X int64_t rec_read(PolyTracker *p, int fd, int64_t o, size_t at, size_t n, uint32_t *out) {
  return guard([&] { return rng(p->source_taint(fd, mem + at, off(o), n), out); });
}
X int64_t rec_readv(PolyTracker *p, int fd, int64_t o, size_t n, uint32_t *out) {
  return guard([&] { return rng(p->source_taint(fd, off(o), n), out); });
}
X int64_t rec_named(PolyTracker *p, const char *nm, size_t len, size_t at, size_t n, uint32_t *out) {
  return guard([&] { return rng(p->create_taint_source({nm, len}, {mem + at, n}), out); });
}
X uint32_t rec_label(size_t at) { return dfsan_read_label(mem + at, 1); }
X void rec_set(size_t at, uint32_t l) { dfsan_set_label(l, mem + at, 1); }
X int64_t rec_union(PolyTracker *p, uint32_t a, uint32_t b) {
  return guard([&] { return (int64_t)p->union_labels(a, b); });
}
X int64_t rec_cf(PolyTracker *p, uint32_t l) {
  return guard([&] { p->affects_control_flow(l); return 0; });
}
X int64_t rec_sink(PolyTracker *p, int fd, int64_t o, size_t at, size_t n) {
  return guard([&] { p->taint_sink(fd, off(o), mem + at, n); return 0; });
}
X int64_t rec_sinkl(PolyTracker *p, int fd, int64_t o, uint32_t l, size_t n) {
  return guard([&] { p->taint_sink(fd, off(o), l, n); return 0; });
}
X int64_t rec_tcf(PolyTracker *p, uint32_t l, uint32_t fn) {
  return guard([&] { p->log_tainted_control_flow(l, fn); return 0; });
}
X int64_t rec_enter(PolyTracker *p, uint32_t fn) {
  return guard([&] { p->enter_function(fn); return 0; });
}
X int64_t rec_leave(PolyTracker *p, uint32_t fn) {
  return guard([&] { p->leave_function(fn); return 0; });
}
X int64_t rec_fentry(PolyTracker *p, const char *n, size_t len) {
  return guard([&] { return (int64_t)p->function_entry({n, len}); });
}
X int64_t rec_fexit(PolyTracker *p, uint32_t i) {
  return guard([&] { p->function_exit(i); return 0; });
}
X File *sec_new(const char *p) {
  try {
    return new File(std::filesystem::path{p});
  } catch (Stop &) {
    return nullptr;
  }
}
X void sec_del(File *f) { delete f; }
X int64_t sec_source(File *f, const char *n, size_t len, int fd, uint64_t size) {
  return guard([&]() -> int64_t {
    auto r = f->section<Sources>().add_source({n, len}, fd, size);
    return r ? (int64_t)*r : -1;
  });
}
X int64_t sec_labels(File *f, uint32_t src, int64_t o, size_t n, uint32_t *out) {
  return guard([&] { return rng(f->section<Labels>().create_source_labels(src, o, n), out); });
}
X int64_t sec_sink(File *f, int64_t o, uint32_t l, uint32_t idx) {
  return guard([&] { f->section<TaintSink>().log_single(o, l, idx); return 0; });
}
X int64_t sec_string(File *f, const char *n, size_t len) {
  return guard([&]() -> int64_t {
    auto r = f->section<StringTable>().add_string({n, len});
    return r ? (int64_t)*r : -1;
  });
}
X uint64_t rec_enc(int kind, uint64_t a, uint64_t b, int cf) {
  Taint t = kind == 0   ? Taint{SourceTaint((source_index_t)a, (source_offset_t)b)}
            : kind == 1 ? Taint{UnionTaint((label_t)a, (label_t)b)}
                        : Taint{RangeTaint((label_t)a, (label_t)b)};
  auto e = encode(t);
  return cf ? add_affects_control_flow(e) : e;
}
