// Stand-in shadow memory for harnesses that do not link the dfsan runtime.
#include <cstddef>
#include <cstdint>
#include <mutex>
#include <unordered_map>
#include <sanitizer/dfsan_interface.h>
static std::unordered_map<uintptr_t, dfsan_label> *sh() {
  static auto *m = new std::unordered_map<uintptr_t, dfsan_label>;
  return m;
}
extern "C" void vh_shadow_clear() { sh()->clear(); }
extern "C" void dfsan_set_label(dfsan_label l, void *p, size_t n) {
  for (size_t i = 0; i < n; i++)
    (*sh())[(uintptr_t)p + i] = l;
}
extern "C" dfsan_label dfsan_read_label(const void *p, size_t n) {
  auto it = sh()->find((uintptr_t)p);
  return it == sh()->end() ? 0 : it->second;
}
