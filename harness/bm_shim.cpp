// The index and the stream offsets of the runtime, instrumented for the
// schedule explorer, with buckets of 8 bits so that few bits span several.
#include "taintdag/outputfile.h"

#include "taintdag/bitmap_section.h"
#include "taintdag/stream_offset.h"
#include <new>

using Bm = taintdag::BitmapSectionBase<5, 40, uint8_t>;
using So = taintdag::StreamOffset<3>;
alignas(16) static uint8_t g_mem[64];
alignas(Bm) static uint8_t g_obj[sizeof(Bm)];
alignas(So) static uint8_t g_so[sizeof(So)];
extern "C" {
void bm_init() {
  for (auto &x : g_mem)
    x = 0;
  new (g_obj) Bm(std::span<uint8_t>(g_mem, Bm::allocation_size));
  new (g_so) So();
}
bool bm_set(size_t b) { return reinterpret_cast<Bm *>(g_obj)->set(b); }
void bm_range(size_t b, size_t n) { reinterpret_cast<Bm *>(g_obj)->set_range(b, n); }
bool bm_get(size_t b) { return reinterpret_cast<Bm *>(g_obj)->is_set(b); }
size_t bm_size() { return reinterpret_cast<Bm *>(g_obj)->size(); }
uint64_t so_inc(size_t i, size_t n) { return reinterpret_cast<So *>(g_so)->increase(i, n); }
}
