From 84a36fe102e631ae88e9cf072747bfdb634801c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:14 +0000
Subject: [PATCH 01/73] fix: bitmap section size counts only words holding set
 bits after set_range

set_range advanced the bucket cursor past the last written bucket before
updating the number of buckets in use, so size() over-reported by one bucket
and exceeded the section's storage when the range ended at its capacity.
---
 polytracker/include/taintdag/bitmap_section.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/include/taintdag/bitmap_section.h b/polytracker/include/taintdag/bitmap_section.h
index c024d89..8776679 100644
--- a/polytracker/include/taintdag/bitmap_section.h
+++ b/polytracker/include/taintdag/bitmap_section.h
@@ -116,6 +116,8 @@ public:
       error_exit("Trying to set bit beyond capacity.");
 
     auto current_bucket = bucket_index(bit_begin);
+    // The bucket holding the last bit to set, i.e. the highest bucket in use.
+    const auto last_bucket = bucket_index(bit_begin + n - 1);
     const auto bucket_bit_start = bit_begin % bits_per_bucket;
 
     // If bit_begin is not aligned to the bucket size, this will
@@ -154,7 +156,7 @@ public:
       set_bits(bucket(current_bucket), mask_post);
     }
     // NOTE(hbrodin): See the comment in set about potential inconsistency.
-    update_buckets_used(current_bucket);
+    update_buckets_used(last_bucket);
   }
 
   // Returns wheter the bit designated by bitno is set or not.
-- 
2.43.0


From 8cc8cec7ca98f42dc144239d861886c4551e7637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:17 +0000
Subject: [PATCH 02/73] verif hook: POLYTRACKER_VERIF leaves the (already zero)
 bitmap pages untouched

---
 polytracker/include/taintdag/bitmap_section.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/polytracker/include/taintdag/bitmap_section.h b/polytracker/include/taintdag/bitmap_section.h
index 8776679..3ed40a6 100644
--- a/polytracker/include/taintdag/bitmap_section.h
+++ b/polytracker/include/taintdag/bitmap_section.h
@@ -68,8 +68,10 @@ public:
     if (mapped_range.size() < allocation_size)
       error_exit("BitmapSectionBase, allocated memory is too small.");
 
+#ifndef POLYTRACKER_VERIF
     // Construct the atomic values (shouldn't initialize to any specific value).
     new (&*mem_.begin()) atomic_t[bucket_count];
+#endif
   }
 
   // Constructor used when constructing as part of an OutputFile.
-- 
2.43.0


From 3b484c94f0c8f25ce1262ba6a7900713eccea7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:19 +0000
Subject: [PATCH 03/73] fix: open, open64 and openat pass on the file mode and
 openat takes its dirfd label

---
 .../src/taint_sources/taint_sources.cpp       | 39 ++++++++++++-------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index fba8458..10cf84c 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -47,13 +47,17 @@ extern void polytracker_end();
 // Following the libc custom functions from custom.cc
 namespace {
 
-static int impl_open(const char *path, int oflags, dfsan_label path_label,
-                     dfsan_label flag_label, dfsan_label *va_labels,
-                     dfsan_label *ret_label, ...) {
-  va_list args;
-  va_start(args, ret_label);
-  int fd = open(path, oflags, args);
-  va_end(args);
+// The mode argument is only present if the call might create a file.
+static mode_t open_mode(int oflags, va_list args) {
+  if ((oflags & O_CREAT) || (oflags & O_TMPFILE) == O_TMPFILE) {
+    return va_arg(args, mode_t);
+  }
+  return 0;
+}
+
+static int impl_open(const char *path, int oflags, mode_t mode,
+                     dfsan_label *ret_label) {
+  int fd = open(path, oflags, mode);
 
   if (fd >= 0) {
     get_polytracker_tdag().open_file(fd, path);
@@ -159,24 +163,33 @@ static size_t impl_fread(F &&fread_function, FILE *fd, void *buff, size_t size,
 EXT_C_FUNC int __dfsw_open(const char *path, int oflags, dfsan_label path_label,
                            dfsan_label flag_label, dfsan_label *va_labels,
                            dfsan_label *ret_label, ...) {
-  return impl_open(path, oflags, path_label, flag_label, va_labels, ret_label);
+  va_list args;
+  va_start(args, ret_label);
+  auto mode = open_mode(oflags, args);
+  va_end(args);
+  return impl_open(path, oflags, mode, ret_label);
 }
 
 EXT_C_FUNC int __dfsw_open64(const char *path, int oflags,
                              dfsan_label path_label, dfsan_label flag_label,
                              dfsan_label *va_labels, dfsan_label *ret_label,
                              ...) {
-  return impl_open(path, oflags, path_label, flag_label, va_labels, ret_label);
+  va_list args;
+  va_start(args, ret_label);
+  auto mode = open_mode(oflags, args);
+  va_end(args);
+  return impl_open(path, oflags, mode, ret_label);
 }
 
 EXT_C_FUNC int __dfsw_openat(int dirfd, const char *path, int oflags,
-                             dfsan_label path_label, dfsan_label flag_label,
-                             dfsan_label *va_labels, dfsan_label *ret_label,
-                             ...) {
+                             dfsan_label dirfd_label, dfsan_label path_label,
+                             dfsan_label flag_label, dfsan_label *va_labels,
+                             dfsan_label *ret_label, ...) {
   va_list args;
   va_start(args, ret_label);
-  int fd = openat(dirfd, path, oflags, args);
+  auto mode = open_mode(oflags, args);
   va_end(args);
+  int fd = openat(dirfd, path, oflags, mode);
 
   if (fd >= 0) {
     get_polytracker_tdag().open_file(fd, path);
-- 
2.43.0


From 51900e04d93cf7acc83b1b19a63b7e0196ec1927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:47 +0000
Subject: [PATCH 04/73] fix: a closed descriptor no longer stands for the file
 it was opened as

---
 polytracker/include/taintdag/taint_source.h    | 18 +++++++++++++++++-
 .../src/taint_sources/taint_sources.cpp        | 10 +++-------
 polytracker/src/taintdag/polytracker.cpp       |  3 +--
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/polytracker/include/taintdag/taint_source.h b/polytracker/include/taintdag/taint_source.h
index c55eec0..b62db5f 100644
--- a/polytracker/include/taintdag/taint_source.h
+++ b/polytracker/include/taintdag/taint_source.h
@@ -8,6 +8,8 @@
 
 #pragma once
 
+#include <array>
+#include <atomic>
 #include <limits>
 #include <optional>
 
@@ -86,11 +88,22 @@ struct Sources : public FixedSizeAlloc<SourceEntry> {
   std::optional<index_t> mapping_idx(int fd) const {
     if (auto ptr = find_reverse_if(
             [fd](SourceEntry const &se) { return se.fd == fd; })) {
-      return index(*ptr);
+      // The descriptor might since have been reused for something not tracked.
+      if (auto idx = index(*ptr); !closed_[idx].load()) {
+        return idx;
+      }
     }
     return {};
   }
 
+  // The descriptor fd no longer represents the source it was added for. The
+  // entry itself is kept.
+  void close_source(int fd) {
+    if (auto idx = mapping_idx(fd)) {
+      closed_[*idx] = true;
+    }
+  }
+
   // TODO(hbrodin): idx is currently not checked to be within bounds.
   SourceEntry get(index_t idx) { return *(begin() + idx); }
 
@@ -106,6 +119,9 @@ private:
   }
 
   StringTable &st_;
+
+  // Sources whose descriptor has been closed
+  std::array<std::atomic<bool>, size_t{max_source_index} + 1> closed_{};
 };
 
 } // namespace taintdag
diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index 10cf84c..b35cbad 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -213,22 +213,18 @@ EXT_C_FUNC FILE *__dfsw_fopen(const char *filename, const char *mode,
 
 EXT_C_FUNC int __dfsw_close(int fd, dfsan_label fd_label,
                             dfsan_label *ret_label) {
+  // Before the close, as the descriptor might be reused as soon as it is closed
+  get_polytracker_tdag().close_file(fd);
   int ret = close(fd);
 
-  if (ret == 0)
-    get_polytracker_tdag().close_file(fd);
-
   *ret_label = 0;
   return ret;
 }
 
 EXT_C_FUNC int __dfsw_fclose(FILE *fd, dfsan_label fd_label,
                              dfsan_label *ret_label) {
-  int fno = fileno(fd);
+  get_polytracker_tdag().close_file(fileno(fd));
   int ret = fclose(fd);
-
-  if (ret == 0)
-    get_polytracker_tdag().close_file(fno);
   *ret_label = 0;
   return ret;
 }
diff --git a/polytracker/src/taintdag/polytracker.cpp b/polytracker/src/taintdag/polytracker.cpp
index 65b683a..e88521b 100644
--- a/polytracker/src/taintdag/polytracker.cpp
+++ b/polytracker/src/taintdag/polytracker.cpp
@@ -41,8 +41,7 @@ void PolyTracker::open_file(int fd, std::filesystem::path const &path) {
 }
 
 void PolyTracker::close_file(int fd) {
-  // TODO (hbrodin): Noop for now.
-  (void)fd;
+  output_file_.section<Sources>().close_source(fd);
 }
 
 taint_range_t PolyTracker::create_source_taint(source_index_t src,
-- 
2.43.0


From 9aeba8b7f94643f2362f1373d3552da52f0d5c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:47 +0000
Subject: [PATCH 05/73] fix: sources without a descriptor are never found by
 descriptor -1

---
 polytracker/include/taintdag/taint_source.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/polytracker/include/taintdag/taint_source.h b/polytracker/include/taintdag/taint_source.h
index b62db5f..8205816 100644
--- a/polytracker/include/taintdag/taint_source.h
+++ b/polytracker/include/taintdag/taint_source.h
@@ -86,6 +86,10 @@ struct Sources : public FixedSizeAlloc<SourceEntry> {
   }
 
   std::optional<index_t> mapping_idx(int fd) const {
+    // Sources without a descriptor can't be found by descriptor.
+    if (fd == SourceEntry::InvalidFD) {
+      return {};
+    }
     if (auto ptr = find_reverse_if(
             [fd](SourceEntry const &se) { return se.fd == fd; })) {
       // The descriptor might since have been reused for something not tracked.
-- 
2.43.0


From 13b4a68ff932fb38ecf2ad87a798b40b65238cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:47 +0000
Subject: [PATCH 06/73] fix: fgets labels lines containing NUL characters
 completely

---
 .../src/taint_sources/taint_sources.cpp       | 41 +++++++++++++++++--
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index b35cbad..3eec4b6 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -9,6 +9,7 @@
 #include <algorithm>
 #include <arpa/inet.h>
 #include <assert.h>
+#include <errno.h>
 #include <fcntl.h>
 #include <iostream>
 #include <mutex>
@@ -158,6 +159,37 @@ static size_t impl_fread(F &&fread_function, FILE *fd, void *buff, size_t size,
   return ret;
 }
 
+// fgets, additionally reporting the number of characters read in `length`. That
+// can't be determined from the result as the input might contain NUL.
+static char *fgets_counted(char *str, int count, FILE *file, size_t &length) {
+  length = 0;
+  if (count <= 0) {
+    return nullptr;
+  }
+
+  size_t max_length = count - 1;
+  int c = 0;
+  flockfile(file);
+  while (length < max_length && (c = getc_unlocked(file)) != EOF) {
+    str[length++] = c;
+    if (c == '\n') {
+      break;
+    }
+  }
+  // As fgets, EAGAIN is reported by the next read if there is something to
+  // return.
+  bool failed = c == EOF &&
+                (length == 0 || (!feof_unlocked(file) && errno != EAGAIN));
+  funlockfile(file);
+
+  if (failed) {
+    length = 0;
+    return nullptr;
+  }
+  str[length] = '\0';
+  return str;
+}
+
 } // namespace
 
 EXT_C_FUNC int __dfsw_open(const char *path, int oflags, dfsan_label path_label,
@@ -306,10 +338,11 @@ EXT_C_FUNC char *__dfsw_fgets(char *str, int count, FILE *fd,
                               dfsan_label str_label, dfsan_label count_label,
                               dfsan_label fd_label, dfsan_label *ret_label) {
   auto offset = Offset::from_file(fd);
-  char *ret = fgets(str, count, fd);
-  auto length = Length::from_returned_string(ret);
-  taint_source_buffer(fileno(fd), str, offset, length, *ret_label);
-  if (length.valid()) {
+  size_t length{0};
+  char *ret = fgets_counted(str, count, fd, length);
+  taint_source_buffer(fileno(fd), str, offset,
+                      Length::from_returned_size(length), *ret_label);
+  if (ret) {
     *ret_label = str_label;
   }
   return ret;
-- 
2.43.0


From 0908b6234c4f75e20c99a87d841a011e9fcf1067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:47 +0000
Subject: [PATCH 07/73] fix: mmap labels only the bytes that come from the file

---
 polytracker/src/taint_sources/taint_sources.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index 3eec4b6..dce85a0 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -400,8 +400,15 @@ EXT_C_FUNC void *__dfsw_mmap(void *start, size_t length, int prot, int flags,
                              dfsan_label offset_label, dfsan_label *ret_label) {
   auto offs = Offset::from_off_t(offset);
   void *ret = mmap(start, length, prot, flags, fd, offset);
-  if (ret != MAP_FAILED) {
-    get_polytracker_tdag().source_taint(fd, ret, offs, length);
+  if (ret != MAP_FAILED && !(flags & MAP_ANONYMOUS)) {
+    // What is mapped beyond the end of a file doesn't come from the file
+    struct stat st;
+    if (fstat(fd, &st) == 0 && S_ISREG(st.st_mode)) {
+      length = std::min<size_t>(length, std::max<off_t>(st.st_size - offset, 0));
+    }
+    if (length > 0) {
+      get_polytracker_tdag().source_taint(fd, ret, offs, length);
+    }
   }
 
   *ret_label = 0;
-- 
2.43.0


From 0654e475b8a2aaf6511eef0800025c6132175569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:47 +0000
Subject: [PATCH 08/73] fix: putc and fputc record characters passed as
 negative values

---
 polytracker/src/taint_sources/write_taints.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/src/taint_sources/write_taints.cpp b/polytracker/src/taint_sources/write_taints.cpp
index 575cdb9..3d8a2a3 100644
--- a/polytracker/src/taint_sources/write_taints.cpp
+++ b/polytracker/src/taint_sources/write_taints.cpp
@@ -81,7 +81,7 @@ EXT_C_FUNC int __dfsw_putc(int ch, FILE *stream, dfsan_label ch_label,
                            dfsan_label stream_label, dfsan_label *ret_label) {
   auto offset = util::Offset::from_file(stream);
   auto ret = fputc(ch, stream);
-  if (ret == ch) {
+  if (ret != EOF) {
     get_polytracker_tdag().taint_sink(fileno(stream), offset, ch_label,
                                       sizeof(char));
   }
-- 
2.43.0


From a1bca12cb18609bba583cd27a51d2392d7ff97e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:31 +0000
Subject: [PATCH 09/73] fix: writes in append mode are recorded at the offset
 they end up at

---
 .../src/taint_sources/write_taints.cpp        | 34 ++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/taint_sources/write_taints.cpp b/polytracker/src/taint_sources/write_taints.cpp
index 3d8a2a3..d064d8c 100644
--- a/polytracker/src/taint_sources/write_taints.cpp
+++ b/polytracker/src/taint_sources/write_taints.cpp
@@ -2,6 +2,7 @@
 #include "polytracker/early_construct.h"
 #include "polytracker/taint_sources.h"
 #include "taintdag/polytracker.h"
+#include <fcntl.h>
 #include <iostream>
 #include <sanitizer/dfsan_interface.h>
 #include <sys/socket.h>
@@ -39,6 +40,28 @@ void impl_taint_sink(int fd, util::Offset offset, util::Length length,
   }
 }
 
+// Data written in append mode goes to the end of the file, wherever the file
+// position was before.
+//
+// `fd` is the file descriptor that was written to
+// `before` is the offset before the write
+// `after` is a callable that returns the offset after the write
+// `length` is the amount of data written
+template <typename F>
+util::Offset written_at(int fd, util::Offset before, util::Length length,
+                        F &&after) {
+  if (before.valid() && length.valid()) {
+    int flags = fcntl(fd, F_GETFL);
+    if (flags != -1 && (flags & O_APPEND)) {
+      util::Offset end = after();
+      if (end.valid()) {
+        return util::Offset::from_off_t(*end.value() - *length.value());
+      }
+    }
+  }
+  return before;
+}
+
 // Implementation wrapper for write/send-style functions
 //
 // `ret_label` is the return value label, will be cleared
@@ -51,7 +74,10 @@ ssize_t impl_write_send(dfsan_label &ret_label, int fd, void *buffer,
                         F &&write_func, Args... write_func_args) {
   auto offset = util::Offset::from_fd(fd);
   auto retval = write_func(write_func_args...);
-  impl_taint_sink(fd, offset, util::Length::from_returned_size(retval), buffer);
+  auto length = util::Length::from_returned_size(retval);
+  offset = written_at(fd, offset, length,
+                      [fd]() { return util::Offset::from_fd(fd); });
+  impl_taint_sink(fd, offset, length, buffer);
   ret_label = 0;
   return retval;
 }
@@ -72,6 +98,9 @@ EXT_C_FUNC size_t __dfsw_fwrite(void *buf, size_t size, size_t count,
   auto offset = util::Offset::from_file(stream);
   auto write_count = fwrite(buf, size, count, stream);
   auto length = util::Length::from_returned_size_count(size, write_count);
+  offset = written_at(fileno(stream), offset, length, [stream]() {
+    return util::Offset::from_file(stream);
+  });
   impl_taint_sink(fileno(stream), offset, length, buf);
   *ret_label = 0;
   return write_count;
@@ -82,6 +111,9 @@ EXT_C_FUNC int __dfsw_putc(int ch, FILE *stream, dfsan_label ch_label,
   auto offset = util::Offset::from_file(stream);
   auto ret = fputc(ch, stream);
   if (ret != EOF) {
+    offset = written_at(
+        fileno(stream), offset, util::Length::from_returned_size(sizeof(char)),
+        [stream]() { return util::Offset::from_file(stream); });
     get_polytracker_tdag().taint_sink(fileno(stream), offset, ch_label,
                                       sizeof(char));
   }
-- 
2.43.0


From 2b681f7c6bc7cfd486dd74c68860e6ba96022557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:41 +0000
Subject: [PATCH 10/73] fix: storing a value for a key already in the LRU cache
 counts as a use

---
 polytracker/cache.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polytracker/cache.py b/polytracker/cache.py
index 4667f27..dbd9de8 100644
--- a/polytracker/cache.py
+++ b/polytracker/cache.py
@@ -74,6 +74,7 @@ class LRUCache(Generic[R, V], MutableMapping):
 
     def __setitem__(self, k: R, v: V) -> None:
         self._items[k] = v
+        self._items.move_to_end(k, last=True)
         while self.max_size is not None and len(self._items) > self.max_size:
             self._items.popitem(last=False)
 
-- 
2.43.0


From 3de1d9287ddc34b511bc0e395e39af35b1520a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:42 +0000
Subject: [PATCH 11/73] fix: set operators of OrderedSet return the items, not
 a set holding an iterator

---
 polytracker/cache.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/polytracker/cache.py b/polytracker/cache.py
index dbd9de8..236e451 100644
--- a/polytracker/cache.py
+++ b/polytracker/cache.py
@@ -30,6 +30,11 @@ class OrderedSet(Generic[R], AbstractMutableSet):  # type: ignore
         for i in items:
             self._items[i] = i
 
+    @classmethod
+    def _from_iterable(cls, it):
+        # the set operators construct their results with this
+        return cls(*it)
+
     def add(self, item: R):
         self._items[item] = item
 
-- 
2.43.0


From e1fc0ff78a6899ee602c6c9451a84153dcdca495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:42 +0000
Subject: [PATCH 12/73] fix: DiGraph.descendants returns the nodes reachable
 from a node, leaves included

---
 polytracker/graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/graphs.py b/polytracker/graphs.py
index 0f8586a..5c49c80 100644
--- a/polytracker/graphs.py
+++ b/polytracker/graphs.py
@@ -122,7 +122,7 @@ class DiGraph(nx.DiGraph, Generic[N]):
         return ret
 
     def descendants(self, node: N) -> FrozenSet[N]:
-        return frozenset(nx.dfs_successors(self, node).keys())
+        return frozenset(nx.descendants(self, node))
 
     @property
     def dominator_forest(self) -> "DAG[N]":
-- 
2.43.0


From 4b5c7d83d19386e52407f59dced39163cbff2473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:42 +0000
Subject: [PATCH 13/73] fix: DiGraph.ancestors excludes the node itself by
 equality

---
 polytracker/graphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/graphs.py b/polytracker/graphs.py
index 5c49c80..330103f 100644
--- a/polytracker/graphs.py
+++ b/polytracker/graphs.py
@@ -67,7 +67,7 @@ class DiGraph(nx.DiGraph, Generic[N]):
                 for _, x in sorted(
                     (d, n)
                     for n, d in nx.shortest_path_length(self, target=node).items()
-                    if n is not node
+                    if n != node
                 )
             )
         )
-- 
2.43.0


From 768f3fb0056f687b95abf81e95a4419592f306cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:42 +0000
Subject: [PATCH 14/73] fix: the depth of a node in a graph without roots is
 infinite

---
 polytracker/graphs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/graphs.py b/polytracker/graphs.py
index 330103f..859b9ac 100644
--- a/polytracker/graphs.py
+++ b/polytracker/graphs.py
@@ -56,7 +56,9 @@ class DiGraph(nx.DiGraph, Generic[N]):
         return self._roots
 
     def depth(self, node: N) -> Union[int, float]:
-        return min(self.path_length(root, node) for root in self.roots)
+        return min(
+            (self.path_length(root, node) for root in self.roots), default=math.inf
+        )
 
     def ancestors(self, node: N) -> OrderedSet[N]:
         if not self.has_node(node):
-- 
2.43.0


From 713a4e8fa07b08cbf1f5d665c84194fd93f816da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:47 +0000
Subject: [PATCH 15/73] fix: regions of taint after the first input are grouped
 too

---
 polytracker/tracing.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index a1eb6f6..9c93611 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -265,14 +265,13 @@ class Taints:
         if not is_sorted:
             offsets = sorted(offsets)
         for offset in offsets:
-            if last_input is None:
-                last_input = offset.source
-            elif last_input != offset.source or (
+            if last_input != offset.source or (
                 last_offset is not None and last_offset.offset != offset.offset - 1
             ):
                 if region is not None:
                     yield region
                 region = None
+            last_input = offset.source
             last_offset = offset
             if region is None:
                 region = TaintedRegion(
-- 
2.43.0


From 522d1be3d60aa9d55243943eca6d2968ceca0684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:47 +0000
Subject: [PATCH 16/73] fix: byte offsets of different inputs that share an id
 are not interleaved when sorted

---
 polytracker/tracing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index 9c93611..a244b6a 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -138,10 +138,12 @@ class TaintedRegion:
     def __lt__(self, other):
         return isinstance(other, TaintedRegion) and (
             self.source.uid,
+            self.source.path,
             self.offset,
             self.length,
         ) < (
             other.source.uid,
+            other.source.path,
             other.offset,
             other.length,
         )
-- 
2.43.0


From 8617b45944f4a8a18f4eabb29e4375c39663b215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:47 +0000
Subject: [PATCH 17/73] fix: Taints.find terminates and yields every match once

---
 polytracker/tracing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index a244b6a..9cdd59c 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -305,6 +305,7 @@ class Taints:
                 offset = content.find(byte_sequence, offset)
                 if offset >= 0:
                     yield region[offset : offset + len(byte_sequence)]
+                    offset += 1
                 else:
                     break
 
-- 
2.43.0


From e0487c4dcb664daa18b0ed9f250898c13c1c9a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:47 +0000
Subject: [PATCH 18/73] fix: slices of tainted regions may omit bounds and end
 at the end of the region

---
 polytracker/tracing.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index 9cdd59c..5e1e8a2 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -104,13 +104,8 @@ class TaintedRegion:
         if isinstance(index_or_slice, slice):
             if index_or_slice.step is not None and index_or_slice.step != 1:
                 raise ValueError("TaintedRegion only supports slices with step == 1")
-            start = index_or_slice.start
-            if start < 0:
-                start = max(self.length + start, 0)
-            stop = index_or_slice.stop
-            if stop < 0:
-                stop = self.length + stop
-            if start >= stop or start >= self.length or stop <= 0:
+            start, stop, _ = index_or_slice.indices(self.length)
+            if start >= stop:
                 return TaintedRegion(source=self.source, offset=self.offset, length=0)
             return TaintedRegion(
                 source=self.source, offset=self.offset + start, length=stop - start
-- 
2.43.0


From ca18e7f05132dac14c2442d4d358ccbfcab4a531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:47 +0000
Subject: [PATCH 19/73] fix: ProgramTrace.taints returns the input bytes of the
 given nodes

---
 polytracker/tracing.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index 5e1e8a2..3d524f1 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -1138,9 +1138,6 @@ class ProgramTrace(ABC):
         while stack:
             node = stack.pop()
 
-            if node in seen:
-                continue
-
             p1 = node.parent_one
             p2 = node.parent_two
 
-- 
2.43.0


From 69f882655a64052007ec7291d2c3a5d6227ed52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:47 +0000
Subject: [PATCH 20/73] fix: tainted outputs can be hashed and differ when
 their output or label differs

---
 polytracker/tracing.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index 3d524f1..a535bbd 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -753,10 +753,15 @@ class TaintOutput:
         return hasattr(other, "offset") and self.offset < other.offset
 
     def __hash__(self):
-        return {self.offset, self.label}
+        return hash((self.source, self.offset, self.label))
 
     def __eq__(self, other):
-        return isinstance(other, TaintOutput) and self.offset == other.offset
+        return (
+            isinstance(other, TaintOutput)
+            and self.source == other.source
+            and self.offset == other.offset
+            and self.label == other.label
+        )
 
     def __repr__(self):
         return f"{self.__class__.__name__}(Offset: {self.offset!r}, Taint label: {self.label!r})"
-- 
2.43.0


From d9c951404d23e6ee641667f78c3b615227f566a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:47 +0000
Subject: [PATCH 21/73] fix: cavities of a file opened several times cover its
 whole length

---
 polytracker/mapping.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/polytracker/mapping.py b/polytracker/mapping.py
index 845015b..0a80149 100644
--- a/polytracker/mapping.py
+++ b/polytracker/mapping.py
@@ -3,6 +3,7 @@ This module maps input byte offsets to output byte offsets
 """
 
 from collections import defaultdict
+from itertools import zip_longest
 from pathlib import Path
 from typing import Dict, Iterator, List, Optional, Set, Tuple
 from tqdm import tqdm
@@ -143,7 +144,9 @@ class InputOutputMapping:
         for k, v in markers.items():
             fname = self.tdfile.fd_headers[k][0]
             if fname in merged:
-                merged[fname] = bytes(a | b for (a, b) in zip(merged[fname], v))
+                merged[fname] = bytes(
+                    a | b for (a, b) in zip_longest(merged[fname], v, fillvalue=0)
+                )
             else:
                 merged[fname] = bytes(v)
 
-- 
2.43.0


From 65ffbe739383936733c43e196c8d43391ed8f94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:47 +0000
Subject: [PATCH 22/73] fix: traces of files whose names are not UTF-8 can be
 read

---
 polytracker/taint_dag.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/polytracker/taint_dag.py b/polytracker/taint_dag.py
index 744e576..5b1fcd7 100644
--- a/polytracker/taint_dag.py
+++ b/polytracker/taint_dag.py
@@ -110,6 +110,8 @@ class TDStringSection:
         return str(
             self.section[offset + sizeof(c_uint16) : offset + sizeof(c_uint16) + n],
             "utf-8",
+            # file names are not necessarily UTF-8
+            errors="surrogateescape",
         )
 
 
-- 
2.43.0


From 1834a1994c20afcc5a900c9e0bd59bf8834631f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:35 +0000
Subject: [PATCH 23/73] fix: sections are padded to their alignment

---
 polytracker/include/taintdag/outputfile.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polytracker/include/taintdag/outputfile.h b/polytracker/include/taintdag/outputfile.h
index 752bba1..2768fab 100644
--- a/polytracker/include/taintdag/outputfile.h
+++ b/polytracker/include/taintdag/outputfile.h
@@ -142,7 +142,8 @@ private:
   template <typename T> std::span<uint8_t> do_allocation() {
     constexpr auto idx = util::TypeIndex<T, std::tuple<Sections...>>::index;
     constexpr auto align = T::align_of;
-    auto begin = alloc_ptr_ + (reinterpret_cast<uintptr_t>(alloc_ptr_) % align);
+    auto misalign = reinterpret_cast<uintptr_t>(alloc_ptr_) % align;
+    auto begin = alloc_ptr_ + (misalign == 0 ? 0 : align - misalign);
     auto end = alloc_ptr_ = begin + T::allocation_size;
     file_header_->sections[idx].offset = begin - mapped_memory_.begin;
     return {begin, end};
-- 
2.43.0


From b52334d7f6cc68f74a05375df7c5ea0b5a851603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:39 +0000
Subject: [PATCH 24/73] fix: control flow logs with events of functions not on
 the call stack can be read

---
 polytracker/taint_dag.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/polytracker/taint_dag.py b/polytracker/taint_dag.py
index 5b1fcd7..2c04e25 100644
--- a/polytracker/taint_dag.py
+++ b/polytracker/taint_dag.py
@@ -244,7 +244,10 @@ class TDControlFlowLogSection:
                     function_id, callstack
                 )
 
-                # TODO(hbrodin): If the callstack doesn't contain function_id at all, this will break.
+                # The entry of function_id was never logged (e.g. other threads log to the same section)
+                if not callstack:
+                    callstack.append(function_id)
+
                 yield TDLeaveFunctionEvent(callstack[:])
                 callstack.pop()
             else:
@@ -253,6 +256,10 @@ class TDControlFlowLogSection:
                     function_id, callstack
                 )
 
+                # The entry of function_id was never logged (e.g. other threads log to the same section)
+                if not callstack:
+                    callstack.append(function_id)
+
                 label, buffer = TDControlFlowLogSection._decode_varint(buffer)
                 yield TDTaintedControlFlowEvent(callstack[:], label)
 
-- 
2.43.0


From 6ef9fb78ae8ff78c5b7f786968654f41a98e6480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:39 +0000
Subject: [PATCH 25/73] fix: function mappings do not keep references to the
 caller's name

---
 polytracker/src/taintdag/fnmapping.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/taintdag/fnmapping.cpp b/polytracker/src/taintdag/fnmapping.cpp
index 8ce76a2..81c18d5 100644
--- a/polytracker/src/taintdag/fnmapping.cpp
+++ b/polytracker/src/taintdag/fnmapping.cpp
@@ -38,8 +38,9 @@ std::optional<index_t> Functions::add_mapping(std::string_view name) {
   if (!maybe_ctx) {
     return {};
   }
-  // Return index of `Function` in `Functions`
-  return mappings[name] = index(maybe_ctx->t);
+  // Return index of `Function` in `Functions`. The key refers to the stored
+  // name, `name` itself might not outlive this call.
+  return mappings[string_table.from_offset(name_offset)] = index(maybe_ctx->t);
 }
 
 } // namespace taintdag
\ No newline at end of file
-- 
2.43.0


From 9ca07191f6d01bb1579e03a766f254f9e52ee964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:51 +0000
Subject: [PATCH 26/73] fix: running out of source labels stops the run instead
 of using a missing range

---
 polytracker/include/taintdag/labels.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/polytracker/include/taintdag/labels.h b/polytracker/include/taintdag/labels.h
index 66fcb5b..b9d7fe2 100644
--- a/polytracker/include/taintdag/labels.h
+++ b/polytracker/include/taintdag/labels.h
@@ -41,7 +41,10 @@ struct Labels : public FixedSizeAlloc<storage_t> {
         construct_range(length, [src, &offset](uint8_t *p) mutable {
           new (p) storage_t{encode(SourceTaint{src, offset++})};
         });
-    // TODO(hbrodin): Check valid return
+    if (!maybe_range) {
+      error_exit("Failed to create ", length, " source labels.");
+      return {0, 0}; // Never reached due to error_exit that terminates.
+    }
     auto first = index(*maybe_range->begin());
     auto last = first + length - 1;
     return {first, last};
-- 
2.43.0


From fdac379c33c54a765aaf44a76b50a5d332ce2d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:51 +0000
Subject: [PATCH 27/73] fix: output records that do not fit in the trace are no
 longer dropped silently

---
 polytracker/include/taintdag/sink.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/polytracker/include/taintdag/sink.h b/polytracker/include/taintdag/sink.h
index 4f786bc..b89bc45 100644
--- a/polytracker/include/taintdag/sink.h
+++ b/polytracker/include/taintdag/sink.h
@@ -8,6 +8,7 @@
 
 #pragma once
 
+#include "taintdag/error.h"
 #include "taintdag/section.h"
 #include "taintdag/taint.h"
 
@@ -33,7 +34,10 @@ struct TaintSinkBase : public FixedSizeAlloc<SinkLogEntry> {
   TaintSinkBase(SectionArg<OF> of) : FixedSizeAlloc{of.range} {}
 
   void log_single(sink_offset_t offset, label_t label, sink_index_t idx) {
-    construct(offset, label, idx);
+    if (!construct(offset, label, idx)) {
+      error_exit("Failed to log label ", label, " written to sink ",
+                 static_cast<int>(idx), " at offset ", offset);
+    }
   }
 };
 
-- 
2.43.0


From 32c332b6a8ae5e745a22e7bfb3d4812ad6e6b149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:47 +0000
Subject: [PATCH 28/73] fix: sources that do not fit in the trace are reported
 and never mistaken for earlier ones

---
 polytracker/src/taint_sources/argv.cpp   | 7 +++++--
 polytracker/src/taintdag/polytracker.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/polytracker/src/taint_sources/argv.cpp b/polytracker/src/taint_sources/argv.cpp
index a2339c3..6874527 100644
--- a/polytracker/src/taint_sources/argv.cpp
+++ b/polytracker/src/taint_sources/argv.cpp
@@ -2,6 +2,7 @@
 
 #include "polytracker/early_construct.h"
 #include "polytracker/polytracker.h"
+#include "taintdag/error.h"
 #include "taintdag/polytracker.h"
 
 EARLY_CONSTRUCT_EXTERN_GETTER(taintdag::PolyTracker, polytracker_tdag);
@@ -25,8 +26,10 @@ void taint_argv(int argc, char *argv[]) {
   for (int i = 0; i < argc; ++i) {
     auto name = std::string{"argv["} + std::to_string(i) + "]";
     // NOTE(hbrodin): Currently not tainting terminating null char.
-    polyt.create_taint_source(
-        name, {reinterpret_cast<uint8_t *>(argv[i]), strlen(argv[i])});
+    if (!polyt.create_taint_source(
+            name, {reinterpret_cast<uint8_t *>(argv[i]), strlen(argv[i])})) {
+      spdlog::error("No room for another source, not tracking " + name);
+    }
   }
 }
 } // namespace polytracker
\ No newline at end of file
diff --git a/polytracker/src/taintdag/polytracker.cpp b/polytracker/src/taintdag/polytracker.cpp
index e88521b..e905a5b 100644
--- a/polytracker/src/taintdag/polytracker.cpp
+++ b/polytracker/src/taintdag/polytracker.cpp
@@ -37,7 +37,11 @@ void PolyTracker::open_file(int fd, std::filesystem::path const &path) {
   // TODO (hbrodin): If we decide to separate sources and sinks, extend this
   // method to accept a direction parameter e.g. in, inout, out and make an
   // additional call to add a sink.
-  output_file_.section<Sources>().add_source(path.string(), fd, size);
+  if (!output_file_.section<Sources>().add_source(path.string(), fd, size)) {
+    spdlog::error("No room for another source, not tracking " + path.string());
+    // What fd represented before is gone.
+    close_file(fd);
+  }
 }
 
 void PolyTracker::close_file(int fd) {
-- 
2.43.0


From 3598c53ea2340dec93301627cac2507fbf51ab9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:01 +0000
Subject: [PATCH 29/73] fix: compare bytes above 127 as unsigned in memcmp,
 strcmp and friends

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index fb001ba..91df8fc 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -205,7 +205,8 @@ SANITIZER_INTERFACE_ATTRIBUTE char *__dfso_strpbrk(
 
 static int dfsan_memcmp_bcmp(const void *s1, const void *s2, size_t n,
                              size_t *bytes_read) {
-  const char *cs1 = (const char *) s1, *cs2 = (const char *) s2;
+  const unsigned char *cs1 = (const unsigned char *)s1,
+                      *cs2 = (const unsigned char *)s2;
   for (size_t i = 0; i != n; ++i) {
     if (cs1[i] != cs2[i]) {
       *bytes_read = i + 1;
@@ -305,7 +306,7 @@ static int dfsan_strncmp(const char *s1, const char *s2, size_t n,
   for (size_t i = 0;; ++i) {
     if (s1[i] != s2[i] || s1[i] == 0 || s2[i] == 0 || (n > 0 && i == n - 1)) {
       *bytes_read = i + 1;
-      return s1[i] - s2[i];
+      return (unsigned char)s1[i] - (unsigned char)s2[i];
     }
   }
 }
@@ -348,8 +349,8 @@ SANITIZER_INTERFACE_ATTRIBUTE int __dfso_strcmp(
 static int dfsan_strncasecmp(const char *s1, const char *s2, size_t n,
                              size_t *bytes_read) {
   for (size_t i = 0;; ++i) {
-    char s1_lower = tolower(s1[i]);
-    char s2_lower = tolower(s2[i]);
+    unsigned char s1_lower = tolower((unsigned char)s1[i]);
+    unsigned char s2_lower = tolower((unsigned char)s2[i]);
 
     if (s1_lower != s2_lower || s1[i] == 0 || s2[i] == 0 ||
         (n > 0 && i == n - 1)) {
-- 
2.43.0


From 75f2b0a3364b30f9af17417e182abbf0a8d46afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:01 +0000
Subject: [PATCH 30/73] fix: strchr did not find characters above 127

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 91df8fc..1096a83 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -120,12 +120,13 @@ static char *dfsan_strchr_with_label(const char *s, int c, size_t *bytes_read,
                                      dfsan_label s_label, dfsan_label c_label,
                                      dfsan_label *ret_label) {
   char *match_pos = nullptr;
+  const char ch = (char)c;  // strchr searches for c converted to a char
   for (size_t i = 0;; ++i) {
-    if (s[i] == c || s[i] == 0) {
+    if (s[i] == ch || s[i] == 0) {
       // If s[i] is the \0 at the end of the string, and \0 is not the
       // character we are searching for, then return null.
       *bytes_read = i + 1;
-      match_pos = s[i] == 0 && c != 0 ? nullptr : const_cast<char *>(s + i);
+      match_pos = s[i] == 0 && ch != 0 ? nullptr : const_cast<char *>(s + i);
       break;
     }
   }
-- 
2.43.0


From 7061a3407fec8692ac37d3cbacb0339925fb00a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:01 +0000
Subject: [PATCH 31/73] fix: strncpy read beyond the first n bytes of its
 source

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 1096a83..2642e92 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -653,7 +653,7 @@ SANITIZER_INTERFACE_ATTRIBUTE char *
 __dfsw_strncpy(char *s1, const char *s2, size_t n, dfsan_label s1_label,
                dfsan_label s2_label, dfsan_label n_label,
                dfsan_label *ret_label) {
-  size_t len = strlen(s2);
+  size_t len = strnlen(s2, n);
   if (len < n) {
     dfsan_memcpy(s1, s2, len+1);
     dfsan_memset(s1+len+1, 0, 0, n-len-1);
@@ -670,7 +670,7 @@ SANITIZER_INTERFACE_ATTRIBUTE char *__dfso_strncpy(
     dfsan_label s2_label, dfsan_label n_label, dfsan_label *ret_label,
     dfsan_origin s1_origin, dfsan_origin s2_origin, dfsan_origin n_origin,
     dfsan_origin *ret_origin) {
-  size_t len = strlen(s2);
+  size_t len = strnlen(s2, n);
   if (len < n) {
     dfsan_memcpy_with_origin(s1, s2, len + 1);
     dfsan_memset_with_origin(s1 + len + 1, 0, 0, 0, n - len - 1);
-- 
2.43.0


From 8106fed8c5a48c2865d9a56c5bf1a3c2ae7a8e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:01 +0000
Subject: [PATCH 32/73] fix: a failing calloc crashed while clearing labels

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 2642e92..edb72cb 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -467,7 +467,8 @@ SANITIZER_INTERFACE_ATTRIBUTE void *__dfsw_calloc(size_t nmemb, size_t size,
                                                   dfsan_label size_label,
                                                   dfsan_label *ret_label) {
   void *p = calloc(nmemb, size);
-  dfsan_set_label(0, p, nmemb * size);
+  if (p)
+    dfsan_set_label(0, p, nmemb * size);
   *ret_label = 0;
   return p;
 }
-- 
2.43.0


From 41168091e00785c6c5ad281eec5c94a63f23a430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:01 +0000
Subject: [PATCH 33/73] fix: strcat labelled the appended bytes with the label
 of the pointer

---
 polytracker/src/taint_sources/string_taints.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/taint_sources/string_taints.cpp b/polytracker/src/taint_sources/string_taints.cpp
index 7965a84..d24f94d 100644
--- a/polytracker/src/taint_sources/string_taints.cpp
+++ b/polytracker/src/taint_sources/string_taints.cpp
@@ -3,9 +3,14 @@
 // __dfsw_strcat
 EXT_C_FUNC char *__dfsw_strcat(char *dest, char *src, dfsan_label dest_label,
                                dfsan_label src_label, dfsan_label *ret_label) {
-  int curr_offset = strlen(dest) - 1;
+  size_t dest_len = strlen(dest);
   char *ret_val = strcat(dest, src);
-  dfsan_set_label(src_label, dest + curr_offset, strlen(dest) - curr_offset);
+  // Each appended byte (including the terminator) keeps its own label.
+  size_t copied = strlen(src) + 1;
+  for (size_t i = 0; i < copied; i++) {
+    dfsan_set_label(dfsan_read_label(src + i, sizeof(char)),
+                    dest + dest_len + i, sizeof(char));
+  }
   *ret_label = dest_label;
   return ret_val;
 }
-- 
2.43.0


From 1f4bdf0f8f6d0917c8047513d1ef8441c40b6d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:01 +0000
Subject: [PATCH 34/73] fix: realloc copied labels from beyond the old
 allocation and used a failed result

---
 polytracker/src/taint_sources/memory_taints.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/polytracker/src/taint_sources/memory_taints.cpp b/polytracker/src/taint_sources/memory_taints.cpp
index 5372eef..92decf4 100644
--- a/polytracker/src/taint_sources/memory_taints.cpp
+++ b/polytracker/src/taint_sources/memory_taints.cpp
@@ -1,4 +1,7 @@
 #include "polytracker/taint_sources.h"
+#include <algorithm>
+#include <iterator>
+#include <malloc.h>
 #include <vector>
 
 EXT_C_FUNC void *__dfsw_malloc(size_t size, dfsan_label size_label,
@@ -12,25 +15,21 @@ EXT_C_FUNC void *__dfsw_realloc(void *ptr, size_t new_size,
                                 dfsan_label ptr_label, dfsan_label size_label,
                                 dfsan_label *ret_label) {
 
-  // TODO (hbrodin): This is incorrect. There is not new_size bytes available
-  // (typically) but for now, lets just hope that the user of returned memory
-  // clears it (no undefined read). This might actually cause a read oob if at
-  // the end of shadow memory... Need to track all allocation sizes to only copy
-  // the amount of memory avail in the old allocation.
-  //
   // Make a copy of shadow memory/labels, in case we do actually move it
   // This could be a lot faster if we used the shadow_for function and did a
   // straight copy...
+  // Only what the old allocation holds can be copied.
   std::vector<dfsan_label> shadow;
   auto oldptr = reinterpret_cast<char *>(ptr);
   if (oldptr != nullptr && new_size > 0) {
-    shadow.reserve(new_size);
-    std::transform(oldptr, oldptr + new_size, std::back_inserter(shadow),
+    size_t copy_size = std::min(malloc_usable_size(oldptr), new_size);
+    shadow.reserve(copy_size);
+    std::transform(oldptr, oldptr + copy_size, std::back_inserter(shadow),
                    [](char &v) { return dfsan_read_label(&v, sizeof(v)); });
   }
 
   void *new_mem = realloc(ptr, new_size);
-  if (new_mem != oldptr) {
+  if (new_mem != nullptr && new_mem != oldptr) {
     for (size_t i = 0; i < shadow.size(); i++) {
       dfsan_set_label(shadow[i], reinterpret_cast<char *>(new_mem) + i,
                       sizeof(char));
-- 
2.43.0


From a4e8ab51cf5f4633b060baaaf01c0a060e44b928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:57 +0000
Subject: [PATCH 35/73] fix: labels of truncated snprintf output covered the
 wrong number of bytes

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index edb72cb..856922a 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2218,9 +2218,9 @@ struct Formatter {
 
     size_t num_written = retval;
     // A return value of {v,}snprintf of size or more means that the output was
-    // truncated.
+    // truncated: all but the terminator was written.
     if (num_written >= num_avail) {
-      num_written -= num_avail;
+      num_written = num_avail - 1;
     }
 
     return num_written;
-- 
2.43.0


From 45a1651389668a9a9107e723b1a9afe315adb888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:57 +0000
Subject: [PATCH 36/73] fix: sprintf with an empty format left the output
 unterminated, and the terminator kept a stale label

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 856922a..d048f8d 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2417,6 +2417,13 @@ static int format_buffer(char *str, size_t size, const char *fmt,
     formatter.str_off += retval;
   }
 
+  // Terminate the output, also when the format produced none, without label.
+  if (size > 0) {
+    size_t end = formatter.str_off < size ? formatter.str_off : size - 1;
+    str[end] = '\0';
+    dfsan_set_label(0, str + end, 1);
+  }
+
   *ret_label = 0;
   if (ret_origin)
     *ret_origin = 0;
-- 
2.43.0


From a0d922586d404c10941e994e028f70c1194b7c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:57 +0000
Subject: [PATCH 37/73] fix: sprintf misread its arguments for negative and for
 two '*' fields

---
 .../src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index d048f8d..fc51334 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2170,7 +2170,7 @@ typedef int dfsan_label_va;
 struct Formatter {
   Formatter(char *str_, const char *fmt_, size_t size_)
       : str(str_), str_off(0), size(size_), fmt_start(fmt_), fmt_cur(fmt_),
-        width(-1) {}
+        num_stars(0) {}
 
   int format() {
     char *tmp_fmt = build_format_string();
@@ -2184,9 +2184,12 @@ struct Formatter {
   template <typename T> int format(T arg) {
     char *tmp_fmt = build_format_string();
     int retval;
-    if (width >= 0) {
+    if (num_stars == 2) {
       retval = snprintf(str + str_off, str_off < size ? size - str_off : 0,
-                        tmp_fmt, width, arg);
+                        tmp_fmt, stars[0], stars[1], arg);
+    } else if (num_stars == 1) {
+      retval = snprintf(str + str_off, str_off < size ? size - str_off : 0,
+                        tmp_fmt, stars[0], arg);
     } else {
       retval = snprintf(str + str_off, str_off < size ? size - str_off : 0,
                         tmp_fmt, arg);
@@ -2231,7 +2234,9 @@ struct Formatter {
   size_t size;
   const char *fmt_start;
   const char *fmt_cur;
-  int width;
+  // Width and precision given as arguments ('*'), in order.
+  int stars[2];
+  int num_stars;
 };
 
 // Formats the input and propagates the input labels to the output. The output
@@ -2255,7 +2260,7 @@ static int format_buffer(char *str, size_t size, const char *fmt,
 
   while (*formatter.fmt_cur) {
     formatter.fmt_start = formatter.fmt_cur;
-    formatter.width = -1;
+    formatter.num_stars = 0;
     int retval = 0;
 
     if (*formatter.fmt_cur != '%') {
@@ -2397,7 +2402,8 @@ static int format_buffer(char *str, size_t size, const char *fmt,
           break;
 
         case '*':
-          formatter.width = va_arg(ap, int);
+          if (formatter.num_stars < 2)
+            formatter.stars[formatter.num_stars++] = va_arg(ap, int);
           va_labels++;
           if (va_origins)
             va_origins++;
-- 
2.43.0


From 06604f0eddd30bd1d70f8b07d4c5c2d75d8449f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:57 +0000
Subject: [PATCH 38/73] fix: sprintf %n ignored its length modifier and cleared
 labels beyond the counter

---
 .../compiler-rt/lib/dfsan/dfsan_custom.cpp    | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index fc51334..d8baf6d 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2384,12 +2384,27 @@ static int format_buffer(char *str, size_t size, const char *fmt,
           break;
 
         case 'n': {
-          int *ptr = va_arg(ap, int *);
-          *ptr = (int)formatter.str_off;
+          void *ptr = va_arg(ap, void *);
+          // The length modifier decides the type of the counter.
+          const char len = *(formatter.fmt_cur - 1);
+          size_t ptr_size = sizeof(int);
+          if (len == 'l' || len == 'q' || len == 'L' || len == 'j' ||
+              len == 'z' || len == 't') {
+            ptr_size = sizeof(long);
+            *(long *)ptr = (long)formatter.str_off;
+          } else if (len == 'h' && *(formatter.fmt_cur - 2) == 'h') {
+            ptr_size = sizeof(signed char);
+            *(signed char *)ptr = (signed char)formatter.str_off;
+          } else if (len == 'h') {
+            ptr_size = sizeof(short);
+            *(short *)ptr = (short)formatter.str_off;
+          } else {
+            *(int *)ptr = (int)formatter.str_off;
+          }
           va_labels++;
           if (va_origins)
             va_origins++;
-          dfsan_set_label(0, ptr, sizeof(ptr));
+          dfsan_set_label(0, ptr, ptr_size);
           end_fmt = true;
           break;
         }
-- 
2.43.0


From f281f38c62e7b8853695c7a1007700e282d59ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:57 +0000
Subject: [PATCH 39/73] fix: sprintf read beyond the end of formats ending in
 %m or in an incomplete directive

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index d8baf6d..f22665e 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2298,6 +2298,7 @@ static int format_buffer(char *str, size_t size, const char *fmt,
             }
             break;
           case 'q':
+          case 'L':
             retval = formatter.format(va_arg(ap, long long int));
             break;
           case 'j':
@@ -2409,6 +2410,7 @@ static int format_buffer(char *str, size_t size, const char *fmt,
           break;
         }
 
+        case 'm':
         case '%':
           retval = formatter.format();
           dfsan_set_label(0, formatter.str_cur(),
@@ -2424,6 +2426,11 @@ static int format_buffer(char *str, size_t size, const char *fmt,
             va_origins++;
           break;
 
+        case '\0':
+          // Incomplete directive.
+          retval = -1;
+          break;
+
         default:
           break;
         }
@@ -2431,6 +2438,9 @@ static int format_buffer(char *str, size_t size, const char *fmt,
     }
 
     if (retval < 0) {
+      *ret_label = 0;
+      if (ret_origin)
+        *ret_origin = 0;
       return retval;
     }
 
-- 
2.43.0


From b9597a19e5d01728d80a2a4a88ff7a5c78d24d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:57 +0000
Subject: [PATCH 40/73] fix: sprintf labelled padded strings with the labels of
 other bytes and crashed on a null string

---
 .../compiler-rt/lib/dfsan/dfsan_custom.cpp    | 54 ++++++++++++++++---
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index f22665e..c809ea6 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -2209,6 +2209,32 @@ struct Formatter {
 
   char *str_cur() { return str + str_off; }
 
+  // Number of bytes of arg that the current %s directive shows, and whether
+  // padding goes to their right.
+  size_t string_bytes_shown(const char *arg, bool *left) {
+    const char *p = fmt_start + 1;
+    int star = 0;
+    *left = false;
+    for (; internal_strchr("-+ #0'I", *p); ++p)
+      *left |= *p == '-';
+    if (*p == '*') {
+      *left |= stars[star++] < 0;
+      ++p;
+    }
+    while (*p >= '0' && *p <= '9')
+      ++p;
+    if (*p != '.')
+      return internal_strlen(arg);
+    ++p;
+    long precision = 0;
+    if (*p == '*')
+      precision = stars[star];
+    else
+      precision = internal_simple_strtoll(p, nullptr, 10);
+    return precision < 0 ? internal_strlen(arg)
+                         : internal_strnlen(arg, precision);
+  }
+
   size_t num_written_bytes(int retval) {
     if (retval < 0) {
       return 0;
@@ -2359,15 +2385,29 @@ static int format_buffer(char *str, size_t size, const char *fmt,
         case 's': {
           char *arg = va_arg(ap, char *);
           retval = formatter.format(arg);
-          if (va_origins) {
-            va_origins++;
-            dfsan_mem_origin_transfer(formatter.str_cur(), arg,
-                                      formatter.num_written_bytes(retval));
+          const size_t written = formatter.num_written_bytes(retval);
+          if (arg) {
+            // Padding carries no label, each character its own.
+            dfsan_set_label(0, formatter.str_cur(), written);
+            bool left;
+            size_t shown = formatter.string_bytes_shown(arg, &left);
+            size_t pad =
+                retval > 0 && (size_t)retval > shown ? retval - shown : 0;
+            size_t first = left ? 0 : pad;
+            if (first < written) {
+              size_t n = shown < written - first ? shown : written - first;
+              if (va_origins)
+                dfsan_mem_origin_transfer(formatter.str_cur() + first, arg, n);
+              internal_memcpy(shadow_for(formatter.str_cur() + first),
+                              shadow_for(arg), sizeof(dfsan_label) * n);
+            }
+          } else {
+            // Shown as (null).
+            dfsan_set_label(*va_labels, formatter.str_cur(), written);
           }
+          if (va_origins)
+            va_origins++;
           va_labels++;
-          internal_memcpy(shadow_for(formatter.str_cur()), shadow_for(arg),
-                          sizeof(dfsan_label) *
-                              formatter.num_written_bytes(retval));
           end_fmt = true;
           break;
         }
-- 
2.43.0


From 8de2347cfb14ea5fbb67011c628dfd9295266e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:41 +0000
Subject: [PATCH 41/73] fix: memset wrote wrong bytes to aligned blocks for
 values outside 0-255

---
 .../src/compiler-rt/lib/sanitizer_common/sanitizer_libc.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/sanitizer_common/sanitizer_libc.cpp b/polytracker/src/compiler-rt/lib/sanitizer_common/sanitizer_libc.cpp
index 4bc04b4..9aaffa5 100644
--- a/polytracker/src/compiler-rt/lib/sanitizer_common/sanitizer_libc.cpp
+++ b/polytracker/src/compiler-rt/lib/sanitizer_common/sanitizer_libc.cpp
@@ -77,7 +77,7 @@ void *internal_memset(void* s, int c, uptr n) {
   if ((reinterpret_cast<uptr>(s) % 16) == 0 && (n % 16) == 0) {
     u64 *p = reinterpret_cast<u64*>(s);
     u64 *e = p + n / 8;
-    u64 v = c;
+    u64 v = (unsigned char)c;
     v |= v << 8;
     v |= v << 16;
     v |= v << 32;
-- 
2.43.0


From 7ad22848f5ddf20f1006015eb0e39c23f01ea422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:58 +0000
Subject: [PATCH 42/73] fix: sprintf passed snprintf a bound that wraps around
 the address space and lost its output

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index c809ea6..839f292 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -15,6 +15,7 @@
 #include <assert.h>
 #include <ctype.h>
 #include <dlfcn.h>
+#include <limits.h>
 #include <link.h>
 #include <poll.h>
 #include <pthread.h>
@@ -2510,7 +2511,7 @@ int __dfsw_sprintf(char *str, const char *format, dfsan_label str_label,
                    dfsan_label *ret_label, ...) {
   va_list ap;
   va_start(ap, ret_label);
-  int ret = format_buffer(str, ~0ul, format, va_labels, ret_label, nullptr,
+  int ret = format_buffer(str, INT_MAX, format, va_labels, ret_label, nullptr,
                           nullptr, ap);
   va_end(ap);
   return ret;
@@ -2524,7 +2525,7 @@ int __dfso_sprintf(char *str, const char *format, dfsan_label str_label,
                    dfsan_origin *ret_origin, ...) {
   va_list ap;
   va_start(ap, ret_origin);
-  int ret = format_buffer(str, ~0ul, format, va_labels, ret_label, va_origins,
+  int ret = format_buffer(str, INT_MAX, format, va_labels, ret_label, va_origins,
                           ret_origin, ap);
   va_end(ap);
   return ret;
-- 
2.43.0


From e28a801d4521440ec6e4107c6285af3d9d5a6168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:03 +0000
Subject: [PATCH 43/73] fix: select without a timeout crashed

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 839f292..a43e2c5 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -1527,7 +1527,9 @@ int __dfsw_select(int nfds, fd_set *readfds, fd_set *writefds,
   if (exceptfds) {
     dfsan_set_label(0, exceptfds, sizeof(fd_set));
   }
-  dfsan_set_label(0, timeout, sizeof(struct timeval));
+  if (timeout) {
+    dfsan_set_label(0, timeout, sizeof(struct timeval));
+  }
   *ret_label = 0;
   return ret;
 }
-- 
2.43.0


From b77012ca5e1a36f3bb2663d93df766293c7c314d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:03 +0000
Subject: [PATCH 44/73] fix: an interrupted nanosleep without a remainder
 crashed

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index a43e2c5..5e03768 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -1917,7 +1917,7 @@ SANITIZER_INTERFACE_ATTRIBUTE int __dfsw_nanosleep(const struct timespec *req,
                                                    dfsan_label *ret_label) {
   int ret = nanosleep(req, rem);
   *ret_label = 0;
-  if (ret == -1) {
+  if (ret == -1 && rem) {
     // Interrupted by a signal, rem is filled with the remaining time.
     dfsan_set_label(0, rem, sizeof(struct timespec));
   }
-- 
2.43.0


From 1d1cc1d0a60569853df8c0b8d304dcb7fad635d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:03 +0000
Subject: [PATCH 45/73] fix: getpwuid_r left stale labels on all strings but
 the first and read an unset buffer

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 5e03768..6cd1929 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -1440,7 +1440,7 @@ int __dfsw_getpwuid_r(id_t uid, struct passwd *pwd,
   int ret = getpwuid_r(uid, pwd, buf, buflen, result);
   if (ret == 0) {
     dfsan_set_label(0, pwd, sizeof(struct passwd));
-    dfsan_set_label(0, buf, strlen(buf) + 1);
+    dfsan_set_label(0, buf, buflen);
   }
   *ret_label = 0;
   dfsan_set_label(0, result, sizeof(struct passwd*));
-- 
2.43.0


From bfafa5827e9f13ca297c98d034286d6bb11b8b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:13 +0000
Subject: [PATCH 46/73] fix: sigaction and signal fail for signal numbers out
 of range instead of ending the program

---
 .../src/compiler-rt/lib/dfsan/dfsan_custom.cpp      | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 6cd1929..1978f86 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -15,6 +15,7 @@
 #include <assert.h>
 #include <ctype.h>
 #include <dlfcn.h>
+#include <errno.h>
 #include <limits.h>
 #include <link.h>
 #include <poll.h>
@@ -1664,7 +1665,11 @@ int __dfsw_sigaction(int signum, const struct sigaction *act,
                      struct sigaction *oldact, dfsan_label signum_label,
                      dfsan_label act_label, dfsan_label oldact_label,
                      dfsan_label *ret_label) {
-  CHECK_LT(signum, kMaxSignals);
+  if (signum < 0 || signum >= kMaxSignals) {
+    errno = EINVAL;
+    *ret_label = 0;
+    return -1;
+  }
   SignalSpinLocker lock;
   uptr old_cb = atomic_load(&sigactions[signum], memory_order_relaxed);
   struct sigaction new_act;
@@ -1718,7 +1723,11 @@ int __dfso_sigaction(int signum, const struct sigaction *act,
 
 static sighandler_t dfsan_signal(int signum, sighandler_t handler,
                                  dfsan_label *ret_label) {
-  CHECK_LT(signum, kMaxSignals);
+  if (signum < 0 || signum >= kMaxSignals) {
+    errno = EINVAL;
+    *ret_label = 0;
+    return SIG_ERR;
+  }
   SignalSpinLocker lock;
   uptr old_cb = atomic_load(&sigactions[signum], memory_order_relaxed);
   if (handler != SIG_IGN && handler != SIG_DFL) {
-- 
2.43.0


From ef8131123231cdc31503f3afdfb1e114a40c253f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:42 +0000
Subject: [PATCH 47/73] fix: signal returned an internal function in place of a
 previous SA_SIGINFO handler

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 1978f86..8e93957 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -1737,7 +1737,7 @@ static sighandler_t dfsan_signal(int signum, sighandler_t handler,
 
   sighandler_t ret = signal(signum, handler);
 
-  if (ret == SignalHandler)
+  if (ret == SignalHandler || ret == (sighandler_t)SignalAction)
     ret = (sighandler_t)old_cb;
 
   *ret_label = 0;
-- 
2.43.0


From 9d643d5b2ba30593e7b764d59354463855ce4d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:42 +0000
Subject: [PATCH 48/73] fix: recvmsg with MSG_TRUNC cleared labels beyond the
 given buffers

---
 polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
index 8e93957..5327a02 100644
--- a/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
+++ b/polytracker/src/compiler-rt/lib/dfsan/dfsan_custom.cpp
@@ -1944,8 +1944,8 @@ static void clear_msghdr_labels(size_t bytes_written, struct msghdr *msg) {
   dfsan_set_label(0, msg, sizeof(*msg));
   dfsan_set_label(0, msg->msg_name, msg->msg_namelen);
   dfsan_set_label(0, msg->msg_control, msg->msg_controllen);
-  for (size_t i = 0; bytes_written > 0; ++i) {
-    assert(i < msg->msg_iovlen);
+  // With MSG_TRUNC the length can exceed the size of the buffers.
+  for (size_t i = 0; bytes_written > 0 && i < msg->msg_iovlen; ++i) {
     struct iovec *iov = &msg->msg_iov[i];
     size_t iov_written =
         bytes_written < iov->iov_len ? bytes_written : iov->iov_len;
-- 
2.43.0


From 60e55caf270c3e055c4cadeba96f6a45fb9abf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:15 +0000
Subject: [PATCH 49/73] fix: matching a sentence accepted it when only a part
 of it derives from the start production

---
 polytracker/grammars.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 54ff31c..338a566 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -706,7 +706,11 @@ class EarleyParser:
 
     @property
     def end_states(self) -> Iterator[EarleyState]:
-        return (s for s in self.states[-1] if s.finished and s.production == self.start)
+        return (
+            s
+            for s in self.states[-1]
+            if s.finished and s.index == 0 and s.production is self.start
+        )
 
     def parse(self) -> Iterator[ParseTree[ParseTreeValue]]:
         if not self.parsed:
-- 
2.43.0


From c64289627538417028b21cb1473becae7270b0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:15 +0000
Subject: [PATCH 50/73] fix: matching confused different productions that have
 equal rules

---
 polytracker/grammars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 338a566..e8193dc 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -507,7 +507,7 @@ class Prediction(EarleyState):
                 self.index == other.index
                 and self.parsed == other.parsed
                 and self.expected == other.expected
-                and self.production == other.production
+                and self.production is other.production
             )
         else:
             return False
-- 
2.43.0


From 14b5a59a23041f5cd0ccdf0f93075e34e8c63050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:15 +0000
Subject: [PATCH 51/73] fix: productions without rules were completed as their
 user, so that sentences using them did not match

---
 polytracker/grammars.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index e8193dc..65cd59d 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -530,6 +530,10 @@ class EmptyProduction(EarleyState):
         super().__init__(prediction, parsed, expected, index)
         self._production: Production = production
 
+    @property
+    def production(self) -> Production:
+        return self._production
+
     __hash__ = EarleyState.__hash__  # type: ignore
 
     __ne__ = EarleyState.__ne__  # type: ignore
@@ -538,7 +542,7 @@ class EmptyProduction(EarleyState):
         return (
             isinstance(other, EmptyProduction)
             and EarleyState.__eq__(self, other)
-            and self._production == other._production
+            and self._production is other._production
         )
 
     def to_tree(self) -> MutableParseTree[ParseTreeValue]:
-- 
2.43.0


From 8a46a64fe5c7267fb9e617de435a54e41a595f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:27 +0000
Subject: [PATCH 52/73] fix: matching text with characters of several bytes
 failed

---
 polytracker/grammars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 65cd59d..dd90f06 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -703,7 +703,7 @@ class EarleyParser:
         else:
             self.start = start
         self.states: List[EarleyQueue] = [
-            EarleyQueue(self) for _ in range(len(sentence) + 1)
+            EarleyQueue(self) for _ in range(len(self.sentence) + 1)
         ]
         self.parsed: bool = False
         self.start_states: FrozenSet[Prediction] = frozenset()
-- 
2.43.0


From 3f26c0b77d7dad6499a2d9c1bc8b91c8e448dbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:27 +0000
Subject: [PATCH 53/73] fix: matching nullable grammars failed because a set
 changed during iteration

---
 polytracker/grammars.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index dd90f06..146a53d 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -815,9 +815,10 @@ class EarleyParser:
         self.states[completed.index].already_completed[completed.production.name][
             completed
         ].add(k)
-        for state in self.states[completed.index].waiting_for[
-            completed.production.name
-        ]:
+        # completing a state can add to the set if nothing was consumed
+        for state in list(
+            self.states[completed.index].waiting_for[completed.production.name]
+        ):
             self.states[k].complete_state(state, completed)
 
 
-- 
2.43.0


From 67f585012e0e2140b4c0bd1a0c8eb4fc516209c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:27 +0000
Subject: [PATCH 54/73] fix: matching a recursive grammar with an empty
 terminal did not end

---
 polytracker/grammars.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 146a53d..b247358 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -803,7 +803,8 @@ class EarleyParser:
             return False
         new_state = ScannedTerminal(
             prediction=state.prediction,
-            parsed=state.parsed + (state.next_element,),
+            # an empty terminal consumes nothing
+            parsed=state.parsed + ((state.next_element,) if terminal else ()),
             expected=state.expected[1:],
             index=state.index,
             terminal=expected_element,  # type: ignore
-- 
2.43.0


From 7650854ab47559ee055d32cb4e3c70e29d049115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:27 +0000
Subject: [PATCH 55/73] fix: parse trees of a match did not derive the
 sentence, or were never found

---
 polytracker/grammars.py | 218 ++++++++++++++--------------------------
 1 file changed, 74 insertions(+), 144 deletions(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index b247358..bb6fb38 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -562,7 +562,11 @@ class Completion(EarleyState):
         super().__init__(
             prediction=prediction, parsed=parsed, expected=expected, index=index
         )
-        self.completed_by: Set[EarleyState] = set()
+        # the pairs of left sibling and completed state this state arose from;
+        # both members of the first pair existed before this state
+        self.completed_by: Dict[
+            Tuple[int, int], Tuple[EarleyState, EarleyState]
+        ] = {}
 
     __hash__ = EarleyState.__hash__  # type: ignore
 
@@ -627,7 +631,9 @@ class EarleyQueue:
             expected=state.expected[1:],
             index=state.index,
         )
-        self.add(new_state, left_sibling=state).completed_by.add(completed)
+        self.add(new_state, left_sibling=state).completed_by.setdefault(
+            (id(state), id(completed)), (state, completed)
+        )
 
     def add(self, state: S, left_sibling: Optional[EarleyState] = None) -> S:
         if state in self.elements:
@@ -770,13 +776,74 @@ class EarleyParser:
             return
 
         for end_state in self.end_states:
-            root = _Node(end_state)
+            # the alternative taken and the number of alternatives at each ambiguity
+            choices: List[List[int]] = []
             while True:
-                tree = MutableParseTree(self.start)
-                tree.children = [n.tree.clone() for n in root.siblings]
-                yield tree  # type: ignore
-                if not root.iterate():
+                tree = self._build_tree(end_state, choices)
+                if tree is not None:
+                    yield tree
+                while choices and choices[-1][0] + 1 >= choices[-1][1]:
+                    choices.pop()
+                if not choices:
                     break
+                choices[-1][0] += 1
+
+    @staticmethod
+    def _build_tree(
+        end_state: EarleyState, choices: List[List[int]]
+    ) -> Optional[ParseTree[ParseTreeValue]]:
+        """Builds the parse tree designated by the choices, extending them with the first alternatives
+
+        Returns None if a production would have to derive itself.
+
+        """
+        root: MutableParseTree[ParseTreeValue] = MutableParseTree(end_state.production)
+        num_choices = 0
+        # the states to expand, their trees, and the states that are being expanded and consume the same bytes
+        stack: List[Tuple[EarleyState, MutableParseTree, FrozenSet[int]]] = [
+            (end_state, root, frozenset())
+        ]
+        while stack:
+            state, tree, expanding = stack.pop()
+            if isinstance(state, EmptyProduction):
+                continue
+            parent = state
+            expanding = expanding | {id(state)}
+            rule_tree: MutableParseTree[ParseTreeValue] = MutableParseTree(
+                state.prediction.rule
+            )
+            tree.children = [rule_tree]
+            children: List[MutableParseTree[ParseTreeValue]] = []
+            while not isinstance(state, Prediction):
+                if isinstance(state, ScannedTerminal):
+                    children.append(MutableParseTree(state.terminal))
+                    state = next(iter(state.predecessors))
+                    continue
+                alternatives = [
+                    (left_sibling, completed)
+                    for left_sibling, completed in state.completed_by.values()  # type: ignore
+                    if id(completed) not in expanding
+                ]
+                if not alternatives:
+                    return None
+                choice = 0
+                if len(alternatives) > 1:
+                    if num_choices == len(choices):
+                        choices.append([0, len(alternatives)])
+                    choice = choices[num_choices][0]
+                    num_choices += 1
+                state, completed = alternatives[choice]
+                child: MutableParseTree[ParseTreeValue] = MutableParseTree(
+                    completed.production
+                )
+                children.append(child)
+                if len(completed.parsed) == len(parent.parsed):
+                    stack.append((completed, child, expanding))
+                else:
+                    stack.append((completed, child, frozenset()))
+            children.reverse()
+            rule_tree.children = children or [MutableParseTree(Terminal(""))]
+        return root
 
     def _predict(self, state: EarleyState, k: int):
         prod: Production = self.grammar[state.next_element]  # type: ignore
@@ -823,143 +890,6 @@ class EarleyParser:
             self.states[k].complete_state(state, completed)
 
 
-class _Node:
-    def __init__(
-        self,
-        state: EarleyState,
-        parent: Optional["_Node"] = None,
-        _initialize: bool = True,
-    ):
-        self.parent: Optional[_Node] = parent
-        if parent is None:
-            self.root: _Node = self
-            self.history: Set[EarleyState] = {state}
-        else:
-            self.root = parent.root
-            self.history = parent.history
-            self.history.add(state)
-        self.state: EarleyState = state
-        self.sibling_possibilities: Iterator[EarleyState] = iter(
-            sorted(state.predecessors, key=lambda p: p.depth)
-        )
-        if isinstance(state, Completion):
-            self.child_possibilities: Iterator[EarleyState] = iter(
-                sorted(state.completed_by, key=lambda p: p.depth)
-            )
-        else:
-            self.child_possibilities = iter(())
-        self.rightmost_child: Optional[_Node] = None
-        self.left_sibling: Optional[_Node] = None
-        if isinstance(self.state, Prediction) and parent is not None:
-            self.tree: MutableParseTree[ParseTreeValue] = MutableParseTree(
-                self.state.rule
-            )
-        elif isinstance(self.state, ScannedTerminal):
-            self.tree = MutableParseTree(self.state.terminal)
-        else:
-            self.tree = MutableParseTree(self.state.production)
-
-        if _initialize:
-            stack: List[_Node] = [self]
-            while stack:
-                node = stack.pop()
-                try:
-                    left_sibling = node.next_sibling()
-                    node.left_sibling = _Node(
-                        left_sibling, parent=self.parent, _initialize=False
-                    )
-                    stack.append(node.left_sibling)
-                except StopIteration:
-                    pass
-                try:
-                    rightmost_child = node.next_child()
-                    node.rightmost_child = _Node(
-                        rightmost_child, parent=self, _initialize=False
-                    )
-                    stack.append(node.rightmost_child)
-                except StopIteration:
-                    pass
-            for node in self.postorder_traversal():
-                if node.rightmost_child is not None:
-                    node.tree.children = [
-                        child.tree for child in node.rightmost_child.siblings
-                    ]
-            if parent is not None:
-                parent.tree.children = [child.tree for child in parent.children]
-
-    def next_sibling(self) -> EarleyState:
-        while True:
-            left_sibling = next(self.sibling_possibilities)
-            if left_sibling not in self.history:
-                return left_sibling
-
-    def next_child(self) -> EarleyState:
-        while True:
-            rightmost_child = next(self.child_possibilities)
-            if rightmost_child not in self.history:
-                return rightmost_child
-
-    def descendants(self) -> Iterator[EarleyState]:
-        stack: List[_Node] = [self]
-        while stack:
-            node = stack.pop()
-            yield node.state
-            if node.left_sibling:
-                stack.append(node.left_sibling)
-            if node.rightmost_child:
-                stack.append(node.rightmost_child)
-
-    @property
-    def siblings(self) -> Iterator["_Node"]:
-        nodes = [self]
-        while nodes[-1].left_sibling is not None:
-            nodes.append(nodes[-1].left_sibling)
-        return reversed(nodes)
-
-    @property
-    def children(self) -> Iterator["_Node"]:
-        if self.rightmost_child is not None:
-            yield from self.rightmost_child.siblings
-
-    def _iterate_local(self) -> bool:
-        try:
-            left_sibling = self.next_sibling()
-            if self.left_sibling is not None:
-                self.history -= set(self.left_sibling.descendants())
-            self.left_sibling = _Node(left_sibling, parent=self.parent)
-            return True
-        except StopIteration:
-            pass
-        try:
-            rightmost_child = self.next_child()
-            if self.rightmost_child is not None:
-                self.history -= set(self.rightmost_child.descendants())
-            self.rightmost_child = _Node(rightmost_child, parent=self)
-            return True
-        except StopIteration:
-            return False
-
-    def postorder_traversal(self) -> Iterator["_Node"]:
-        stack: List[Tuple[bool, _Node]] = [(False, self)]
-
-        while stack:
-            expanded, node = stack.pop()
-            if not expanded:
-                stack.append((True, node))
-                if node.left_sibling is not None:
-                    stack.append((False, node.left_sibling))
-                if node.rightmost_child is not None:
-                    stack.append((False, node.rightmost_child))
-            else:
-                yield node
-
-    def iterate(self) -> bool:
-        for node in self.postorder_traversal():
-            if node._iterate_local():
-                return True
-        return False
-
-
 class Match:
     def __init__(self, parser: EarleyParser):
         self.parser: EarleyParser = parser
-- 
2.43.0


From 8932731b2b9784c9730116ee527c2b852bdd5322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:03 +0000
Subject: [PATCH 56/73] fix: matching after rules were added used what could be
 produced before

---
 polytracker/grammars.py | 52 ++++++++++++++---------------------------
 1 file changed, 17 insertions(+), 35 deletions(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index bb6fb38..b753711 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -161,7 +161,7 @@ class Production:
             for term in rule.sequence:
                 if isinstance(term, str):
                     grammar.used_by[term].add(name)
-        self._can_produce_terminal: Optional[bool] = None
+        grammar.terminal_producers = None
 
     def first_rule(self) -> Optional[Rule]:
         if self.rules:
@@ -262,17 +262,15 @@ class Production:
 
     @property
     def can_produce_terminal(self) -> bool:
-        if self._can_produce_terminal is None:
+        producers = self.grammar.terminal_producers
+        if producers is None:
             queue: List[Production] = [
                 prod
                 for prod in self.grammar.productions.values()
-                if prod._can_produce_terminal is None
-                and any(r.has_terminals for r in prod.rules)
+                if any(r.has_terminals for r in prod.rules)
             ]
-            visited: Set[Production] = set(queue)
-            for p in queue:
-                # all nodes in the queue can trivially produce a terminal
-                p._can_produce_terminal = True
+            # all nodes in the queue can trivially produce a terminal
+            producers = {prod.name for prod in queue}
             with tqdm(
                 leave=False, unit=" productions", desc="finding empty productions"
             ) as status:
@@ -281,41 +279,18 @@ class Production:
                     used_by = [
                         used_by_prod
                         for used_by_prod in prod.used_by
-                        if used_by_prod not in visited
+                        if used_by_prod.name not in producers
                     ]
-                    for used_by_prod in used_by:
-                        used_by_prod._can_produce_terminal = True
                     queue.extend(used_by)
-                    visited |= set(used_by)
+                    producers |= {used_by_prod.name for used_by_prod in used_by}
                     status.update(1)
-            if self._can_produce_terminal is None:
-                self._can_produce_terminal = False
-        return self._can_produce_terminal  # type: ignore
+            self.grammar.terminal_producers = producers
+        return self.name in producers
 
     @property
     def used_by(self) -> Iterable["Production"]:
         return (self.grammar[name] for name in self.grammar.used_by[self.name])
 
-    def _propagate_terminals(self):
-        """Calculates if this production can produce a terminal.
-        If a rule calls another terminal whose _can_produce_terminal member is None, assume that it is False
-
-        """
-        if any(r.has_terminals for r in self.rules):
-            self._can_produce_terminal = True
-        for v in itertools.chain(*self.rules):
-            if isinstance(v, Production):
-                if v._can_produce_terminal is not None and v._can_produce_terminal:
-                    # The rule calls another production that can produce a terminal
-                    self._can_produce_terminal = True
-                    break
-            else:
-                # v is a Terminal
-                self._can_produce_terminal = True
-                break
-        else:
-            self._can_produce_terminal = False
-
     def remove_sub_production(self, name: str):
         new_rules = []
         for rule in self.rules:
@@ -324,6 +299,9 @@ class Production:
                 new_rules.append(rule)
         self.rules = set(new_rules)
         self.grammar.used_by[name].remove(self.name)
+        producers = self.grammar.terminal_producers
+        if producers is not None and name in producers:
+            self.grammar.terminal_producers = None
 
     def replace_sub_production(
         self, to_replace: NonTerminal, replace_with: Union[NonTerminal, Rule]
@@ -341,6 +319,7 @@ class Production:
             modified = rule.replace_sub_production(to_replace, replace_with) or modified
             self.rules.add(rule)
         if modified:
+            self.grammar.terminal_producers = None
             self.grammar.used_by[to_replace].remove(self.name)
             for new_prod in new_prods:
                 self.grammar.used_by[new_prod].add(self.name)
@@ -358,6 +337,7 @@ class Production:
         if rule in self.rules:
             return False
         self.rules.add(rule)
+        self.grammar.terminal_producers = None
         for term in rule.sequence:
             if isinstance(term, NonTerminal):
                 self.grammar.used_by[term].add(self.name)
@@ -924,6 +904,8 @@ class Grammar:
         self.productions: Dict[NonTerminal, Production] = {}
         self.used_by: Dict[NonTerminal, Set[NonTerminal]] = defaultdict(set)
         self.start: Optional[Production] = None
+        # the productions that can produce a terminal, None if that needs to be determined
+        self.terminal_producers: Optional[Set[NonTerminal]] = None
 
     def match(
         self, sentence: Union[str, bytes], start: Optional[Production] = None
-- 
2.43.0


From a1897dd671dc75c2e42290e1fc95ba0198e505f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:15 +0000
Subject: [PATCH 57/73] fix: simplifying a grammar could remove its start
 production

---
 polytracker/grammars.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index b753711..bc44989 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -1026,7 +1026,11 @@ class Grammar:
             ):
                 # remove any rules in the production that just recursively call the same production
                 prod.remove_recursive_rules()
-                if prod.removable and len(prod.rules) == 1:
+                if (
+                    prod.removable
+                    and prod is not self.start
+                    and len(prod.rules) == 1
+                ):
                     # this production has a single rule, so replace all uses with that rule
                     for user in list(prod.used_by):
                         user.replace_sub_production(prod.name, prod.first_rule())  # type: ignore
@@ -1042,7 +1046,11 @@ class Grammar:
                 leave=False,
                 unit_divisor=1,
             ):
-                if prod.removable and not prod.can_produce_terminal:
+                if (
+                    prod.removable
+                    and prod is not self.start
+                    and not prod.can_produce_terminal
+                ):
                     removed = self.remove(prod)
                     assert removed
                     # print(f"removed {prod} because it was empty")
-- 
2.43.0


From 868b0121f69e5c07501c91901b89b7ea19dfe890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:24 +0000
Subject: [PATCH 58/73] fix: dropping self-recursive rules left the production
 recorded as its own user

---
 polytracker/grammars.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index bc44989..e35ec4f 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -258,6 +258,8 @@ class Production:
             [rule for rule in self if len(rule) == 1 and rule[0] == self.name]
         )
         self.rules -= removed
+        if removed and not any(self.name in rule.sequence for rule in self):
+            self.grammar.used_by[self.name].discard(self.name)
         return removed
 
     @property
-- 
2.43.0


From f217ed3b2ba24daf0c56fb420bc9fc6719efc3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:33 +0000
Subject: [PATCH 59/73] fix: simplifying a grammar unrolled productions whose
 only rule is recursive

---
 polytracker/grammars.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index e35ec4f..8416fce 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -1032,6 +1032,8 @@ class Grammar:
                     prod.removable
                     and prod is not self.start
                     and len(prod.rules) == 1
+                    # a rule that uses the production itself cannot replace it
+                    and prod.name not in prod.first_rule().sequence  # type: ignore
                 ):
                     # this production has a single rule, so replace all uses with that rule
                     for user in list(prod.used_by):
-- 
2.43.0


From 769754d1c02767bd4b5a247b99d049915cd45b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:59 +0000
Subject: [PATCH 60/73] fix: removing an empty production from a grammar also
 dropped rules that derive the empty sequence

---
 polytracker/grammars.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 8416fce..1b7cb2f 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -297,8 +297,7 @@ class Production:
         new_rules = []
         for rule in self.rules:
             rule.remove_sub_production(name)
-            if rule:
-                new_rules.append(rule)
+            new_rules.append(rule)
         self.rules = set(new_rules)
         self.grammar.used_by[name].remove(self.name)
         producers = self.grammar.terminal_producers
-- 
2.43.0


From 34363dacb4ee87fbcbf758383b12a404907d0ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:24 +0000
Subject: [PATCH 61/73] fix: rewritten rules kept what they could produce
 before, so that simplification removed productions in use

---
 polytracker/grammars.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 1b7cb2f..42b1563 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -55,7 +55,10 @@ class Rule:
     def __init__(self, grammar: "Grammar", *sequence: Symbol):
         self.grammar: Grammar = grammar
         self.sequence: Tuple[Symbol, ...] = Rule.combine_terminals(sequence)
-        self.has_terminals: bool = any(isinstance(t, Terminal) for t in self.sequence)
+
+    @property
+    def has_terminals(self) -> bool:
+        return any(isinstance(t, Terminal) for t in self.sequence)
 
     @staticmethod
     def combine_terminals(sequence: Iterable[Symbol]) -> Tuple[Symbol, ...]:
-- 
2.43.0


From 58c0c40dd1fe565bc4dd83aab4f3e2d1190ea471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:06 +0000
Subject: [PATCH 62/73] fix: verifying a grammar whose start production uses no
 others failed with KeyError

---
 polytracker/grammars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/grammars.py b/polytracker/grammars.py
index 42b1563..6158bb4 100644
--- a/polytracker/grammars.py
+++ b/polytracker/grammars.py
@@ -928,7 +928,7 @@ class Grammar:
 
     def dependency_graph(self) -> DiGraph[Production]:
         graph: DiGraph[Production] = DiGraph()
-        for prod in self.productions:
+        for prod in self.productions.values():
             graph.add_node(prod)
         for prod_name, used_by_names in self.used_by.items():
             if prod_name not in self:
-- 
2.43.0


From ef589685571d794452e8e93aa469705eb03f60f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:20 +0000
Subject: [PATCH 63/73] fix: building a tree with terminals from a trace
 failed, basic block entries have no get_taints

---
 polytracker/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/parsing.py b/polytracker/parsing.py
index d6c86b5..eb21bb1 100644
--- a/polytracker/parsing.py
+++ b/polytracker/parsing.py
@@ -287,7 +287,7 @@ def trace_to_tree(
                 child_node = node_type(bb)
                 node.children.append(child_node)
                 if include_terminals:
-                    for token in bb.get_taints().regions():
+                    for token in bb.taints().regions():
                         node.children.append(node_type(Terminal(token.value)))
                 func = bb.called_function
                 if func is not None:
-- 
2.43.0


From 4646a147f19290e8c15695e7c51637bbc303789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:17 +0000
Subject: [PATCH 64/73] fix: keep the labels of memory that a failed munmap
 leaves mapped

---
 polytracker/src/taint_sources/taint_sources.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index dce85a0..2721035 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -421,7 +421,9 @@ EXT_C_FUNC int __dfsw_munmap(void *addr, size_t length, dfsan_label addr_label,
   fprintf(stderr, "### munmap, addr %p, length %zu \n", addr, length);
 #endif
   int ret = munmap(addr, length);
-  dfsan_set_label(0, addr, length);
+  if (ret == 0) {
+    dfsan_set_label(0, addr, length);
+  }
   *ret_label = 0;
   return ret;
 }
-- 
2.43.0


From 1927e9e1985dee15047a199d4d0d3260da3afe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:17 +0000
Subject: [PATCH 65/73] fix: do not end the program when a socket has no peer
 address

---
 polytracker/src/taint_sources/taint_sources.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polytracker/src/taint_sources/taint_sources.cpp b/polytracker/src/taint_sources/taint_sources.cpp
index 2721035..1779e66 100644
--- a/polytracker/src/taint_sources/taint_sources.cpp
+++ b/polytracker/src/taint_sources/taint_sources.cpp
@@ -470,7 +470,7 @@ static std::optional<std::string> connect_name(int socket) {
   if (int ret = getsockname(socket, reinterpret_cast<sockaddr *>(&local_addr),
                             &local_len);
       ret != 0) {
-    taintdag::error_exit("Failed to get sockname for socket ", socket);
+    return {};
   }
 
   // The only supported address family for now is AF_INET
@@ -480,7 +480,7 @@ static std::optional<std::string> connect_name(int socket) {
   if (int ret = getpeername(socket, reinterpret_cast<sockaddr *>(&remote_addr),
                             &remote_len);
       ret != 0) {
-    taintdag::error_exit("Failed to get peername for socket ", socket);
+    return {};
   }
 
   if (!inet_ntop(AF_INET, &(local_addr.sin_addr), local_str,
-- 
2.43.0


From a0436b80ee7b5cf6c83496e3905a4121710dc770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:32 +0000
Subject: [PATCH 66/73] fix: branches taken before tracking starts keep their
 condition

---
 polytracker/src/polytracker/polytracker.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/polytracker/src/polytracker/polytracker.cpp b/polytracker/src/polytracker/polytracker.cpp
index 56064e3..f51d848 100644
--- a/polytracker/src/polytracker/polytracker.cpp
+++ b/polytracker/src/polytracker/polytracker.cpp
@@ -76,10 +76,7 @@ extern "C" void __polytracker_taint_argv(int argc, char *argv[]) {
 extern "C" uint64_t __dfsw___polytracker_log_tainted_control_flow(
     uint64_t conditional, uint32_t functionid, dfsan_label conditional_label,
     dfsan_label function_label, dfsan_label *ret_label) {
-  if (!polytracker_is_initialized()) {
-    return 0;
-  }
-  if (conditional_label > 0) {
+  if (polytracker_is_initialized() && conditional_label > 0) {
     get_polytracker_tdag().log_tainted_control_flow(conditional_label,
                                                     functionid);
   }
-- 
2.43.0


From fa948299795917688800f1f313e94fec6917d090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:12 +0000
Subject: [PATCH 67/73] fix: ProgramTrace.next_function_entry never ended

---
 polytracker/tracing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index a535bbd..a57f9a7 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -1197,10 +1197,11 @@ class ProgramTrace(ABC):
         if function_return is None:
             next_event = after.next_control_flow_event
         else:
-            next_event = function_return.returning_to
+            next_event = function_return.next_control_flow_event
         while next_event is not None:
             if isinstance(next_event, FunctionEntry):
                 return next_event
+            next_event = next_event.next_control_flow_event
         return None
 
     @property
-- 
2.43.0


From 26e817a865c1f7f7455dc888638710fe19efb0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:12 +0000
Subject: [PATCH 68/73] fix: input properties of an input with unused bytes

---
 polytracker/tracing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index a57f9a7..57bb428 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -1111,7 +1111,9 @@ class ProgramTrace(ABC):
             for previous_offset, (previous, first_used) in enumerate(
                 zip(first_usages, first_usages[1:])
             )
-            if previous > first_used  # type: ignore
+            if previous is not None
+            and first_used is not None
+            and previous > first_used
         ]
         return InputProperties(
             unused_byte_offsets=unused_bytes,
-- 
2.43.0


From fd6a64873d7ae6a870412e6ecada624dadb89c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:12 +0000
Subject: [PATCH 69/73] fix: comparing traces called a method that functions do
 not have

---
 polytracker/diffing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polytracker/diffing.py b/polytracker/diffing.py
index 48c1371..5c397de 100644
--- a/polytracker/diffing.py
+++ b/polytracker/diffing.py
@@ -186,7 +186,7 @@ class TraceDiff:
                 unit=" functions",
                 leave=False,
             ):
-                for region in func.get_taints().regions():
+                for region in func.taints().regions():
                     self._first_intervals[region.source].add(
                         Interval(region.offset, region.offset + region.length)
                     )
@@ -199,7 +199,7 @@ class TraceDiff:
                 unit=" functions",
                 leave=False,
             ):
-                for region in func.get_taints().regions():
+                for region in func.taints().regions():
                     self._second_intervals[region.source].add(
                         Interval(region.offset, region.offset + region.length)
                     )
-- 
2.43.0


From 1ade0fea10b565375f23f33f3cebb4b855c6c2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:12 +0000
Subject: [PATCH 70/73] fix: the difference of traces dropped regions that
 overlap in part

---
 polytracker/diffing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polytracker/diffing.py b/polytracker/diffing.py
index 5c397de..54bcb9a 100644
--- a/polytracker/diffing.py
+++ b/polytracker/diffing.py
@@ -217,7 +217,7 @@ class TraceDiff:
                     unit=" intervals",
                     leave=False,
                 ):
-                    self._bytes_only_in_first[source].remove_overlap(
+                    self._bytes_only_in_first[source].chop(
                         interval.begin, interval.end
                     )
                 self._bytes_only_in_second[source] = self._second_intervals[
@@ -229,7 +229,7 @@ class TraceDiff:
                     unit=" intervals",
                     leave=False,
                 ):
-                    self._bytes_only_in_second[source].remove_overlap(
+                    self._bytes_only_in_second[source].chop(
                         interval.begin, interval.end
                     )
                 assert (
-- 
2.43.0


From 1e484bdc6ecadedfbfb78afc2b5df6128806de0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:12 +0000
Subject: [PATCH 71/73] fix: the animation called a method that accesses do not
 have

---
 polytracker/visualizations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polytracker/visualizations.py b/polytracker/visualizations.py
index c9dc8f3..82038d4 100644
--- a/polytracker/visualizations.py
+++ b/polytracker/visualizations.py
@@ -59,7 +59,7 @@ def temporal_animation(
         else:
             enhancer = ImageEnhance.Brightness(images[-1])
             image = enhancer.enhance(1.1)
-        for offset in access.get_taints():
+        for offset in access.taints():
             row = offset.offset // width
             col = offset.offset % width
             image.putpixel((col, row), 0)
-- 
2.43.0


From 877a8e2cdb59c163c2d939682bc038d8c05c2639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:40 +0000
Subject: [PATCH 72/73] fix: function invocations could not be hashed

---
 polytracker/tracing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/polytracker/tracing.py b/polytracker/tracing.py
index 57bb428..b99c245 100644
--- a/polytracker/tracing.py
+++ b/polytracker/tracing.py
@@ -961,6 +961,9 @@ class FunctionInvocation(ControlFlowEvent):
     def __eq__(self, other):
         return isinstance(other, FunctionInvocation) and other.uid == self.uid
 
+    def __hash__(self):
+        return self.uid
+
     def __iter__(self) -> Iterator[Union[BasicBlockEntry, "FunctionInvocation"]]:
         """Iterates all of the basic block entries that took place during this function invocation.
         Any functions that are called from this function are yielded as a FunctionInvocation.
-- 
2.43.0


From f45d951d136cefcb9f5dd451a749b471d046ee62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:51 +0000
Subject: [PATCH 73/73] fix: keep every node in the dominator forest

Functions without dominator edges (a single function, or recursion without a
root) were missing from it, so that comparing traces failed.
---
 polytracker/graphs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polytracker/graphs.py b/polytracker/graphs.py
index 859b9ac..995f460 100644
--- a/polytracker/graphs.py
+++ b/polytracker/graphs.py
@@ -131,6 +131,7 @@ class DiGraph(nx.DiGraph, Generic[N]):
         if self._dominator_forest is not None:
             return self._dominator_forest
         self._dominator_forest = DAG()
+        self._dominator_forest.add_nodes_from(self.nodes)
         for root in self.roots:
             for node, dominated_by in nx.immediate_dominators(self, root).items():
                 if node != dominated_by:
-- 
2.43.0

