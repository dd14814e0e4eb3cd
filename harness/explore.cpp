#include "explore.h"
#include <atomic>
#include <cerrno>
#include <condition_variable>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>

namespace sched {
Run *g_run = nullptr;
double g_deadline = 0;
namespace {
struct Thr {
  pthread_t id;
  sem_t sem;
  std::function<void()> body;
  bool done = false;
  uint64_t wait = 0;      // lock it waits for, 0 = none
  bool wait_read = false; // waits for shared ownership
  uint64_t cond = 0;      // condition variable it waits for
  char *lo = nullptr, *hi = nullptr;
  bool wait_rec = false;  // it may own the lock already
  uint32_t vc[kThreads] = {};
};
Thr g_thr[kThreads];
int g_n = 0, g_cur = -1;
bool g_on = false;
uint64_t g_streak = 0;
sem_t g_main;
thread_local int t_self = -1;
thread_local bool t_in = false; // inside the scheduler
struct Lock {
  int owner = -1;
  int depth = 0;
  uint32_t readers = 0;
  uint32_t vc[kThreads] = {}; // what its last holders had seen
};
std::unordered_map<uint64_t, Lock> *g_locks;
struct Acc {
  uint32_t rd[kThreads] = {}, wr[kThreads] = {}; // last access of each thread
  bool race = false;
};
std::unordered_map<uint64_t, Acc> *g_acc;

[[noreturn]] void finish(int outcome) {
  g_run->outcome = outcome;
  _exit(40 + outcome);
}
bool hot(uint64_t x) {
  for (uint64_t h = x * 0x9E3779B97F4A7C15ull >> 50;; h++) {
    uint64_t v = g_run->hot[h % kLoc];
    if (v == x)
      return true;
    if (!v)
      return false;
  }
}
void add_hot(uint64_t x) {
  for (uint64_t h = x * 0x9E3779B97F4A7C15ull >> 50;; h++) {
    uint64_t &v = g_run->hot[h % kLoc];
    if (v == x)
      return;
    if (!v) {
      v = x;
      g_run->nhot++;
      return;
    }
  }
}
bool enabled(int t) {
  Thr &x = g_thr[t];
  if (x.done || x.cond)
    return false;
  if (!x.wait)
    return true;
  Lock &l = (*g_locks)[x.wait];
  if (l.owner >= 0 && !(l.owner == t && x.wait_rec))
    return false;
  return x.wait_read || (l.readers & ~(1u << t)) == 0;
}
void handoff(int to) {
  int me = t_self;
  g_cur = to;
  g_streak = 0;
  sem_post(&g_thr[to].sem);
  if (me >= 0 && !g_thr[me].done)
    while (sem_wait(&g_thr[me].sem))
      ;
}
// A decision; the current thread goes on if it is chosen.
void decide(bool runnable) {
  uint8_t mask = 0;
  int cnt = 0, last = -1;
  for (int i = 0; i < g_n; i++)
    if (enabled(i))
      mask |= 1 << i, cnt++, last = i;
  if (!mask) {
    for (int i = 0; i < g_n; i++)
      if (!g_thr[i].done)
        finish(2);
    sem_post(&g_main);
    return;
  }
  int to;
  if (cnt == 1)
    to = last; // no choice
  else {
    int i = g_run->ndec;
    if (i >= kDec)
      finish(3);
    if (i < g_run->nprefix) {
      to = g_run->prefix[i];
      if (!(mask & (1 << to)))
        finish(4);
    } else if (runnable)
      to = t_self;
    else
      to = __builtin_ctz(mask);
    g_run->dec[i] = {(uint8_t)t_self, runnable, mask, (uint8_t)to};
    g_run->ndec++;
  }
  if (to != t_self)
    handoff(to);
}
// Two threads access a location, one of them writing, and no lock orders the
// accesses.
void record(uint64_t g, bool write) {
  Acc &a = (*g_acc)[g];
  uint32_t *vc = g_thr[t_self].vc;
  for (int u = 0; u < g_n; u++)
    if (u != t_self && (a.wr[u] > vc[u] || (write && a.rd[u] > vc[u])))
      a.race = true;
  (write ? a.wr : a.rd)[t_self] = vc[t_self];
}
void join(uint32_t *to, const uint32_t *from) {
  for (int i = 0; i < kThreads; i++)
    to[i] = std::max(to[i], from[i]);
}
void tick() {
  g_run->ops++;
  if (g_run->ops > 4000000)
    finish(3);
  if (++g_streak > 30000) { // a spinning thread lets the others go on
    g_streak = 0;
    for (int k = 1; k < g_n; k++) {
      int t = (t_self + k) % g_n;
      if (enabled(t)) {
        handoff(t);
        return;
      }
    }
  }
}
struct In {
  In() { t_in = true; }
  ~In() { t_in = false; }
};
bool controlled() { return g_on && t_self >= 0 && !t_in; }
void point(uint64_t g, bool write) {
  In in;
  tick();
  record(g, write);
  if (hot(g))
    decide(true);
}
void access(const volatile void *p, size_t n, bool write) {
  if (!controlled())
    return;
  char *c = (char *)p;
  if (c >= g_thr[t_self].lo && c < g_thr[t_self].hi)
    return;
  for (uint64_t g = (uint64_t)c >> 3; g <= ((uint64_t)c + n - 1) >> 3; g++)
    point(g, write);
}
void acquire(uint64_t m, bool rd, bool rec = false) {
  point(m, true);
  In in;
  Thr &t = g_thr[t_self];
  t.wait = m;
  t.wait_read = rd;
  t.wait_rec = rec;
  if (!enabled(t_self))
    decide(false);
  t.wait = 0;
  Lock &l = (*g_locks)[m];
  if (rd)
    l.readers |= 1u << t_self;
  else {
    l.owner = t_self;
    l.depth++;
  }
  join(t.vc, l.vc);
}
bool try_acquire(uint64_t m, bool rd, bool rec = false) {
  point(m, true);
  In in;
  Thr &t = g_thr[t_self];
  t.wait = m;
  t.wait_read = rd;
  t.wait_rec = rec;
  bool ok = enabled(t_self);
  t.wait = 0;
  if (!ok)
    return false;
  Lock &l = (*g_locks)[m];
  if (rd)
    l.readers |= 1u << t_self;
  else {
    l.owner = t_self;
    l.depth++;
  }
  join(t.vc, l.vc);
  return true;
}
void release(uint64_t m) {
  In in;
  tick();
  Lock &l = (*g_locks)[m];
  join(l.vc, g_thr[t_self].vc);
  g_thr[t_self].vc[t_self]++;
  if (l.readers & (1u << t_self))
    l.readers &= ~(1u << t_self);
  else if (--l.depth <= 0) {
    l.depth = 0;
    l.owner = -1;
  }
}
void *thread_main(void *p) {
  int i = (int)(intptr_t)p;
  while (sem_wait(&g_thr[i].sem))
    ;
  t_self = i;
  g_thr[i].body();
  {
    In in;
    g_thr[i].done = true;
    bool any = false;
    for (int k = 0; k < g_n; k++)
      any |= !g_thr[k].done;
    if (!any)
      sem_post(&g_main);
    else
      decide(false);
  }
  t_self = -1;
  return nullptr;
}
template <class F> F *real(const char *n, F *) { return (F *)dlsym(RTLD_NEXT, n); }
#define REAL(f)                                                                                                                                 \
  static auto *r = real(#f, (decltype(&f))nullptr)
} // namespace

int self() { return t_self; }
void touch(uint64_t o, bool w) {
  if (controlled())
    point(o, w);
}
void execute(const std::vector<std::function<void()>> &bodies) {
  g_locks = new std::unordered_map<uint64_t, Lock>;
  g_acc = new std::unordered_map<uint64_t, Acc>;
  g_acc->reserve(4096);
  sem_init(&g_main, 0, 0);
  g_n = (int)bodies.size();
  constexpr size_t SZ = 256 << 10;
  for (int i = 0; i < g_n; i++) {
    Thr &t = g_thr[i];
    t.body = bodies[i];
    t.vc[i] = 1;
    sem_init(&t.sem, 0, 0);
    pthread_attr_t at;
    pthread_attr_init(&at);
    t.lo = (char *)mmap(nullptr, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    t.hi = t.lo + SZ;
    pthread_attr_setstack(&at, t.lo, SZ);
    pthread_create(&t.id, &at, thread_main, (void *)(intptr_t)i);
  }
  g_on = true;
  // The first decision: which thread starts.
  t_self = g_n; // not a thread
  {
    int i = g_run->ndec;
    uint8_t mask = (1 << g_n) - 1;
    int to = i < g_run->nprefix ? g_run->prefix[i] : 0;
    g_run->dec[i] = {0, 0, mask, (uint8_t)to};
    g_run->ndec++;
    t_self = -1;
    g_cur = to;
    sem_post(&g_thr[to].sem);
  }
  while (sem_wait(&g_main))
    ;
  g_on = false;
  for (int i = 0; i < g_n; i++)
    pthread_join(g_thr[i].id, nullptr);
  for (auto &kv : *g_acc) {
    Acc &a = kv.second;
    if (a.race && !hot(kv.first) && g_run->nnew < 1024)
      g_run->fresh[g_run->nnew++] = kv.first;
  }
  g_run->outcome = 1;
}

Stats explore(int bound, const std::function<void()> &child, const std::function<void(int, const std::string &)> &after,
              const std::function<void()> &beat) {
  if (!g_run) {
    g_run = (Run *)mmap(nullptr, sizeof(Run), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }
  memset(g_run, 0, sizeof *g_run);
  Stats s;
  std::vector<std::vector<uint8_t>> work{{}};
  while (!work.empty()) {
    if (g_deadline) {
      timespec ts;
      clock_gettime(CLOCK_MONOTONIC, &ts);
      if (ts.tv_sec + ts.tv_nsec * 1e-9 > g_deadline) {
        s.truncated = true;
        break;
      }
    }
    auto pre = work.back();
    work.pop_back();
    g_run->nprefix = (int)pre.size();
    memcpy(g_run->prefix, pre.data(), pre.size());
    g_run->ndec = g_run->nnew = g_run->outcome = 0;
    g_run->ops = 0;
    beat();
    fflush(stdout);
    pid_t p = fork();
    if (!p) {
      child();
      _exit(99);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0)
      ;
    s.runs++;
    s.ops += g_run->ops;
    s.points += g_run->ndec;
    s.maxdec = std::max<uint64_t>(s.maxdec, g_run->ndec);
    std::string sc;
    for (int i = 0; i < g_run->ndec; i++)
      sc += (char)('a' + g_run->dec[i].chosen);
    if (g_run->outcome != 4) // a prefix that no longer fits is not judged
      after(st, sc);
    if (g_run->nnew) {
      for (int i = 0; i < g_run->nnew; i++)
        add_hot(g_run->fresh[i]);
      s.restarts++;
      work.assign(1, {});
      continue;
    }
    int cost = 0;
    for (int i = 0; i < g_run->ndec; i++) {
      Dec d = g_run->dec[i];
      if (i >= (int)pre.size())
        for (int t = 0; t < kThreads; t++)
          if ((d.enabled & (1 << t)) && t != d.chosen && cost + (d.runnable && t != d.cur) <= bound) {
            std::vector<uint8_t> q;
            for (int k = 0; k < i; k++)
              q.push_back(g_run->dec[k].chosen);
            q.push_back(t);
            work.push_back(q);
          }
      cost += d.runnable && d.chosen != d.cur;
    }
  }
  return s;
}
} // namespace sched
using namespace sched;

// ---- callbacks of the instrumentation
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                                                                                                   \
  void __tsan_read##n(void *p) { access(p, n, false); }                                                                                        \
  void __tsan_write##n(void *p) { access(p, n, true); }                                                                                        \
  void __tsan_unaligned_read##n(void *p) { access(p, n, false); }                                                                              \
  void __tsan_unaligned_write##n(void *p) { access(p, n, true); }                                                                              \
  void __tsan_read_write##n(void *p) { access(p, n, true); }                                                                                   \
  void __tsan_unaligned_read_write##n(void *p) { access(p, n, true); }                                                                         \
  void __tsan_volatile_read##n(void *p) { access(p, n, false); }                                                                               \
  void __tsan_volatile_write##n(void *p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) {
  if (n)
    access(p, n, false);
}
void __tsan_write_range(void *p, size_t n) {
  if (n)
    access(p, n, true);
}
void __tsan_vptr_update(void **p, void *) { access(p, 8, true); }
void __tsan_vptr_read(void **p) { access(p, 8, false); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  if (!controlled())
    return memmove(d, s, n);
  for (size_t i = 0; i < n;) {
    size_t k = std::min<size_t>(n - i, 8 - ((uintptr_t)d + i) % 8);
    access((char *)s + i, k, false);
    access((char *)d + i, k, true);
    memcpy((char *)d + i, (char *)s + i, k);
    i += k;
  }
  return d;
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  if (!controlled() || ((char *)d < (char *)s + n && (char *)s < (char *)d + n)) {
    if (n) {
      access(s, n, false);
      access(d, n, true);
    }
    return memmove(d, s, n);
  }
  return __tsan_memcpy(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
  if (!controlled())
    return memset(d, c, n);
  for (size_t i = 0; i < n;) {
    size_t k = std::min<size_t>(n - i, 8 - ((uintptr_t)d + i) % 8);
    access((char *)d + i, k, true);
    memset((char *)d + i, c, k);
    i += k;
  }
  return d;
}
#define AT(w, T)                                                                                                                                \
  T __tsan_atomic##w##_load(const volatile T *p, int) {                                                                                        \
    access(p, sizeof(T), false);                                                                                                               \
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                                               \
  }                                                                                                                                            \
  void __tsan_atomic##w##_store(volatile T *p, T v, int) {                                                                                     \
    access(p, sizeof(T), true);                                                                                                                \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                                                  \
  }                                                                                                                                            \
  T __tsan_atomic##w##_exchange(volatile T *p, T v, int) {                                                                                     \
    access(p, sizeof(T), true);                                                                                                                \
    return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                                                        \
  }                                                                                                                                            \
  T __tsan_atomic##w##_fetch_add(volatile T *p, T v, int) {                                                                                    \
    access(p, sizeof(T), true);                                                                                                                \
    return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                                                         \
  }                                                                                                                                            \
  T __tsan_atomic##w##_fetch_sub(volatile T *p, T v, int) {                                                                                    \
    access(p, sizeof(T), true);                                                                                                                \
    return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                                                         \
  }                                                                                                                                            \
  T __tsan_atomic##w##_fetch_and(volatile T *p, T v, int) {                                                                                    \
    access(p, sizeof(T), true);                                                                                                                \
    return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                                                         \
  }                                                                                                                                            \
  T __tsan_atomic##w##_fetch_or(volatile T *p, T v, int) {                                                                                     \
    access(p, sizeof(T), true);                                                                                                                \
    return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                                                          \
  }                                                                                                                                            \
  T __tsan_atomic##w##_fetch_xor(volatile T *p, T v, int) {                                                                                    \
    access(p, sizeof(T), true);                                                                                                                \
    return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                                                                         \
  }                                                                                                                                            \
  T __tsan_atomic##w##_fetch_nand(volatile T *p, T v, int) {                                                                                   \
    access(p, sizeof(T), true);                                                                                                                \
    return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                                                                                        \
  }                                                                                                                                            \
  int __tsan_atomic##w##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) {                                                         \
    access(p, sizeof(T), true);                                                                                                                \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                    \
  }                                                                                                                                            \
  int __tsan_atomic##w##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) {                                                           \
    access(p, sizeof(T), true);                                                                                                                \
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                    \
  }                                                                                                                                            \
  T __tsan_atomic##w##_compare_exchange_val(volatile T *p, T e, T v, int, int) {                                                               \
    access(p, sizeof(T), true);                                                                                                                \
    __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                          \
    return e;                                                                                                                                  \
  }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- locks
#define KEY(m) ((uint64_t)(m) >> 3)
int pthread_mutex_lock(pthread_mutex_t *m) {
  REAL(pthread_mutex_lock);
  if (!controlled())
    return r(m);
  acquire(KEY(m), false, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  REAL(pthread_mutex_trylock);
  if (!controlled())
    return r(m);
  return try_acquire(KEY(m), false, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) ? 0 : EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  REAL(pthread_mutex_unlock);
  if (!controlled())
    return r(m);
  release(KEY(m));
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  REAL(pthread_rwlock_rdlock);
  if (!controlled())
    return r(m);
  acquire(KEY(m), true);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  REAL(pthread_rwlock_wrlock);
  if (!controlled())
    return r(m);
  acquire(KEY(m), false);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) {
  REAL(pthread_rwlock_tryrdlock);
  if (!controlled())
    return r(m);
  return try_acquire(KEY(m), true) ? 0 : EBUSY;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) {
  REAL(pthread_rwlock_trywrlock);
  if (!controlled())
    return r(m);
  return try_acquire(KEY(m), false) ? 0 : EBUSY;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) {
  REAL(pthread_rwlock_unlock);
  if (!controlled())
    return r(m);
  release(KEY(m));
  return 0;
}
int pthread_spin_lock(pthread_spinlock_t *m) {
  REAL(pthread_spin_lock);
  if (!controlled())
    return r(m);
  acquire((uint64_t)m, false);
  return 0;
}
int pthread_spin_unlock(pthread_spinlock_t *m) {
  REAL(pthread_spin_unlock);
  if (!controlled())
    return r(m);
  release((uint64_t)m);
  return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  REAL(pthread_cond_wait);
  if (!controlled())
    return r(c, m);
  point(KEY(c), true);
  release(KEY(m));
  {
    In in;
    g_thr[t_self].cond = KEY(c);
    decide(false);
  }
  acquire(KEY(m), false);
  return 0;
}
static void wake(pthread_cond_t *c, bool all) {
  point(KEY(c), true);
  for (int i = 0; i < g_n; i++)
    if (g_thr[i].cond == KEY(c)) {
      g_thr[i].cond = 0;
      if (!all)
        break;
    }
}
int pthread_cond_signal(pthread_cond_t *c) {
  REAL(pthread_cond_signal);
  if (!controlled())
    return r(c);
  wake(c, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  REAL(pthread_cond_broadcast);
  if (!controlled())
    return r(c);
  wake(c, true);
  return 0;
}
int pthread_once(pthread_once_t *o, void (*f)()) {
  REAL(pthread_once);
  if (!controlled())
    return r(o, f);
  acquire(KEY(o), false);
  if (*o != 2) { // as glibc marks it
    f();
    *o = 2;
  }
  release(KEY(o));
  return 0;
}
int __cxa_guard_acquire(uint64_t *g) {
  if (__atomic_load_n((char *)g, __ATOMIC_ACQUIRE))
    return 0;
  if (!controlled())
    return 1;
  acquire((uint64_t)g >> 3, false);
  if (*(char *)g) {
    release((uint64_t)g >> 3);
    return 0;
  }
  return 1;
}
void __cxa_guard_release(uint64_t *g) {
  __atomic_store_n((char *)g, 1, __ATOMIC_RELEASE);
  if (controlled())
    release((uint64_t)g >> 3);
}
void __cxa_guard_abort(uint64_t *g) {
  if (controlled())
    release((uint64_t)g >> 3);
}
int sched_yield() {
  if (controlled()) {
    In in;
    tick();
    for (int k = 1; k < g_n; k++) {
      int t = (t_self + k) % g_n;
      if (enabled(t)) {
        handoff(t);
        break;
      }
    }
    return 0;
  }
  return (int)syscall(SYS_sched_yield);
}

// ---- system calls with shared state: the descriptor table and descriptors
#define FDT 0xfd00000000ull
int open(const char *p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  int mode = va_arg(ap, int);
  va_end(ap);
  touch(FDT, true);
  return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
int close(int fd) {
  touch(FDT, true);
  return (int)syscall(SYS_close, fd);
}
ssize_t read(int fd, void *b, size_t n) {
  touch(FDT + 1 + fd, true);
  return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
  touch(FDT + 1 + fd, true);
  return syscall(SYS_write, fd, b, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
  touch(FDT + 1 + fd, false);
  return syscall(SYS_pread64, fd, b, n, o);
}
off_t lseek(int fd, off_t o, int w) {
  touch(FDT + 1 + fd, !(o == 0 && w == SEEK_CUR));
  return syscall(SYS_lseek, fd, o, w);
}
}
