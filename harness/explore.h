// Systematic exploration of thread schedules of real code.
//
// The code under test is compiled with -fsanitize=thread and linked with the
// callbacks in explore.cpp instead of the TSan runtime, so every memory access,
// atomic operation, lock operation and system call of a controlled thread is
// announced before it happens. Only one controlled thread runs at a time. The
// explorer enumerates every schedule that switches away from a runnable thread
// at most `bound` times.
//
// Switches are offered only before operations on locations that two threads
// access in some execution, one of them writing, without a lock ordering the
// accesses (a lock itself counts as such a location); all other operations
// commute with those of the other threads. Which locations these are is
// observed in every execution, and the exploration starts over whenever it
// finds another.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {
constexpr int kThreads = 4, kDec = 4096, kLoc = 1 << 14;
struct Dec {
  uint8_t cur;     // thread at the point
  uint8_t runnable; // may it go on
  uint8_t enabled; // mask
  uint8_t chosen;
};
// Shared between the explorer and the process executing one schedule.
struct Run {
  int nprefix;
  uint8_t prefix[kDec];
  int ndec;
  Dec dec[kDec];
  uint64_t hot[kLoc]; // open addressing, 0 = free
  int nhot;
  int nnew;
  uint64_t fresh[1024];
  uint64_t ops;
  int outcome; // 0 none, 1 finished, 2 deadlock, 3 too long, 4 diverged
};
extern Run *g_run;
// In the executing process: runs the bodies under control until all end.
void execute(const std::vector<std::function<void()>> &bodies);
// Scheduling point for system calls and harness-level shared objects.
void touch(uint64_t object, bool write);
int self(); // -1 outside controlled threads

struct Stats {
  uint64_t runs = 0, restarts = 0, points = 0, ops = 0, maxdec = 0;
  bool truncated = false;
};
extern double g_deadline; // CLOCK_MONOTONIC seconds at which to give up, 0 = never
// In the exploring process. `child` runs in a forked process (and ends it);
// `after` judges the outcome in the exploring process. Both may throw.
Stats explore(int bound, const std::function<void()> &child, const std::function<void(int status, const std::string &schedule)> &after,
              const std::function<void()> &beat);
} // namespace sched
