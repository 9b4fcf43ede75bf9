// Deterministic scheduler: real threads of which exactly one runs at a time. Control changes hands only
// at places chosen by the plan: function entries, accesses to memory that threads share and write,
// allocations, locks and atomic operations (seen through compiler instrumentation of the library).
#pragma once
#include "engine.h"
#include "world.h"
#include <functional>
enum { Y_CALL, Y_SHARED, Y_HEAP, Y_SYNC, Y_N };
extern const char *const yield_names[Y_N];
struct Switch { int kind; u64 after; int to; };
struct Sched {
  std::vector<std::function<void()>> bodies;
  std::vector<Switch> plan;          // per kind of place in order, each counted from the previous one of its kind
  u64 stack_seed = 0;                // contents of fresh stacks
  u64 fired[Y_N] = {}, seen[Y_N] = {}, contended = 0, sig = 0;
  void run();                        // throws Violation when a thread fails or all are blocked
};
// memory that counts as shared: the library's writable static memory and these ranges
void shared_ranges(const std::vector<Range> &r);
void shared_forget();                // a new run: nothing is known to be written
u64 shared_written();                // words written so far
