// Every operation of the library as a repeatable function of (operation, seed), used by the
// memory, thread and build-configuration scenarios.
#pragma once
#include "engine.h"
struct CatHooks { int target = -1; void (*arm)(void) = nullptr; u64 (*disarm)(void) = nullptr; void (*mark)(int) = nullptr; };   // disarm returns the number of failures injected
struct CatFailed { int call; };             // the armed call reported failure
// smp: values drawn from a caller's seed through integer sampling, whose mapping depends on the word size by design
struct CatResult { Bytes out, smp; int calls = 0; };
struct CatInfo { const char *name; int cost; bool allocates; };   // cost: rough microseconds
extern const CatInfo cat_ops[];
int cat_count();
void cat_init();                            // shared read-only contexts and keys
void cat_run(int op, u64 seed, const CatHooks *h, CatResult &r);
extern thread_local bool cat_dead;          // the simulated process has terminated: release nothing
// flat interface used across dynamically loaded builds
extern "C" __attribute__((visibility("default"))) void cat_start(void);
extern "C" __attribute__((visibility("default"))) size_t cat_eval(int op, u64 seed, u8 *out, size_t cap);   // 4 bytes length of out, out, smp
