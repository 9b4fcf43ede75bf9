// The simulated operating system seen by the library's entropy code.
#pragma once
#include "engine.h"
#include <map>

enum Call { K_GETRANDOM, K_OPEN, K_FSTAT, K_POLL, K_READ, K_CLOSE, K_FCNTL, K_SYSCTL, K_SOCKET, K_CONNECT, K_WRITE, K_SHUTDOWN, K_N };
enum FaultKind { F_EINTR, F_EAGAIN, F_SHORT, F_HARD, F_EOF, F_TYPE, F_SPURIOUS, F_N };
extern const char *const call_names[K_N];
extern const char *const fault_names[F_N];

struct Fault { int call, nth, kind; i64 arg; int used; };

struct Delivery { u64 pos; u8 *dst; size_t n; bool genuine; Bytes data; std::vector<size_t> fixed = {}; };   // fixed: positions that are not random

// Environment switches (persist until changed)
struct Env {
  int getrandom = 0;     // 0 works, 1 ENOSYS, 2 EPERM (seccomp)
  int random_dev = 0;    // 0 char device, 1 missing, 2 regular file, 3 EACCES
  int urandom_dev = 0;
  int cloexec = 1;       // kernel knows O_CLOEXEC
  int sysctl = 0;        // 0 missing, 1 present
  int seeded_at = 0;     // simulated us at which the kernel pool is initialised
  int nofile = 0;        // 1: EMFILE on every open
  int egd = 0;           // 0 present, 1 missing
};

struct World {
  Env env;
  std::vector<Fault> faults;      // faults of the current request
  int calls[K_N];                 // calls of each kind in this request
  u64 total_calls, call_limit;
  u64 fired, fired_hard, fired_transient;
  u64 now_us;
  struct Fd { int what; u64 pos; Bytes rx, rxg; bool open; int cloexec; Bytes tx; };
  std::map<int, Fd> fds;
  std::vector<Delivery> log;      // deliveries of the current request
  u64 ent_seed;                   // seed of the entropy stream
  u64 *ent_pos;                   // bytes delivered so far (may be shared by processes)
  u64 mutate_pos = ~0ull;         // stream byte to flip (twin runs)
  long pid = 1000;
  // outcomes relevant to "must succeed"
  bool hard_getrandom, hard_device, hard_sysctl;
  // cpu generator
  int cpu_rdrand = 0, cpu_rdseed = 0, cpu_leaf = 7;
  int hw_mode = 0;                // see hw_answer()
  u64 hw_seed = 0, hw_calls = 0, hw_fail_num = 0, hw_dead_from = ~0ull, hw_dead_to = 0;
  u64 hw_fails = 0;
  u32 last_rdrand = 0;
  bool rdrand_dead = false;       // the generator instruction never answers again
  u64 hw_seq = 0; int hw_last = 0; // position within a series of answers of one instruction
  const u8 *adv_mem = nullptr; size_t adv_len = 0; size_t adv_off = 0;  // memory the adversary mirrors
  void reset();
  void begin_request();
};
extern World W;
extern u64 g_wait_limit_us;
// library memory image (renamed sections), for capture
extern "C" {
extern char __start_libdata[] __attribute__((weak)), __stop_libdata[] __attribute__((weak));
extern char __start_libbss[] __attribute__((weak)), __stop_libbss[] __attribute__((weak));
}
struct Range { u8 *p; size_t n; };
std::vector<Range> library_static();          // writable static + thread-local memory of the library
std::vector<Range> library_heap();            // blocks the library currently holds
extern void (*g_on_release)(const u8 *, size_t);   // sees every block as the library gives it back
u64 heap_live();
struct AbortCalled { };
struct NoMemoryPlan { std::vector<u64> fail_at; u64 count = 0; u64 failed = 0; bool active = false; u64 fail_from = ~0ull;
  size_t max_size = ~(size_t)0;                 // larger requests fail
  bool record = false; int call = 0; std::vector<std::pair<int, u64>> rec; };   // library call and call site of each allocation
void heap_drop_new(const std::vector<Range> &before);   // the process died: forget what it allocated since
extern void (*g_on_abort)();
extern NoMemoryPlan g_oom;
