// Deterministic simulation engine: PRNG, plans, run context, supervisor.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;
typedef std::vector<u8> Bytes;

static inline u64 mix64(u64 z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static inline u64 hash2(u64 a, u64 b) { return mix64(a * 0x9e3779b97f4a7c15ull + mix64(b)); }
u64 hash_bytes(const void *p, size_t n, u64 h = 0x1234567);

// The one source of choice: every decision of a run derives from the run seed.
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 0) : s(seed) {}
  u64 next() { s += 0x9e3779b97f4a7c15ull; u64 z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  u64 below(u64 n) { return n <= 1 ? 0 : (u64)(((unsigned __int128)next() * n) >> 64); }
  i64 range(i64 a, i64 b) { return b <= a ? a : a + (i64)below((u64)(b - a) + 1); }
  bool chance(u64 num, u64 den) { return below(den) < num; }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

void fill_bytes(u64 seed, void *p, size_t n);
Bytes seed_bytes(u64 seed, size_t n);
std::string hex(const void *p, size_t n, size_t max = 48);
static inline std::string hex(const Bytes &b, size_t max = 48) { return hex(b.data(), b.size(), max); }

struct Step {
  int op = 0;
  std::vector<i64> a;
  Step() {}
  Step(int o, std::initializer_list<i64> l) : op(o), a(l) {}
  i64 arg(size_t i, i64 d = 0) const { return i < a.size() ? a[i] : d; }
};
struct Plan {
  std::vector<Step> steps;
  void add(int op, std::initializer_list<i64> l) { steps.push_back(Step(op, l)); }
};

struct Violation { std::string cls, msg; };

// Shared page between the executing child and the supervisor.
struct NamedCount { char name[40]; u64 n; };
enum { MAX_COUNTS = 192, HLL_BITS = 14, MAX_SAMPLES = 4, KNOWN_MAX = 8 };
struct SharedStats {
  volatile u64 current;        // index being executed
  volatile u64 done;           // runs finished
  u64 steps, evals, sim_us, nontrivial;
  int have_violation;
  u64 viol_index, viol_hash;
  char viol_cls[80];
  char viol_msg[1600];
  u64 run_hash;                // hash of last finished run
  u64 all_hash;                // combination over all runs (order independent)
  NamedCount fault[MAX_COUNTS], probe[MAX_COUNTS];
  NamedCount known[KNOWN_MAX];
  char known_msg[KNOWN_MAX][256];
  u8 hll[1 << HLL_BITS];
  char sample[MAX_SAMPLES][400];
  u64 nshapes;                 // shapes[] follows, capacity in shapes_cap
  u64 shapes_cap;
  u64 shapes[1];
};

struct Cfg { int thorough = 0; u64 seed = 1; const char *flavour = ""; };

struct Ctx {
  SharedStats *st = nullptr;
  Cfg cfg;
  u64 h = 0;            // trace hash: everything observable
  u64 shape = 0;        // control-shape hash: operations, faults, outcomes
  bool interesting = false;
  std::string note;     // human trace of the run (only when verbose)
  bool verbose = false;

  [[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
  void tr(u64 v) { h = hash2(h, v); }
  void tr(const void *p, size_t n) { h = hash_bytes(p, n, h); }
  void tr(const Bytes &b) { tr(b.data(), b.size()); }
  void sh(u64 v) { shape = hash2(shape, v); }
  void fault(const char *kind, u64 n = 1);   // a fault actually fired
  void probe(const char *name, u64 n = 1);   // a rare condition was reached
  void state(u64 h);                         // distinct state/interleaving measure
  void eval(u64 n = 1) { st->evals += n; }   // an oracle comparison was made
  void step(u64 n = 1) { st->steps += n; }
  void simtime(u64 us) { st->sim_us += us; }
  void log(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
};

struct Scenario {
  const char *prop;
  const char *const *ops;      // operation names, nullptr terminated
  Plan (*gen)(Rng &r, const Cfg &cfg, u64 index);
  void (*exec)(const Plan &p, Ctx &c);
  void (*init)(const Cfg &cfg);   // once per process, may be null
  const char *rule;            // what counts as a distinct nontrivial case
  unsigned cpu_limit;          // seconds of cpu per run
};
extern const Scenario scenario;   // defined by the scenario source
extern Ctx *g_ctx;                // context of the run being executed

// Guarded buffer: canaries on both sides, checked by check().
struct Guard {
  std::vector<u8> v; size_t n, off; u8 fillb;
  explicit Guard(size_t size, u64 seed = 0, size_t align_off = 0)
    : v(size + 64 + align_off), n(size), off(32 + align_off) {
    fillb = (u8)(0xa5 ^ seed);
    for (size_t i = 0; i < v.size(); i++) v[i] = (u8)(fillb + i * 7);
  }
  u8 *p() { return v.data() + off; }
  bool ok() const {
    for (size_t i = 0; i < off; i++) if (v[i] != (u8)(fillb + i * 7)) return false;
    for (size_t i = off + n; i < v.size(); i++) if (v[i] != (u8)(fillb + i * 7)) return false;
    return true;
  }
  void check(const char *what) { if (!ok()) g_ctx->fail("out-of-bounds-write", "%s wrote outside its buffer of %zu bytes", what, n); }
  Bytes get(size_t len) const { return Bytes(v.begin() + off, v.begin() + off + len); }
};

#define CHECK(cond, cls, ...) do { if (!(cond)) g_ctx->fail(cls, __VA_ARGS__); } while (0)
