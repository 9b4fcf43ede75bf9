// C06: bounded random numbers - range, uniformity, termination.
#include "world.h"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" {
#include <torsion/rand.h>
}

enum { OP_SEED, OP_SKIP, OP_BYTES, OP_DRAW, OP_EDGE, OP_DIST, OP_HUNT };
static const char *const ops[] = {"seed", "skip", "bytes", "draw", "edge", "dist", "hunt", nullptr};
static u32 *peekbuf;   // shared with the peeking process

static i64 pick_max(Rng &r) {
  switch (r.below(7)) {
    case 0: return r.below(14);
    case 1: return (i64)(1ull << r.below(32)) + r.range(-2, 2);
    case 2: return (i64)(0x80000000u + r.below(0x7fffffff));
    case 3: return (i64)(0xffffffffu - r.below(4));
    case 4: return (i64)(0x40000000u * 3ull + r.below(64));
    case 5: return (i64)(1 + r.below(1000));
    default: return (i64)r.below(0x100000000ull);
  }
}
static Plan gen(Rng &r, const Cfg &, u64) {
  Plan p;
  p.add(OP_SEED, {(i64)r.below(1ull << 40), (i64)r.below(4)});
  int n = (int)r.range(2, 14);
  if (r.chance(1, 150)) { p.add(OP_HUNT, {(i64)r.chance(3, 4), (i64)r.pick<int>({256, 256, 1024, 65536}), 0}); p.add(OP_EDGE, {(i64)r.pick<int>({0, 2, 7, 7}), (i64)r.below(8)}); }
  for (int i = 0; i < n; i++) {
    if (r.chance(1, 3)) p.add(OP_SKIP, {(i64)r.below(130)});
    if (r.chance(1, 10)) p.add(OP_BYTES, {(i64)r.below(100)});
    u64 k = r.below(20);
    if (k < 10) p.add(OP_DRAW, {pick_max(r), (i64)r.range(1, 150)});
    else if (k < 19) p.add(OP_EDGE, {(i64)r.below(8), (i64)r.below(1 << 20)});
    else p.add(OP_DIST, {pick_max(r), 4000});
  }
  return p;
}

static u32 word() { u32 w = 0; if (!torsion_random(&w)) g_ctx->fail("failed-without-cause", "random request failed with working entropy"); return w; }
static u32 bounded(u32 max) {
  Guard g(4, max);
  if (!torsion_uniform((u32 *)g.p(), max)) g_ctx->fail("failed-without-cause", "bounded random request failed with working entropy");
  g.check("bounded random request");
  u32 v; memcpy(&v, g.p(), 4);
  g_ctx->eval();
  if (max <= 1 ? v != 0 : v >= max) g_ctx->fail("out-of-range", "request below %u returned %u", max, v);
  g_ctx->tr(v);
  return v;
}
// Distance to the next word that is extremely large or extremely small, found by a copy of the process.
static u32 hunt(bool large, u32 width) {
  fflush(nullptr);
  peekbuf[0] = ~0u;
  pid_t real = fork();
  if (real == 0) {
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 8; setitimer(ITIMER_PROF, &it, nullptr);
    try { for (u32 i = 0; i < 60000000; i++) { u32 w = 0; torsion_random(&w); if (large ? w >= 0u - width : w < width) { peekbuf[0] = i; break; } } } catch (...) { _exit(1); }
    _exit(0);
  }
  int st = 0;
  while (waitpid(real, &st, 0) < 0 && errno == EINTR) {}
  return st == 0 ? peekbuf[0] : ~0u;
}
// What would the next n words be? Asked of a real copy of the process, which keeps the simulated process id.
static bool peek(u32 *out, int n) {
  fflush(nullptr);
  pid_t real = fork();
  if (real == 0) {
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 5; setitimer(ITIMER_PROF, &it, nullptr);
    try { for (int i = 0; i < n; i++) { u32 w = 0; torsion_random(&w); peekbuf[i] = w; } } catch (...) { _exit(1); }
    _exit(0);
  }
  int st = 0;
  while (waitpid(real, &st, 0) < 0 && errno == EINTR) {}
  if (st != 0) return false;
  memcpy(out, peekbuf, (size_t)n * 4);
  return true;
}

static void exec(const Plan &p, Ctx &c) {
  W.reset();
  static long pidgen = 5000;
  W.pid = ++pidgen;               // a fresh process: the generator reseeds
  W.ent_seed = 99; W.call_limit = 100000;
  u64 draws = 0, consumed = 0;
  bool modulo_ok = true; u64 modulo_seen = 0;
  int policy = 0;
  bool edges = false;
  for (auto &s : p.steps) edges |= s.op == OP_EDGE || s.op == OP_HUNT;
  if (edges) {
    int a = 0, b = 0, ra = 0, rb = 0, d = 0;
    for (int i = 0; i < 3; i++) {
      u32 w[64], nx[4], m = 0xc0000000u;
      if (!peek(w, 64)) break;
      for (int j = 0; j < 8; j++) bounded(m);
      if (!peek(nx, 4)) break;
      int used = -1;
      for (int k = 8; k < 60; k++) if (!memcmp(w + k, nx, sizeof nx)) { used = k; break; }
      if (used < 0) break;
      for (int k = 0; k < used; k++) { a += w[k] >= 0xc0000000u; b += w[k] < 0x40000000u; }
      ra += used - 8; d++;
      rb = ra;
    }
    // all rejections are explained by exactly one end
    if (d == 3 && ra == a && ra != b) policy = 1;
    if (d == 3 && rb == b && rb != a) policy = 2;
    c.probe(policy == 1 ? "cuts-upper-end" : policy == 2 ? "cuts-lower-end" : "cut-unknown");
  }
  for (auto &s : p.steps) {
    W.begin_request();
    switch (s.op) {
      case OP_SEED: W.ent_seed = (u64)s.arg(0); W.cpu_rdrand = s.arg(1) & 1; W.cpu_rdseed = (s.arg(1) >> 1) & 1; W.hw_seed = (u64)s.arg(0); break;
      case OP_SKIP: { int n = (int)((u64)s.arg(0) % 1000); for (int i = 0; i < n; i++) c.tr(word()); break; }
      case OP_BYTES: { u8 b[128]; size_t n = (size_t)((u64)s.arg(0) % 128); torsion_getrandom(b, n); c.tr(b, n); break; }
      case OP_DRAW: {
        u32 max = (u32)s.arg(0); int n = (int)((u64)s.arg(1) % 5000);
        for (int i = 0; i < n; i++) bounded(max);
        c.sh(hash2(max, (u64)n)); c.state(hash2(max, 1)); c.interesting = true;
        break;
      }
      case OP_HUNT: {
        u32 d = hunt(s.arg(0) & 1, (u32)((u64)s.arg(1) % 100000) + 2);
        if (d == ~0u) break;
        for (u32 i = 0; i < d; i++) word();
        c.probe("extreme-word-found");
        break;
      }
      case OP_EDGE: {
        // learn the coming words, then place the bound so that a word falls exactly on an interval edge
        u32 w[24];
        if (!peek(w, 24)) break;
        u32 x = w[0], max;
        switch (s.arg(0) & 7) {
          case 0: case 1: max = x; break;                 // x is the first word of the incomplete interval
          case 2: case 3: max = x + 1; break;             // x is the last accepted word
          case 4: max = x / 2; break;
          case 5: max = x / 3; break;
          case 6: max = (u32)(0x100000000ull - x); break; // spacing of the upper edge
          default: max = x - (u32)(s.arg(1) & 7); break;
        }
        if (max < 2) break;
        u32 v = bounded(max);
        u32 nx[4];
        if (!peek(nx, 4)) break;
        c.fault("bound-placed-on-edge");
        int used = -1;
        for (int k = 1; k < 20; k++) if (!memcmp(w + k, nx, sizeof nx)) { used = k; break; }
        c.sh(hash2(s.arg(0) & 7, (u64)used)); c.state(hash2(max, v));
        if (used < 0) { c.probe("not-word-based"); modulo_ok = false; break; }
        draws++; consumed += (u64)used;
        u32 last = w[used - 1];
        // is the result a remainder of the last word consumed?
        bool rem = v == last % max;
        if (!rem) { c.probe("not-modulo"); modulo_ok = false; break; }
        if (!modulo_ok) break;
        modulo_seen++;
        // With remainders, uniformity means that the accepted words form complete intervals. Which end is cut
        // off is the implementation's choice; it was learned with a bound far from any edge.
        if (policy == 0) { c.probe("unknown-policy"); break; }
        u64 cut = 0x100000000ull % max;
        if (cut == 0) { c.probe("power-of-two"); break; }
        for (int k = 0; k + 1 < used; k++) {
          bool complete = policy == 1 ? w[k] < 0x100000000ull - cut : w[k] >= cut;
          CHECK(!complete, "biased", "bound %u: word %u lies in a complete interval but was rejected, so result %u is less likely than others", max, w[k], w[k] % max);
        }
        bool complete = policy == 1 ? last < 0x100000000ull - cut : last >= cut;
        CHECK(complete, "biased", "bound %u: word %u lies outside the complete intervals but was accepted, so result %u is more likely than others", max, last, v);
        c.probe("edge-checked");
        if (used > 1) c.probe("rejection-seen");
        break;
      }
      case OP_DIST: {
        u32 max = (u32)s.arg(0); if (max < 2) break;
        u64 n = (u64)s.arg(1) % 100000;
        int bins = max < 16 ? (int)max : 16;
        std::vector<u64> byrange(bins, 0), byrem(16, 0);
        for (u64 i = 0; i < n; i++) { u32 v = bounded(max); byrange[(size_t)((u64)v * (u64)bins / max)]++; }
        double chi = 0;
        for (int b = 0; b < bins; b++) {
          // exact number of values falling into the bin
          u64 lo = ((u64)b * max + bins - 1) / bins, hi = ((u64)(b + 1) * max + bins - 1) / bins;
          double e = (double)n * (double)(hi - lo) / (double)max;
          if (e > 0) chi += ((double)byrange[b] - e) * ((double)byrange[b] - e) / e;
        }
        double df = bins - 1;
        double lim = df * pow(1 - 2 / (9 * df) + 8.0 * sqrt(2 / (9 * df)), 3) + 20;   // beyond 1e-13
        c.probe("distribution-tested");
        CHECK(chi < lim, "biased", "bound %u: chi-square %.1f over %d bins of %llu draws (limit %.1f)", max, chi, bins, (unsigned long long)n, lim);
        break;
      }
    }
  }
  if (modulo_ok && draws >= 8) CHECK(consumed <= draws * 4 + 40, "wasteful", "%llu draws consumed %llu words", (unsigned long long)draws, (unsigned long long)consumed);
}
static void init(const Cfg &) { peekbuf = (u32 *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
const Scenario scenario = {"C06", ops, gen, exec, init, "histories with at least one bounded draw, distinct by bounds drawn and number of words consumed", 30};
