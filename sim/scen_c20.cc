// C20: the same history of operations on nodes built in different configurations.
#include "world.h"
#include <algorithm>
#define REPLICA(n) extern "C" void cat_start_##n(void); extern "C" size_t cat_eval_##n(int, u64, u8 *, size_t);
#include "replicas.inc"
#undef REPLICA
namespace {
struct Node { const char *name; void (*start)(); size_t (*eval)(int, u64, u8 *, size_t); };
const Node nodes[] = {
#define REPLICA(n) {#n, cat_start_##n, cat_eval_##n},
#include "replicas.inc"
#undef REPLICA
};
enum { NN = sizeof nodes / sizeof *nodes };
bool narrow[NN];
enum { OP, SHUFFLE };
const char *const ops[] = {"op", "shuffle", nullptr};
// operations and their share
const struct { int op, weight; const char *name; } mix[] = {{0, 4, "hash"}, {1, 2, "hmac"}, {2, 8, "poly1305"}, {3, 4, "sums"}, {4, 4, "stream cipher"}, {5, 4, "aead"}, {6, 4, "block cipher"}, {7, 6, "cipher modes"}, {8, 2, "drbg"}, {9, 2, "kdf"}, {10, 1, "bcrypt"}, {11, 1, "scrypt"}, {12, 3, "base16-64"}, {13, 3, "base58"}, {14, 2, "addresses"}, {15, 12, "ecdsa"}, {16, 12, "ec keys"}, {17, 12, "ec maps"}, {18, 8, "schnorr"}, {19, 5, "batch"}, {20, 16, "ecdh"}, {21, 10, "eddsa"}, {22, 10, "ed keys"}, {23, 8, "ristretto"}, {24, 1, "contexts"}, {25, 6, "rsa signatures"}, {26, 6, "rsa encryption"}, {27, 4, "rsa keys"}, {28, 1, "rsa generation"}, {29, 6, "dsa"}, {30, 40, "integers"}, {31, 4, "single blocks"}, {32, 2, "key search"}};
Plan gen(Rng &r, const Cfg &, u64) {
  Plan p; u64 tot = 0; for (auto &m : mix) tot += (u64)m.weight;
  if (r.chance(2, 3)) p.add(SHUFFLE, {(i64)(r.next() >> 2)});
  // a run concentrates on a few kinds of operation
  std::vector<int> kinds; int nk = 1 + (int)r.below(4); for (int i = 0; i < nk; i++) { u64 x = r.below(tot); for (auto &m : mix) { if (x < (u64)m.weight) { kinds.push_back(m.op); break; } x -= (u64)m.weight; } }
  int n = 1 + (int)r.below(12); for (int i = 0; i < n; i++) p.add(OP, {kinds[r.below(kinds.size())], (i64)(r.next() >> 2)});
  return p;
}
void __attribute__((noinline)) dirty_stack(u64 v) { volatile u64 a[4096]; for (int i = 0; i < 4096; i++) a[i] = v ^ (u64)i * 0x9e3779b97f4a7c15ull; }
void init(const Cfg &) { static Ctx c0; static SharedStats st0; if (!g_ctx) { c0.st = &st0; g_ctx = &c0; } for (int k = 0; k < NN; k++) { nodes[k].start(); narrow[k] = strstr(nodes[k].name, "32") != nullptr; } }
const char *opname(int o) { for (auto &m : mix) if (m.op == o) return m.name; return "?"; }
void exec(const Plan &p, Ctx &c) {
  W.reset(); struct Job { int op; u64 seed; }; std::vector<Job> jobs; u64 shuffle = 0;
  for (auto &s : p.steps) { if (s.op == SHUFFLE) shuffle = (u64)s.arg(0) | 1; else jobs.push_back({(int)((u64)s.arg(0) % (sizeof mix / sizeof *mix)), (u64)s.arg(1)}); }
  std::vector<std::vector<Bytes>> res(NN, std::vector<Bytes>(jobs.size()));
  static u8 buf[1 << 16];
  for (int k = 0; k < NN; k++) {
    // delivery to this node: its own order, some requests twice
    std::vector<size_t> order; for (size_t i = 0; i < jobs.size(); i++) order.push_back(i);
    if (shuffle && k) { Rng r(hash2(shuffle, (u64)k)); for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]); c.fault("reordered delivery"); if (!order.empty() && r.chance(1, 2)) { order.push_back(order[r.below(order.size())]); c.fault("repeated delivery"); } }
    std::vector<bool> have(jobs.size());
    u64 live = heap_live();
    for (size_t i : order) {
      c.step(); dirty_stack(hash2(c.h, (u64)k)); Bytes out;
      try { size_t n = nodes[k].eval(jobs[i].op, jobs[i].seed, buf, sizeof buf); out.assign(buf, buf + n); size_t m = 4 + (buf[0] | (size_t)buf[1] << 8 | (size_t)buf[2] << 16); if (narrow[k]) { c.probe(m < n ? "seed-sampled values not compared across word sizes" : "word sizes compared"); out.resize(m); } }
      catch (AbortCalled &) { c.fail("abort", "node %s terminated in %s seed %llu", nodes[k].name, opname(jobs[i].op), (unsigned long long)jobs[i].seed); }
      CHECK(heap_live() == live, "leak", "node %s leaked in %s seed %llu", nodes[k].name, opname(jobs[i].op), (unsigned long long)jobs[i].seed);
      if (have[i]) { c.eval(); CHECK(out == res[k][i], "not-repeatable", "node %s answered a repeated request differently: %s seed %llu", nodes[k].name, opname(jobs[i].op), (unsigned long long)jobs[i].seed); }
      res[k][i] = out; have[i] = true;
      if (k) { Bytes a = res[0][i]; if (narrow[k]) a.resize(4 + (a[0] | (size_t)a[1] << 8 | (size_t)a[2] << 16)); c.eval(); size_t d = 0; while (d < a.size() && d < out.size() && a[d] == out[d]) d++; size_t f = d > 8 ? d - 8 : 0;
        CHECK(a == out, "builds-differ", "%s seed %llu: node %s and node %s differ at byte %zu of %zu/%zu: %s against %s", opname(jobs[i].op), (unsigned long long)jobs[i].seed, nodes[0].name, nodes[k].name, d, a.size(), out.size(), hex(a.data() + std::min(f, a.size()), a.size() - std::min(f, a.size()), 28).c_str(), hex(out.data() + std::min(f, out.size()), out.size() - std::min(f, out.size()), 28).c_str()); }
    }
  }
  for (size_t i = 0; i < jobs.size(); i++) { c.tr(res[0][i]); c.sh((u64)jobs[i].op); c.sh(res[0][i].size()); c.state(hash2((u64)jobs[i].op, hash_bytes(res[0][i].data(), res[0][i].size()))); c.probe(opname(jobs[i].op)); }
  c.interesting = !jobs.empty();
}
}
const Scenario scenario = {"C20", ops, gen, exec, init, "a run in which every node answered at least one request", 120};
