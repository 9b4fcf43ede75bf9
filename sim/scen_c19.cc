// C19: threads doing unrelated work at the same time; every call must give what it gives alone.
#include "threads.h"
#include "catalog.h"
#include <algorithm>
void image_reset();
namespace {
enum { JOB, SWITCH };
const char *const ops[] = {"job", "switch", nullptr};
enum { MAXT = 4 };
const struct { int op, weight; } mix[] = {{0, 8}, {1, 6}, {2, 6}, {3, 4}, {4, 6}, {5, 6}, {6, 10}, {7, 10}, {8, 6}, {9, 6}, {10, 1}, {11, 3}, {12, 6}, {13, 6}, {14, 6}, {15, 8}, {16, 8}, {17, 8}, {18, 6}, {19, 5}, {20, 6}, {21, 8}, {22, 8}, {23, 8}, {24, 2}, {25, 6}, {26, 6}, {27, 6}, {28, 1}, {29, 6}, {30, 14}};
int pick(Rng &r) { u64 t = 0; for (auto &m : mix) t += (u64)m.weight; u64 x = r.below(t); for (auto &m : mix) { if (x < (u64)m.weight) return m.op; x -= (u64)m.weight; } return 0; }
Plan gen(Rng &r, const Cfg &, u64) {
  Plan p; int nt = r.chance(2, 3) ? 2 : 2 + (int)r.below(MAXT - 1); int fav = r.chance(1, 2) ? pick(r) : -1;
  for (int t = 0; t < nt; t++) { int n = r.chance(2, 3) ? 1 : 1 + (int)r.below(3); for (int i = 0; i < n; i++) p.add(JOB, {t, fav >= 0 && r.chance(4, 5) ? fav : pick(r), (i64)(r.next() >> 2)}); }
  // what kind of places, how far apart
  u64 style = r.below(5); int ns = style == 0 ? 1 + (int)r.below(4) : style == 1 ? 20 + (int)r.below(60) : 3 + (int)r.below(14); u64 span = 1 + r.below(style == 1 ? 8 : 17);
  for (int i = 0; i < ns; i++) { int kind = style == 2 ? Y_SHARED : style == 3 ? (int)r.below(Y_N) : r.chance(1, 3) ? Y_SHARED : r.chance(1, 5) ? Y_HEAP : Y_CALL; u64 k = 1 + r.below(1ull << r.below(kind == Y_CALL ? span + 1 : kind == Y_SHARED ? 9 : 5)); p.add(SWITCH, {kind, (i64)k, (i64)r.below(MAXT)}); }
  return p;
}
void init(const Cfg &) { static Ctx c0; static SharedStats st0; if (!g_ctx) { c0.st = &st0; g_ctx = &c0; } cat_init(); shared_ranges(library_heap()); }
struct Job { int op; u64 seed; Bytes alone, got; bool done = false; };
Bytes eval(int op, u64 seed) { CatResult r; cat_run(op, seed, nullptr, r); Bytes b = r.out; b.insert(b.end(), r.smp.begin(), r.smp.end()); return b; }
void exec(const Plan &p, Ctx &c) {
  W.reset(); shared_forget(); std::vector<std::vector<Job>> th(MAXT); std::vector<Switch> sw;
  for (auto &s : p.steps) { if (s.op == JOB) th[(u64)s.arg(0) % MAXT].push_back({(int)((u64)s.arg(1) % (u64)cat_count()), (u64)s.arg(2)}); else sw.push_back({(int)((u64)s.arg(0) % Y_N), (u64)s.arg(1), (int)((u64)s.arg(2) % MAXT)}); }
  th.erase(std::remove_if(th.begin(), th.end(), [](const std::vector<Job> &v) { return v.empty(); }), th.end());
  if (th.empty()) return;
  u64 live = heap_live(), h = hash2(0, p.steps.size());
  // each call alone, in a process that has done nothing else
  for (auto &t : th) for (auto &j : t) { image_reset(); Sched s; s.stack_seed = j.seed; s.bodies.push_back([&j] { j.alone = eval(j.op, j.seed); }); s.run(); c.step(); h = hash2(h, j.seed); CHECK(heap_live() == live, "leak", "%s seed %llu alone kept memory", cat_ops[j.op].name, (unsigned long long)j.seed); }
  if (shared_written()) c.probe("shared memory written by a call");
  image_reset(); Sched s; s.plan = sw; s.stack_seed = h;
  for (auto &t : th) s.bodies.push_back([&t] { for (auto &j : t) { j.got = eval(j.op, j.seed); j.done = true; } });
  s.run();
  c.probe("threads", th.size()); if (th.size() > 1 && th[0][0].op == th[1][0].op) c.probe("same operation on two threads");
  for (size_t t = 0; t < th.size(); t++) for (auto &j : th[t]) { c.eval(); c.probe(cat_ops[j.op].name); c.tr(j.got); c.sh(hash2((u64)j.op, t));
    CHECK(j.done && j.got == j.alone, "threads-interfere", "%s seed %llu on thread %zu of %zu gave %s, alone it gives %s", cat_ops[j.op].name, (unsigned long long)j.seed, t, th.size(), hex(j.got).c_str(), hex(j.alone).c_str()); }
  CHECK(heap_live() == live, "leak", "memory is still held after all threads ended");
  c.tr(s.sig); c.sh(s.sig); c.state(s.sig); c.probe("calls seen", s.seen[Y_CALL]); c.probe("shared accesses seen", s.seen[Y_SHARED]);
  c.interesting = s.fired[0] + s.fired[1] + s.fired[2] + s.fired[3] > 0;
}
}
const Scenario scenario = {"C19", ops, gen, exec, init, "distinct schedules in which at least one preemption took place", 25};
