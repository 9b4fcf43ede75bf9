// C18: operations under failing memory allocations.
#include "world.h"
#include "catalog.h"
#include <algorithm>
namespace {
enum { RUN };
const char *const ops[] = {"run", nullptr};
std::vector<int> g_alloc;
Plan gen(Rng &r, const Cfg &, u64) {
  Plan p; int n = 1 + (int)r.below(6);
  for (int i = 0; i < n; i++) {
    int op = r.chance(1, 12) ? (int)r.below((u64)cat_count()) : g_alloc[r.below(g_alloc.size())];
    if (op == 28 && !r.chance(1, 6)) op = 30;   // key generation is slow
    p.add(RUN, {op, (i64)(r.next() >> 2), (i64)r.below(6), (i64)(r.next() >> 2), (i64)(1 + r.below(3))});
  }
  return p;
}
void on_abort() { cat_dead = true; }
void arm() { g_oom.active = true; g_oom.count = g_oom.failed = 0; }
u64 disarm() { g_oom.active = false; return g_oom.failed; }
void mark(int c) { g_oom.call = c; }
std::string diff(const Bytes &a, const Bytes &b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; size_t f = i > 8 ? i - 8 : 0; char t[64]; snprintf(t, sizeof t, "%zu/%zu bytes, first difference at %zu: ", a.size(), b.size(), i); return t + hex(a.data() + std::min(f, a.size()), a.size() - std::min(f, a.size()), 24) + " against " + hex(b.data() + std::min(f, b.size()), b.size() - std::min(f, b.size()), 24); }
void init(const Cfg &) { static Ctx c0; static SharedStats st0; if (!g_ctx) { c0.st = &st0; g_ctx = &c0; } cat_init(); for (int i = 0; i < cat_count(); i++) if (cat_ops[i].allocates) g_alloc.push_back(i); }
void exec(const Plan &p, Ctx &c) {
  W.reset(); g_on_abort = on_abort; cat_dead = false; g_oom = NoMemoryPlan();
  for (auto &s : p.steps) {
    c.step(); int op = (int)((u64)s.arg(0) % (u64)cat_count()); u64 seed = (u64)s.arg(1); const char *nm = cat_ops[op].name;
    auto before = library_heap();
    // reference pass: nothing fails, allocations recorded per library call and call site
    CatResult ref; CatHooks hr; hr.mark = mark; g_oom = NoMemoryPlan(); g_oom.active = g_oom.record = true;
    try { cat_run(op, seed, &hr, ref); } catch (AbortCalled &) { g_oom = NoMemoryPlan(); c.fail("abort", "%s seed %llu: the process terminated although no allocation failed", nm, (unsigned long long)seed); }
    auto rec = g_oom.rec; g_oom = NoMemoryPlan(); c.tr(ref.out); c.tr(rec.size());
    CHECK(heap_live() == before.size(), "leak", "%s seed %llu holds %lld blocks more than before although nothing failed", nm, (unsigned long long)seed, (long long)heap_live() - (long long)before.size());
    c.eval();
    if (rec.empty()) { c.sh(op); c.probe("operation without allocation"); continue; }
    std::vector<u64> sites; for (auto &x : rec) if (std::find(sites.begin(), sites.end(), x.second) == sites.end()) sites.push_back(x.second);
    Rng r((u64)s.arg(3)); int mode = (int)((u64)s.arg(2) % 6), rounds = (int)std::max<i64>(1, std::min<i64>(4, s.arg(4)));
    for (int round = 0; round < rounds; round++) {
      // where: every call site gets the same share, or every library call does
      size_t at; if (r.chance(1, 2)) { u64 st = sites[r.below(sites.size())]; std::vector<size_t> v; for (size_t i = 0; i < rec.size(); i++) if (rec[i].second == st) v.push_back(i); at = r.chance(1, 3) ? v[0] : v[r.below(v.size())]; } else { std::vector<int> cs; for (auto &x : rec) if (cs.empty() || cs.back() != x.first) cs.push_back(x.first); int cl = cs[r.below(cs.size())]; std::vector<size_t> v; for (size_t i = 0; i < rec.size(); i++) if (rec[i].first == cl) v.push_back(i); at = v[r.chance(1, 3) ? std::min(v.size() - 1, (size_t)r.below(4)) : r.below(v.size())]; }
      int call = rec[at].first; size_t first = at; while (first && rec[first - 1].first == call) first--; size_t cnt = 0; for (auto &x : rec) cnt += x.first == call; u64 k = at - first;
      CatHooks h; h.target = call; h.arm = arm; h.disarm = disarm; g_oom = NoMemoryPlan();
      switch (mode) { case 0: case 1: g_oom.fail_at = {k}; break; case 2: g_oom.fail_from = k; break; case 3: for (u64 i = 0; i < cnt + 4; i++) if (i == k || r.chance(1, 3)) g_oom.fail_at.push_back(i); break; case 4: g_oom.fail_at = {k, k + 1 + r.below(3)}; break; default: g_oom.max_size = (size_t)1 << (3 + r.below(10)); }
      CatResult got; int how = 0; int failed_call = -1;
      try { cat_run(op, seed, &h, got); } catch (CatFailed &f) { how = 1; failed_call = f.call; } catch (AbortCalled &) { how = 2; }
      u64 failed = g_oom.failed; bool armed_abort = g_oom.active; g_oom = NoMemoryPlan(); cat_dead = false;
      char ctx[160]; snprintf(ctx, sizeof ctx, "%s seed %llu, call %d, allocation %llu of %zu (kind %d, %llu failed)", nm, (unsigned long long)seed, call, (unsigned long long)k, cnt, mode, (unsigned long long)failed);
      c.sh(hash2((u64)op * 8 + (u64)how, hash2((u64)call, k < 6 ? k : 6))); c.state(hash2(hash2((u64)op, (u64)call), hash2(k, (u64)mode * 4 + (u64)how))); c.tr(failed); c.tr((u64)how); c.eval();
      if (failed) c.interesting = true;
      if (how == 2) {
        CHECK(failed && armed_abort, "abort", "%s: the process terminated outside the failing call", ctx);
        heap_drop_new(before); c.probe("terminated at the failing allocation");
        CHECK(got.out.size() <= ref.out.size() && std::equal(got.out.begin(), got.out.end(), ref.out.begin()), "wrong-result", "%s: results before termination differ: %s", ctx, diff(got.out, ref.out).c_str());
        CHECK(heap_live() == before.size(), "bad-free", "%s: a block of an earlier operation is gone", ctx);
      } else {
        if (how == 1) { c.probe("failure reported"); c.probe(nm); (void)failed_call; CHECK(got.out.size() <= ref.out.size() && std::equal(got.out.begin(), got.out.end(), ref.out.begin()), "wrong-result", "%s: results before the failing call differ: %s", ctx, diff(got.out, ref.out).c_str()); }
        else { if (failed) c.probe("completed in spite of the failure"); CHECK(got.out == ref.out && got.smp == ref.smp, "wrong-result", "%s: reported success with a different result: %s", ctx, diff(got.out, ref.out).c_str()); }
        CHECK(heap_live() == before.size(), "leak", "%s: %lld blocks leaked", ctx, (long long)heap_live() - (long long)before.size());
      }
    }
    // memory is available again
    CatResult again; try { cat_run(op, seed, nullptr, again); } catch (AbortCalled &) { c.fail("abort", "%s seed %llu: terminated when repeated with memory available", nm, (unsigned long long)seed); }
    c.eval(); CHECK(again.out == ref.out && again.smp == ref.smp, "wrong-result", "%s seed %llu: repeated after the failure with memory available, result differs: %s", nm, (unsigned long long)seed, diff(again.out, ref.out).c_str());
    CHECK(heap_live() == before.size(), "leak", "%s seed %llu: repeat leaked", nm, (unsigned long long)seed);
  }
}
}
const Scenario scenario = {"C18", ops, gen, exec, init, "a run in which at least one allocation failed", 60};
