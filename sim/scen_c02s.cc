// C02 under preemption: threads inside requests for randomness at the same time; no output may repeat.
#include "threads.h"
#include <unordered_map>
extern "C" {
#include <torsion/rand.h>
}
void image_reset();
namespace {
enum { CALL, SWITCH };
const char *const ops[] = {"call", "switch", nullptr};
enum { MAXT = 4 };
const char *const kinds[] = {"bytes", "word", "bounded word"};
Plan gen(Rng &r, const Cfg &, u64) {
  Plan p; int nt = r.chance(2, 3) ? 2 : 2 + (int)r.below(MAXT - 1); bool words = r.chance(1, 3), bad = r.chance(1, 6); u64 big = r.chance(1, 4) ? 1 + r.below(20000) : r.chance(1, 2) ? 400 : 70;
  for (int t = 0; t < nt; t++) { int n = 1 + (int)r.below(words ? 24 : 5); for (int i = 0; i < n; i++) { int k = r.chance(words ? 4 : 1, 5) ? 1 + (int)r.below(2) : 0; p.add(CALL, {t, k, k == 0 ? (i64)(r.chance(1, 8) ? r.below(10) : r.below(big + 1)) : (i64)(u32)(r.next() >> r.below(8)), r.chance(1, 8) ? (i64)r.below(bad ? 5 : 3) : -1}); } }
  int ns = r.chance(1, 3) ? 1 + (int)r.below(3) : 2 + (int)r.below(16); u64 style = r.below(4), span = 1 + r.below(12);
  for (int i = 0; i < ns; i++) { int kind = style == 0 ? Y_SHARED : style == 1 ? Y_SYNC : r.chance(1, 2) ? Y_SHARED : r.chance(1, 4) ? Y_SYNC : Y_CALL; u64 k = 1 + r.below(1ull << r.below(kind == Y_CALL ? span : kind == Y_SHARED ? 10 : 4)); p.add(SWITCH, {kind, (i64)k, (i64)r.below(MAXT)}); }
  return p;
}
void init(const Cfg &) { static Ctx c0; static SharedStats st0; if (!g_ctx) { c0.st = &st0; g_ctx = &c0; } shared_ranges({}); }
void env(i64 m) { W.env = Env(); switch (m) { case 1: W.env.getrandom = 1; break; case 2: W.env.random_dev = W.env.urandom_dev = 1; break; case 3: W.env.getrandom = 1; W.env.random_dev = W.env.urandom_dev = 1; break; case 4: W.env.getrandom = 2; W.env.nofile = 1; break; default: break; } }
struct Call { int kind; u64 n; i64 env; int ok = 0; bool done = false; Bytes out; u32 word = 0; };
void exec(const Plan &p, Ctx &c) {
  W.reset(); shared_forget(); image_reset(); W.begin_request(); W.call_limit = 200000; static u64 ent; ent = 0; W.ent_pos = &ent; u64 h = p.steps.size(); bool bad = false; int miss = 0;
  std::vector<std::vector<Call>> th(MAXT); Sched s;
  for (auto &st : p.steps) { if (st.op == CALL) { Call k; k.kind = (int)((u64)st.arg(1) % 3); k.n = (u64)st.arg(2) % (1ull << 32); k.env = st.arg(3); if (k.kind == 0) k.n %= 40000; if (k.env >= 3) bad = true; if (k.env > 0) miss |= 1 << k.env; h = hash2(h, (u64)st.arg(2)); th[(u64)st.arg(0) % MAXT].push_back(k); } else s.plan.push_back({(int)((u64)st.arg(0) % Y_N), (u64)st.arg(1), (int)((u64)st.arg(2) % MAXT)}); }
  if (miss == 6) bad = true;        // each source disappears at some time, and the times may fall into one request
  W.ent_seed = h; s.stack_seed = h;
  for (auto &t : th) if (!t.empty()) s.bodies.push_back([&t] { for (auto &k : t) { if (k.env >= 0) env(k.env);
    if (k.kind == 0) { Guard g((size_t)k.n, k.n); k.ok = torsion_getrandom(g.p(), (size_t)k.n); g.check("random request"); k.out = g.get((size_t)k.n); }
    else k.ok = k.kind == 1 ? torsion_random(&k.word) : torsion_uniform(&k.word, (u32)k.n);
    k.done = true; } });
  if (s.bodies.empty()) return;
  s.run();
  c.step(p.steps.size()); c.probe("threads", s.bodies.size());
  CHECK(W.fds.empty(), "descriptor-leak", "a random request left a descriptor open");
  std::unordered_map<u64, std::pair<int, int>> seen; std::unordered_map<u32, std::pair<int, int>> words; int twice = 0, tn = 0; char where[120] = "";
  for (int t = 0; t < MAXT; t++) { int i = 0; tn += !th[(size_t)t].empty();
    for (auto &k : th[(size_t)t]) { c.eval(); c.probe(kinds[k.kind]); CHECK(k.done && (k.ok || bad), "request-failed", "request %d of thread %d failed while entropy was available", i, t); c.tr((u64)k.ok);
      if (!k.ok) { c.probe("failed request"); i++; continue; }
      if (k.kind == 0) { c.tr(k.out);
        for (size_t o = 0; o + 8 <= k.out.size(); o++) { u64 w; memcpy(&w, &k.out[o], 8); auto it = seen.find(w); CHECK(it == seen.end(), "repeated-output", "byte %zu of request %d of thread %d continues bytes already given to request %d of thread %d", o, i, t, it->second.second, it->second.first); }
        for (size_t o = 0; o + 8 <= k.out.size(); o += 8) { u64 w; memcpy(&w, &k.out[o], 8); seen[w] = {t, i}; } }
      else { c.tr((u64)k.word); if (k.kind == 1) { auto it = words.find(k.word); if (it != words.end()) { twice++; snprintf(where, sizeof where, "request %d of thread %d and request %d of thread %d", i, t, it->second.second, it->second.first); } words[k.word] = {t, i}; } }
      i++; } }
  // one equal pair of 32-bit words happens by chance about once in ten million runs, two do not
  CHECK(twice < 2, "repeated-output", "%d words were given twice, the last to %s", twice, where);
  c.tr(s.sig); c.sh(s.sig); c.state(s.sig); c.probe("shared accesses seen", s.seen[Y_SHARED]); if (s.contended) c.probe("contended");
  c.interesting = tn > 1 && s.fired[0] + s.fired[1] + s.fired[2] + s.fired[3] > 0;
}
}
const Scenario scenario = {"C02", ops, gen, exec, init, "distinct schedules in which at least one preemption took place", 25};
