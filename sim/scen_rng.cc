// C02-C05: the random generator over process trees, threads, entropy and cpu faults.
// One source, the property is selected with -DPROP_Cxx.
#include "world.h"
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <csignal>
#include <condition_variable>
#include <functional>
#include <mutex>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
extern "C" {
#include <torsion/rand.h>
}
u64 locks_held();

enum { OP_CALL, OP_FORK, OP_EXIT, OP_ENV, OP_THREAD, OP_HW, OP_FAULT, OP_TWIN };
static const char *const ops[] = {"call", "fork", "exit", "env", "thread", "hw", "fault", "twin", nullptr};
enum { CK_BYTES, CK_WORD, CK_UNIFORM, CK_N };

enum { MAXP = 48, MAXO = 3000, MAXB = 1 << 19 };
struct Shared {
  u64 ent_pos, hw_calls;
  u32 nproc;
  struct Proc { int parent; long pid; int depth; u64 delivered; int seeded; } proc[MAXP];
  u32 nout;
  struct Out { u16 proc, thread; u8 kind, ok; u32 off, len; u64 seed_pos, seed_len; } out[MAXO];
  u32 nbytes;
  u8 bytes[MAXB];
  int viol; char cls[80], msg[800];
  u64 child_h, child_shape; int child_interesting;
};
static Shared *S;

struct Twin { u64 ent_seed; u64 mutate_pos; u64 hw_seed_add; };

// ---------------------------------------------------------------- simulated threads inside a process
struct Worker { pthread_t th; std::mutex m; std::condition_variable cv; std::function<void()> job; bool have = false, done = false, quit = false; };
static std::map<int, Worker *> *workers;
static int cur_thread, self_proc;
static void *worker_main(void *a) {
  Worker *w = (Worker *)a;
  std::unique_lock<std::mutex> l(w->m);
  while (true) {
    w->cv.wait(l, [&] { return w->have || w->quit; });
    if (w->quit) return nullptr;
    w->job();
    w->have = false; w->done = true;
    w->cv.notify_all();
  }
}
static void on_thread(int t, std::function<void()> f) {
  if (t == cur_thread) { f(); return; }
  Worker *&w = (*workers)[t];
  if (!w) { w = new Worker(); pthread_create(&w->th, nullptr, worker_main, w); }
  bool threw = false; Violation v; bool ab = false;
  int back = cur_thread;
  {
    std::unique_lock<std::mutex> l(w->m);
    w->job = [&] { try { f(); } catch (Violation &x) { threw = true; v = x; } catch (AbortCalled &) { ab = true; } };
    w->done = false; w->have = true; cur_thread = t;
    w->cv.notify_all();
    w->cv.wait(l, [&] { return w->done; });
  }
  cur_thread = back;
  if (threw) throw v;
  if (ab) throw AbortCalled();
}
static void stop_threads() {
  for (auto &k : *workers) { { std::lock_guard<std::mutex> l(k.second->m); k.second->quit = true; } k.second->cv.notify_all(); pthread_join(k.second->th, nullptr); delete k.second; }
  workers->clear();
}

// ---------------------------------------------------------------- calls
static void apply_env(int mode, i64 arg) {
  W.env = Env();
  W.faults.clear();
  switch ((u64)mode % 7) {
    case 0: break;
    case 1: W.env.getrandom = 1; W.env.random_dev = W.env.urandom_dev = 1; break;      // nothing works
    case 2: W.env.getrandom = 1; break;                                                // device path
    case 3: W.env.getrandom = 2; W.env.nofile = 1; break;                              // sandboxed, out of descriptors
    case 4: W.env.random_dev = W.env.urandom_dev = 1; break;                           // only getrandom
    case 5: W.env.seeded_at = (int)(W.now_us + (u64)arg % 5000000); break;             // early boot
    case 6: W.env.getrandom = 1; W.env.urandom_dev = 2; break;                         // fake device file
  }
}

static u64 entropy_in_call() { u64 n = 0; for (auto &d : W.log) if (d.genuine) n += d.n; return n; }

struct CallRes { int ok; Bytes out; u32 word; u64 ent; };

static CallRes do_call(int kind, i64 size, Ctx &c) {
  CallRes r; r.ok = 0; r.word = 0; r.ent = 0;
  W.begin_request();
  W.call_limit = 5000;
  size_t n = kind == CK_BYTES ? (size_t)((u64)size % 3000) : 4;
  Guard g(n, (u64)size);
  u64 before = *W.ent_pos;
  try {
    if (kind == CK_BYTES) r.ok = torsion_getrandom(g.p(), n);
    else {
      u32 *w = (u32 *)g.p();
      if (kind == CK_WORD) r.ok = torsion_random(w);
      else r.ok = torsion_uniform(w, (u32)size);
      memcpy(&r.word, w, 4);
    }
  } catch (AbortCalled &) { c.fail("aborted", "random request terminated the process"); }
  g.check("random request");
  c.eval();
  CHECK(W.fds.empty(), "descriptor-leak", "random request left a descriptor open");
  if (locks_held()) c.fail("lock-held", "random request returned with its lock held");
  r.out = g.get(n);
  r.ent = *W.ent_pos - before;
  return r;
}

static bool env_can_seed() {
  return W.env.getrandom == 0 || (W.env.random_dev == 0 && W.env.urandom_dev == 0 && !W.env.nofile);
}

static void capture_check(Ctx &c, bool deep);
static void c04_note(const CallRes &r, int kind, i64 size);

static std::map<int, std::pair<u64, u64>> seed_win;   // per thread of this process

static void record(int kind, const CallRes &r, bool faulty, Ctx &c) {
  Shared::Proc &P = S->proc[self_proc];
  // seeding bookkeeping: a successful call in which at least 32 fresh bytes arrived seeded this process
  if (S->nout < MAXO && S->nbytes + r.out.size() < MAXB) {
    Shared::Out &o = S->out[S->nout++];
    o.proc = (u16)self_proc; o.thread = (u16)cur_thread; o.kind = (u8)kind; o.ok = (u8)r.ok; o.off = S->nbytes; o.len = (u32)r.out.size();
    memcpy(S->bytes + S->nbytes, r.out.data(), r.out.size());
    S->nbytes += o.len;
    o.seed_pos = o.seed_len = 0;
    // the entropy window this output must depend on, when it was just delivered without detours
    if (r.ok && r.ent >= 32 && !W.fired_hard) { o.seed_pos = *W.ent_pos - r.ent; o.seed_len = r.ent; seed_win[cur_thread] = {o.seed_pos, o.seed_len}; }
    else if (r.ok && r.ent == 0 && seed_win.count(cur_thread)) { o.seed_pos = seed_win[cur_thread].first; o.seed_len = seed_win[cur_thread].second; }
    else seed_win.erase(cur_thread);
  }
  if (r.ok && r.ent >= 32) P.seeded = 1;
  P.delivered += r.ent;
  c.tr((u64)r.ok); c.tr(r.out);
  c.sh((u64)kind * 8 + (u64)r.ok * 2 + (r.ent > 0));
  c.state(c.shape);
}

static void oracle_call(int kind, i64 size, const CallRes &r, Ctx &c) {
  Shared::Proc &P = S->proc[self_proc];
  bool can = env_can_seed();
  bool hardfault = W.fired_hard > 0;
  c.eval(3);
  if (!r.ok) {
    for (u8 b : r.out) CHECK(b == 0, "failure-not-zeroed", "failed random request returned non-zero data %s", hex(r.out).c_str());
    CHECK(!can || hardfault, "failed-without-cause", "random request failed although operating-system entropy was available");
    c.probe("call-failed");
  } else {
    bool seeded_here = P.seeded != 0;
    if (!seeded_here) {
      // some ancestor with the same (recycled) pid?
      bool recycled = false;
      for (int a = P.parent; a >= 0; a = S->proc[a].parent) if (S->proc[a].pid == P.pid) recycled = true;
      CHECK(r.ent >= 32, recycled ? "recycled-pid" : "unseeded-output",
            "process %d (pid %ld) thread %d returned random data after receiving only %llu bytes of operating-system entropy in this process",
            self_proc, P.pid, cur_thread, (unsigned long long)r.ent);
    }
    if (kind == CK_UNIFORM) {
      u32 max = (u32)size;
      CHECK(max <= 1 ? r.word == 0 : r.word < max, "out-of-range", "bounded request below %u returned %u", max, r.word);
    }
  }
}

static decltype(library_static()) adv_regions;
// ---------------------------------------------------------------- interpreter
static size_t interpret(const Plan &p, size_t i, Ctx &c);

static void do_fork(const Plan &p, size_t i, i64 pidmode, Ctx &c) {
  if (S->nproc >= MAXP) return;
  int id = (int)S->nproc++;
  Shared::Proc &P = S->proc[id];
  memset(&P, 0, sizeof P);
  P.parent = self_proc; P.depth = S->proc[self_proc].depth + 1;
  P.pid = 1000 + id * 7;
  if (pidmode == 1) {
    int gp = S->proc[self_proc].parent;
    if (gp >= 0) { P.pid = S->proc[gp].pid; c.probe("pid-recycled"); }
  }
  c.sh(0xf0 + (u64)pidmode); c.interesting = true;
  c.fault("fork");
  if (W.env.getrandom) c.probe("fork-while-entropy-fails");
  fflush(nullptr);
  pid_t real = fork();
  if (real == 0) {
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 10; setitimer(ITIMER_PROF, &it, nullptr);
    workers = new std::map<int, Worker *>();
    self_proc = id; cur_thread = 0; W.pid = P.pid; seed_win.clear();
    c.h = 1; c.shape = 1; c.interesting = false;
    try { interpret(p, i, c); }
    catch (Violation &v) {
      if (!S->viol) { S->viol = 1; snprintf(S->cls, sizeof S->cls, "%s", v.cls.c_str()); snprintf(S->msg, sizeof S->msg, "%s", v.msg.c_str()); }
    }
    S->child_h = c.h; S->child_shape = c.shape;
    _exit(0);
  }
  int st = 0;
  while (waitpid(real, &st, 0) < 0 && errno == EINTR) {}
  if (S->viol) throw Violation{S->cls, S->msg};
  if (WIFSIGNALED(st)) c.fail("crash", "child process died with signal %d", WTERMSIG(st));
  if (WEXITSTATUS(st) == 97) c.fail("hang", "child process does not terminate");
  if (WEXITSTATUS(st) != 0) c.fail("crash", "child process exited with status %d", WEXITSTATUS(st));
  c.tr(S->child_h); c.sh(S->child_shape);
}

static size_t interpret(const Plan &p, size_t i, Ctx &c) {
  int logical_thread = cur_thread;
  for (; i < p.steps.size(); i++) {
    const Step &s = p.steps[i];
    switch (s.op) {
      case OP_EXIT: return i;
      case OP_THREAD: logical_thread = (int)((u64)s.arg(0) % 4); c.sh(0x700 + (u64)logical_thread); break;
      case OP_ENV: apply_env((int)s.arg(0), s.arg(1)); c.sh(0x800 + (u64)s.arg(0)); if (!env_can_seed()) c.fault("entropy-source-down"); break;
      case OP_FAULT: {
        Fault f; f.call = (int)((u64)s.arg(0) % K_N); f.nth = (int)((u64)s.arg(1) % 64); f.kind = (int)((u64)s.arg(2) % F_N); f.arg = s.arg(3); f.used = 0;
        W.faults.push_back(f);
        break;
      }
      case OP_HW:
        switch (s.arg(0)) {
          case 0: W.cpu_rdrand = s.arg(1) & 1; W.cpu_rdseed = (s.arg(1) >> 1) & 1; W.cpu_leaf = (s.arg(1) >> 2) & 1 ? 1 : ((s.arg(1) >> 3) & 1 ? 0 : 7);
                  if (W.cpu_leaf < 7) W.cpu_rdseed = 0;
                  if (W.cpu_leaf < 1) W.cpu_rdrand = 0;
                  break;
          case 1: W.hw_mode = (int)((u64)s.arg(1) % 6); W.hw_seed = (u64)s.arg(2); W.adv_off = (size_t)((u64)s.arg(2) % 4096) & ~3ull;
                  { std::vector<size_t> ok; for (size_t q = 0; q < adv_regions.size(); q++) if (adv_regions[q].n >= 64) ok.push_back(q);
                    if (!ok.empty()) { auto &rg = adv_regions[ok[((u64)s.arg(2) >> 21) % ok.size()]]; W.adv_mem = rg.p; W.adv_len = rg.n; } }
                  c.fault("hw-answers-controlled"); break;
          case 2: W.hw_fail_num = (u64)s.arg(1) % 101; if (W.hw_fail_num > 95) W.hw_fail_num = 95; break;
          case 3: W.hw_dead_from = S->hw_calls + (u64)s.arg(1) % 300; W.hw_dead_to = W.hw_dead_from + (u64)s.arg(2) % 200000; W.rdrand_dead = s.arg(3) & 1; if (W.rdrand_dead) c.fault("rdrand-gone"); break;
        }
        c.sh(0x900 + (u64)s.arg(0));
        break;
      case OP_FORK: {
        if (S->proc[self_proc].depth < 4) on_thread(logical_thread, [&] { do_fork(p, i + 1, s.arg(0), c); });
        // skip the child's steps
        int depth = 1; size_t j = i + 1;
        for (; j < p.steps.size() && depth; j++) { if (p.steps[j].op == OP_FORK) depth++; else if (p.steps[j].op == OP_EXIT) depth--; }
        i = j - 1;
        break;
      }
      case OP_CALL: {
        int kind = (int)((u64)s.arg(0) % CK_N);
        i64 size = s.arg(1);
        int reps = (int)((u64)s.arg(2, 1) % 700);
        if (kind == CK_BYTES && reps > 40) reps = 40;
        on_thread(logical_thread, [&] {
          for (int k = 0; k < reps; k++) {
            W.hw_calls = S->hw_calls;
            CallRes r = do_call(kind, size, c);
            S->hw_calls = W.hw_calls;
            bool faulty = W.fired > 0;
            oracle_call(kind, size, r, c);
            record(kind, r, faulty, c);
            W.faults.clear();
            c04_note(r, kind, size);
            c.step();
          }
          capture_check(c, false);
        });
        break;
      }
      case OP_TWIN:
        on_thread(logical_thread, [&] { capture_check(c, true); });
        break;
      default: break;
    }
  }
  return i;
}

static void run_once(const Plan &p, Ctx &c, const Twin &t) {
  memset(S, 0, offsetof(Shared, bytes));
  S->viol = 0; S->nbytes = 0; S->nout = 0;
  S->nproc = 1; S->proc[0].parent = -1; S->proc[0].pid = 1000; S->proc[0].depth = 0; S->proc[0].delivered = 0; S->proc[0].seeded = 0;
  W.reset();
  W.ent_pos = &S->ent_pos; W.ent_seed = t.ent_seed; W.mutate_pos = t.mutate_pos;
  auto st = library_static();
  // the adversary mirrors the largest library region that is not empty
  adv_regions = st;
  for (auto &r : st) if (r.n > W.adv_len) { W.adv_mem = r.p; W.adv_len = r.n; }
  W.pid = 1000;
  workers = new std::map<int, Worker *>();
  self_proc = 0; cur_thread = 0;
  try { interpret(p, 0, c); } catch (...) { stop_threads(); throw; }
  stop_threads();
}

// A whole simulated program runs in a process of its own, so each run starts from a pristine library.
static void run_isolated(const Plan &p, Ctx &c, const Twin &t) {
  struct R { u64 h, shape; int interesting; };
  fflush(nullptr);
  S->viol = 0;
  pid_t real = fork();
  if (real == 0) {
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 15; setitimer(ITIMER_PROF, &it, nullptr);
    try { run_once(p, c, t); }
    catch (Violation &v) { S->viol = 1; snprintf(S->cls, sizeof S->cls, "%s", v.cls.c_str()); snprintf(S->msg, sizeof S->msg, "%s", v.msg.c_str()); }
    S->child_h = c.h; S->child_shape = c.shape; S->child_interesting = c.interesting;
    _exit(0);
  }
  int st = 0;
  while (waitpid(real, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st)) c.fail("crash", "process died with signal %d", WTERMSIG(st));
  if (WEXITSTATUS(st) == 97) c.fail("hang", "process does not terminate");
  if (WEXITSTATUS(st) != 0) c.fail("crash", "process exited with status %d", WEXITSTATUS(st));
  if (S->viol) throw Violation{S->cls, S->msg};
  c.h = S->child_h; c.shape = S->child_shape; c.interesting |= S->child_interesting;
}

// ---------------------------------------------------------------- uniqueness (C02)
static void check_unique(Ctx &c) {
  struct Pos { u32 out, off; };
  std::unordered_map<u64, Pos> seen;
  std::unordered_map<u32, u32> words;
  u32 dup_words = 0; u32 dw_a = 0, dw_b = 0;
  auto report = [&](u32 a, u32 b, const char *what) {
    Shared::Out &x = S->out[a], &y = S->out[b];
    bool recycled = x.proc != y.proc && S->proc[x.proc].pid == S->proc[y.proc].pid;
    // a descendant of a process with a recycled pid inherits the shared stream position
    for (int q = y.proc; q >= 0; q = S->proc[q].parent) for (int a2 = S->proc[q].parent; a2 >= 0; a2 = S->proc[a2].parent) if (S->proc[a2].pid == S->proc[q].pid) recycled = true;
    c.fail(recycled ? "recycled-pid" : "repeated-output", "%s repeated: process %d (pid %ld) thread %d output #%u and process %d (pid %ld) thread %d output #%u",
      what, x.proc, S->proc[x.proc].pid, x.thread, a, y.proc, S->proc[y.proc].pid, y.thread, b);
  };
  // consecutive words of one process and thread form one stream
  std::map<std::pair<int, int>, std::vector<u32>> streams;
  for (u32 k = 0; k < S->nout; k++) {
    Shared::Out &o = S->out[k];
    if (!o.ok) continue;
    if (o.kind == CK_BYTES) {
      for (u32 q = 0; q + 8 <= o.len; q++) {
        u64 w; memcpy(&w, S->bytes + o.off + q, 8);
        auto it = seen.find(w);
        if (it != seen.end()) report(it->second.out, k, "8 random bytes");
        seen[w] = {k, q};
      }
    } else if (o.kind == CK_WORD) {
      u32 w; memcpy(&w, S->bytes + o.off, 4);
      auto it = words.find(w);
      if (it != words.end()) { dup_words++; dw_a = it->second; dw_b = k; }
      words[w] = k;
      auto &v = streams[{o.proc, o.thread}];
      v.push_back(k);
      if (v.size() >= 2) {
        u32 a, b; memcpy(&a, S->bytes + S->out[v[v.size() - 2]].off, 4); b = w;
        u64 pr = ((u64)a << 32) | b;
        u64 key = mix64(pr ^ 0x77);
        auto i2 = seen.find(key);
        if (i2 != seen.end()) report(i2->second.out, k, "two consecutive random words");
        seen[key] = {k, 0};
      }
    }
    c.eval();
  }
  if (dup_words >= 2) report(dw_a, dw_b, "random words");
}

// ---------------------------------------------------------------- memory capture (C04)
#if defined(PROP_C04)
struct Past { std::vector<Bytes> outs; std::vector<u32> words; std::vector<u64> sizes; std::map<u32, int> wordset; int word_hits = 0; Bytes image; };
static Past past;
static void rotl(u32 &x, int n) { x = (x << n) | (x >> (32 - n)); }
static void chacha_block(const u32 key[8], u64 ctr, u64 nonce, u32 out[16]) {
  u32 s[16] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574, key[0], key[1], key[2], key[3], key[4], key[5], key[6], key[7],
               (u32)ctr, (u32)(ctr >> 32), (u32)nonce, (u32)(nonce >> 32)};
  u32 x[16]; memcpy(x, s, 64);
#define QR(a, b, c, d) x[a] += x[b]; x[d] ^= x[a]; rotl(x[d], 16); x[c] += x[d]; x[b] ^= x[c]; rotl(x[b], 12); x[a] += x[b]; x[d] ^= x[a]; rotl(x[d], 8); x[c] += x[d]; x[b] ^= x[c]; rotl(x[b], 7);
  for (int i = 0; i < 10; i++) { QR(0, 4, 8, 12) QR(1, 5, 9, 13) QR(2, 6, 10, 14) QR(3, 7, 11, 15) QR(0, 5, 10, 15) QR(1, 6, 11, 12) QR(2, 7, 8, 13) QR(3, 4, 9, 14) }
  for (int i = 0; i < 16; i++) out[i] = x[i] + s[i];
}
static void c04_note(const CallRes &r, int kind, i64 size) {
  if (!r.ok) return;
  if (kind == CK_BYTES) { past.outs.push_back(r.out); past.sizes.push_back(r.out.size()); }
  else if (kind == CK_WORD) { past.words.push_back(r.word); past.wordset[r.word]++; }
}
static void capture_check(Ctx &c, bool deep) {
  Bytes img;
  std::vector<size_t> cuts;
  for (auto &r : library_static()) { img.insert(img.end(), r.p, r.p + r.n); while (img.size() % 8) img.push_back(0); cuts.push_back(img.size()); }
  for (auto &r : library_heap()) { img.insert(img.end(), r.p, r.p + r.n); while (img.size() % 8) img.push_back(0); cuts.push_back(img.size()); }
  size_t persistent = img.size();
  c.fault("memory-captured");
  c.eval();
  // 1. earlier output itself
  std::unordered_map<u64, int> win;
  for (size_t i = 0; i + 8 <= img.size(); i++) { u64 w; memcpy(&w, &img[i], 8); if (w) win[w] = (int)i; }
  for (size_t k = 0; k < past.outs.size(); k++) {
    const Bytes &o = past.outs[k];
    for (size_t q = 0; q + 8 <= o.size(); q++) {
      u64 w; memcpy(&w, &o[q], 8);
      auto it = win.find(w);
      if (w && it != win.end()) c.fail("output-in-memory", "bytes %zu.. of random output #%zu are still in memory at image offset %d of %zu", q, k, it->second, img.size());
    }
  }
  for (size_t k = 0; k + 1 < past.words.size(); k++) {
    u32 a[2] = {past.words[k], past.words[k + 1]}, b[2] = {past.words[k + 1], past.words[k]};
    u64 x, y; memcpy(&x, a, 8); memcpy(&y, b, 8);
    if ((x && win.count(x)) || (y && win.count(y))) c.fail("output-in-memory", "random words #%zu and #%zu are still in memory", k, k + 1);
  }
  int hits = 0;
  for (size_t i = 0; i + 4 <= img.size(); i += 4) { u32 w; memcpy(&w, &img[i], 4); if (w > 65536 && past.wordset.count(w)) { hits++; } }
  if (hits) { past.word_hits++; c.probe("single-word-hit"); }
  if (past.word_hits >= 3) c.fail("output-in-memory", "earlier random words were found in memory at %d capture points", past.word_hits);
  // 2. a key that regenerates earlier output
  std::unordered_map<u64, int> pastwin;
  for (size_t k = 0; k < past.outs.size(); k++) for (size_t q = 0; q + 8 <= past.outs[k].size(); q += 4) { u64 w; memcpy(&w, &past.outs[k][q], 8); pastwin[w] = (int)k; }
  for (size_t k = 0; k + 1 < past.words.size(); k++) { u32 b[2] = {past.words[k + 1], past.words[k]}; u64 y; memcpy(&y, b, 8); pastwin[y] = 100000 + (int)k; u32 a2[2] = {past.words[k], past.words[k + 1]}; memcpy(&y, a2, 8); pastwin[y] = 100000 + (int)k; }
  if (pastwin.empty()) { past.image = img; return; }
  u64 blocks = 0;
  for (size_t o = 0; o + 32 <= persistent; o += 4) {
    u32 key[8]; memcpy(key, &img[o], 32);
    int zeros = 0; for (int i = 0; i < 8; i++) zeros += key[i] == 0;
    if (zeros > 5) continue;
    // nonce candidates: small integers and 64-bit words stored near the key
    u64 nonces[40]; int nn = 0;
    for (u64 v = 0; v < 3; v++) nonces[nn++] = v;
    for (int d = -4; d <= 12 && nn < 36; d++) {
      i64 at = (i64)o + d * 8;
      if (d >= 0 && d < 4) continue;
      if (at < 0 || at + 8 > (i64)persistent) continue;
      u64 v; memcpy(&v, &img[at], 8);
      if (v > 1 && v < (1ull << 40)) { nonces[nn++] = v; nonces[nn++] = v - 1; nonces[nn++] = v - 2; }
      if (nn > 36) break;
    }
    u64 undo[4] = {0, 0, 0, 0}; int nu = 1;
    for (size_t q = past.sizes.size(); q-- > 0 && nu < 3;) undo[nu++] = past.sizes[q];
    for (int u = 0; u < nu; u++) for (int rd = 0; rd < (W.cpu_rdrand ? 2 : 1); rd++) {
      u32 k2[8]; memcpy(k2, key, 32); k2[0] ^= (u32)undo[u]; if (rd) k2[7] ^= W.last_rdrand;
      for (int n = 0; n < nn; n++) for (u64 ctr = 0; ctr < 8; ctr += (n < 3 ? 1 : 3)) {
        u32 ks[16]; chacha_block(k2, ctr, nonces[n], ks);
        blocks++;
        for (int w = 0; w + 1 < 16; w++) {
          u64 v; memcpy(&v, ks + w, 8);
          auto it = pastwin.find(v);
          if (it != pastwin.end()) c.fail("key-in-memory", "key material at image offset %zu regenerates earlier random output #%d", o, it->second);
        }
      }
    }
  }
  if (deep) {
    // an earlier key may also be the difference of two windows that are still in memory
    std::vector<size_t> cand;
    for (size_t o = 0; o + 32 <= persistent; o += 8) { u32 k[8]; memcpy(k, &img[o], 32); int z = 0; for (int i = 0; i < 8; i++) z += k[i] == 0; if (z <= 1) cand.push_back(o); }
    if (cand.size() > 120) cand.resize(120);
    std::vector<u64> nonces = {0, 1, 2};
    for (size_t o = 0; o + 8 <= persistent; o += 8) { u64 v; memcpy(&v, &img[o], 8); if (v > 2 && v < 4096) { nonces.push_back(v); nonces.push_back(v - 1); } if (nonces.size() > 9) break; }
    for (size_t a = 0; a < cand.size(); a++) for (size_t b = a + 1; b < cand.size(); b++) {
      u32 ka[8], kb[8]; memcpy(ka, &img[cand[a]], 32); memcpy(kb, &img[cand[b]], 32);
      for (int i = 0; i < 8; i++) ka[i] ^= kb[i];
      for (int rd = 0; rd < (W.cpu_rdrand ? 2 : 1); rd++) {
        if (rd) ka[7] ^= W.last_rdrand;
        for (u64 n : nonces) for (u64 ctr = 0; ctr < 8; ctr += 7) {
          u32 ks[16]; chacha_block(ka, ctr, n, ks); blocks++;
          for (int w = 0; w + 1 < 16; w++) { u64 v; memcpy(&v, ks + w, 8); auto it = pastwin.find(v);
            if (it != pastwin.end()) c.fail("key-in-memory", "the difference of image offsets %zu and %zu regenerates earlier random output #%d", cand[a], cand[b], it->second); }
        }
      }
    }
    c.probe("deep-captures");
  }
  // 3. a key replaced by its difference with words an attacker who captures this image also has
  if (past.image.size() == img.size()) {
    std::unordered_set<u32> known;
    for (size_t i = 0; i + 4 <= img.size(); i += 4) { u32 w; memcpy(&w, &img[i], 4); if (w > 65536) known.insert(w); }
    for (auto &w : past.wordset) if (w.first > 65536) known.insert(w.first);
    for (auto &o : past.outs) for (size_t q = 0; q + 4 <= o.size(); q += 4) { u32 w; memcpy(&w, &o[q], 4); if (w > 65536) known.insert(w); }
    std::vector<u64> nonces = {0, 1, 2};
    for (size_t o = 0; o + 8 <= persistent; o += 8) { u64 v; memcpy(&v, &past.image[o], 8); if (v > 2 && v < (1ull << 20)) { nonces.push_back(v); nonces.push_back(v - 1); } if (nonces.size() > 16) break; }
    for (size_t o = 0; o + 32 <= persistent; o += 4) {
      u32 was[8], now[8]; memcpy(was, &past.image[o], 32); memcpy(now, &img[o], 32);
      int zeros = 0, same = 0, have = 0;
      for (int i = 0; i < 8; i++) { zeros += was[i] == 0 || now[i] == 0; same += was[i] == now[i]; have += (int)known.count(was[i] ^ now[i]); }
      if (zeros > 1 || same > 0 || have < 6) continue;
      c.probe("difference-candidates");
      for (u64 n : nonces) for (u64 ctr = 0; ctr < 8; ctr++) {
        u32 ks[16]; chacha_block(was, ctr, n, ks); blocks++;
        for (int w = 0; w < 16; w++) if (ks[w] > 65536 && past.wordset.count(ks[w]))
          c.fail("key-in-memory", "%d of 8 words by which the key at image offset %zu was replaced are in memory or were handed out, and the key before it regenerates an earlier random word", have, o);
        for (int w = 0; w + 1 < 16; w++) { u64 v; memcpy(&v, ks + w, 8); auto it = pastwin.find(v);
          if (it != pastwin.end()) c.fail("key-in-memory", "%d of 8 words by which the key at image offset %zu was replaced are in memory or were handed out, and the key before it regenerates earlier random output #%d", have, o, it->second); }
      }
    }
    c.probe("difference-captures");
  }
  past.image = img;
  c.probe("keystream-candidates", blocks);
}
#else
static void c04_note(const CallRes &, int, i64) {}
static void capture_check(Ctx &, bool) {}
#endif

// ---------------------------------------------------------------- generation
static i64 pick_uniform(Rng &r) {
  switch (r.below(5)) {
    case 0: return r.below(12);
    case 1: return (i64)(1ull << r.below(32)) + r.range(-1, 1);
    case 2: return (i64)(0x80000000u + r.below(0x7fffffff));
    case 3: return (i64)(0xffffffffu - r.below(5));
    default: return (i64)r.below(0x100000000ull);
  }
}
static void add_call(Plan &p, Rng &r) {
  switch (r.below(5)) {
    case 0: case 1: p.add(OP_CALL, {CK_BYTES, (i64)(r.chance(1, 8) ? r.below(3) : r.chance(1, 5) ? r.below(1500) : 8 + r.below(90)), (i64)r.range(1, r.chance(1, 4) ? 6 : 1)}); break;
    case 2: case 3: p.add(OP_CALL, {CK_WORD, 0, (i64)(r.chance(1, 3) ? r.range(100, 260) : r.range(1, 20))}); break;
    default: p.add(OP_CALL, {CK_UNIFORM, pick_uniform(r), (i64)r.range(1, 5)}); break;
  }
}

#if defined(PROP_C02)
static const bool PID_RECYCLE = true;
#else
static const bool PID_RECYCLE = false;
#endif
#if defined(PROP_C02) || defined(PROP_C03)
static void gen_proc(Plan &p, Rng &r, int depth, int &budget, bool failures, bool threads) {
  int n = (int)r.range(1, 7);
  for (int i = 0; i < n && budget > 0; i++) {
    budget--;
    u64 k = r.below(12);
    if (k < 6) add_call(p, r);
    else if (k < 9 && depth < 4) {
      p.add(OP_FORK, {(i64)(PID_RECYCLE && depth >= 1 && r.chance(1, 40) ? 1 : 0)});
      gen_proc(p, r, depth + 1, budget, failures, threads);
      p.add(OP_EXIT, {});
      if (r.chance(2, 3)) add_call(p, r);
    } else if (k < 10 && threads) p.add(OP_THREAD, {(i64)r.below(3)});
    else if (failures) {
      if (r.chance(2, 3)) p.add(OP_ENV, {(i64)r.pick<int>({0, 1, 1, 2, 3, 4, 5, 6}), (i64)r.below(3000000)});
      else {
        p.add(OP_ENV, {(i64)r.pick<int>({2, 4}), 0});
        p.add(OP_FAULT, {(i64)r.pick<int>({K_GETRANDOM, K_READ, K_OPEN}), (i64)r.below(3), (i64)r.pick<int>({F_EINTR, F_SHORT, F_HARD, F_HARD, F_EOF}), (i64)r.below(65536)});
      }
      if (r.chance(2, 3)) add_call(p, r);
      if (r.chance(1, 2)) { p.add(OP_ENV, {0, 0}); add_call(p, r); }
    } else add_call(p, r);
  }
}
#endif

static void init(const Cfg &) {
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}

#if defined(PROP_C02)
static Plan gen(Rng &r, const Cfg &, u64) {
  Plan p; int budget = (int)r.range(3, 16);
  bool fail = r.chance(1, 3), th = r.chance(1, 2);
  if (r.chance(1, 2)) p.add(OP_HW, {0, (i64)r.below(16)});
  if (r.chance(1, 4)) p.add(OP_HW, {1, (i64)r.below(4), (i64)r.below(1 << 30)});
  gen_proc(p, r, 0, budget, fail, th);
  return p;
}
static void exec(const Plan &p, Ctx &c) {
  run_isolated(p, c, {0x1111, ~0ull, 0});
  check_unique(c);
}
const Scenario scenario = {"C02", ops, gen, exec, init, "simulated programs in which at least one process forked or a fault fired, distinct by the sequence of operations, outcomes and process/thread switches", 30};
#elif defined(PROP_C03)
static Plan gen(Rng &r, const Cfg &, u64) {
  Plan p; int budget = (int)r.range(2, 12);
  if (r.chance(1, 2)) p.add(OP_HW, {0, (i64)r.below(16)});
  if (r.chance(1, 4)) p.add(OP_HW, {2, (i64)r.below(100)});
  if (r.chance(2, 3)) p.add(OP_ENV, {(i64)r.below(7), (i64)r.below(1000000)});
  gen_proc(p, r, 0, budget, true, r.chance(1, 4));
  p.add(OP_TWIN, {(i64)r.below(1 << 20)});
  return p;
}
static void exec(const Plan &p, Ctx &c) {
  run_isolated(p, c, {0x2222, ~0ull, 0});
  // Twin execution: the same history with one delivered entropy byte changed. Everything the process that
  // received it (and nobody else's earlier output) returns afterwards must change.
  i64 pick = 0; bool want = false;
  for (auto &s : p.steps) if (s.op == OP_TWIN) { pick = s.arg(0); want = true; }
  if (!want || S->ent_pos == 0) return;
  for (u32 k = 0; k < S->nproc; k++) for (int a = S->proc[k].parent; a >= 0; a = S->proc[a].parent) if (S->proc[a].pid == S->proc[k].pid) return;
  static Shared *A;
  if (!A) A = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memcpy(A, S, sizeof(Shared));
  u64 pos = (u64)pick % A->ent_pos;
  u64 h = c.h, sh = c.shape;
  run_isolated(p, c, {0x2222, pos, 0});
  c.h = hash2(h, c.h); c.shape = sh;
  // outputs whose process was last seeded by a window containing pos must differ
  bool changed = false, relevant = false; u32 first = 0;
  for (u32 k = 0; k < A->nout && k < S->nout; k++) {
    auto &x = A->out[k]; auto &y = S->out[k];
    bool same = x.ok == y.ok && x.len == y.len && !memcmp(A->bytes + x.off, S->bytes + y.off, x.len);
    bool inseed = x.ok && x.seed_len && pos >= x.seed_pos && pos < x.seed_pos + x.seed_len;
    c.eval();
    if (inseed && x.len >= 8) {
      relevant = true;
      CHECK(!same, "output-ignores-entropy", "byte %llu of the operating-system entropy (seed of process %d at stream %llu+%llu) was changed but random output #%u stayed identical",
        (unsigned long long)pos, x.proc, (unsigned long long)x.seed_pos, (unsigned long long)x.seed_len, k);
    }
    if (!same) changed = true;
  }
  if (relevant) c.probe("twin-dependency-checked");
}
const Scenario scenario = {"C03", ops, gen, exec, init, "simulated programs in which an entropy fault fired or a process forked, distinct by the sequence of operations, outcomes and faults", 30};
#elif defined(PROP_C04)
static Plan gen(Rng &r, const Cfg &, u64) {
  Plan p; int n = (int)r.range(1, 12);
  if (r.chance(1, 2)) p.add(OP_HW, {0, (i64)r.below(16)});
  for (int i = 0; i < n; i++) {
    if (r.chance(1, 12)) p.add(OP_ENV, {(i64)r.below(3), 0});
    if (r.chance(1, 2)) p.add(OP_CALL, {CK_WORD, 0, (i64)(r.chance(1, 2) ? r.range(1, 6) : r.pick<int>({118, 119, 120, 121, 122, 60, 240}))});
    else add_call(p, r);
    if (r.chance(1, 60)) p.add(OP_TWIN, {});
  }
  return p;
}
static void exec(const Plan &p, Ctx &c) { run_isolated(p, c, {0x3333, ~0ull, 0}); }
const Scenario scenario = {"C04", ops, gen, exec, init, "simulated programs with at least one memory capture, distinct by the sequence of operations and outcomes before each capture", 60};
#elif defined(PROP_C05)
static Plan gen(Rng &r, const Cfg &, u64) {
  Plan p;
  p.add(OP_HW, {0, (i64)(r.chance(3, 4) ? r.below(4) : r.below(16))});
  auto ctl = [&] { p.add(OP_HW, {1, (i64)(r.chance(1, 3) ? 5 : r.below(6)), (i64)((r.below(1 << 10) << 20) | (r.chance(2, 3) ? r.below(96) : r.below(4096)))}); };
  ctl();
  if (r.chance(1, 2)) p.add(OP_HW, {2, (i64)(r.chance(1, 2) ? r.below(30) : r.below(101))});
  int n = (int)r.range(1, 6);
  for (int i = 0; i < n; i++) {
    if (r.chance(1, 4)) p.add(OP_HW, {3, (i64)r.below(40), (i64)(r.chance(1, 2) ? r.below(30) : r.below(200000)), (i64)r.chance(1, 6)});
    if (r.chance(1, 5)) p.add(OP_ENV, {(i64)r.pick<int>({0, 1, 3, 2}), 0});
    if (r.chance(1, 8)) { p.add(OP_FORK, {0}); add_call(p, r); p.add(OP_EXIT, {}); }
    if (r.chance(1, 6)) ctl();
    add_call(p, r);
  }
  return p;
}
static void exec(const Plan &p, Ctx &c) {
  run_isolated(p, c, {0x4444, ~0ull, 0});
  static Shared *A;
  if (!A) A = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memcpy(A, S, sizeof(Shared));
  // Twin: the same program and the same hardware behaviour with different operating-system entropy.
  u64 h = c.h, sh = c.shape;
  run_isolated(p, c, {0x5555, ~0ull, 0});
  c.h = hash2(h, c.h); c.shape = sh;
  std::unordered_map<u64, u32> seen; std::map<u32, u32> words; int dup = 0;
  for (u32 k = 0; k < A->nout; k++) { auto &x = A->out[k]; if (!x.ok) continue;
    if (x.kind == CK_BYTES) for (u32 q = 0; q + 8 <= x.len; q++) { u64 w; memcpy(&w, A->bytes + x.off + q, 8); seen[w] = k; }
    else if (x.kind == CK_WORD) { u32 w; memcpy(&w, A->bytes + x.off, 4); words[w] = k; } }
  for (u32 k = 0; k < S->nout; k++) { auto &x = S->out[k]; if (!x.ok) continue;
    c.eval();
    if (x.kind == CK_BYTES) for (u32 q = 0; q + 8 <= x.len; q++) { u64 w; memcpy(&w, S->bytes + x.off + q, 8);
      CHECK(!seen.count(w), "hardware-controls-output", "output #%u repeats output #%u of an execution with different operating-system entropy and the same hardware answers (mode %d)", k, seen[w], W.hw_mode); }
    else if (x.kind == CK_WORD) { u32 w; memcpy(&w, S->bytes + x.off, 4); if (words.count(w)) dup++; } }
  CHECK(dup < 4, "hardware-controls-output", "%d random words are the same in executions with different operating-system entropy", dup);
}
const Scenario scenario = {"C05", ops, gen, exec, init, "simulated programs with controlled or failing hardware answers, distinct by the sequence of operations and outcomes", 60};
#endif
