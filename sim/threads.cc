#include "threads.h"
#include <cerrno>
#include <cstdlib>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <algorithm>
const char *const yield_names[Y_N] = {"preempted at a call", "preempted at shared memory", "preempted at an allocation", "preempted at a lock or atomic"};
namespace {
struct Stop {};
enum { READY, BLOCKED, DONE };
struct Thread { pthread_t th; sem_t go; int state = READY; const void *on = nullptr; bool failed = false; Violation v; u64 spin = 0; };
struct Run { Sched *s; std::vector<Thread> t; size_t pos = 0; std::vector<Switch> q[Y_N]; size_t at[Y_N] = {}; u64 left[Y_N] = {}; bool stop = false; sem_t finished; std::map<const void *, int> owner; std::map<const void *, int> once; std::map<const void *, int> readers; };
Run *R;
thread_local int self = -1;
struct Shadow { const u8 *p; size_t n; std::vector<u8> hot; };
std::vector<Shadow> shadows;
u8 pages[1 << 16];                    // filter: pages that may hold shared memory
u64 written;

void load(int k) { R->left[k] = R->at[k] < R->q[k].size() ? std::max<u64>(1, R->q[k][R->at[k]].after) : 0; }
// hand control to thread k
void hand(int k) { if (k == self) return; sem_post(&R->t[(size_t)k].go); while (sem_wait(&R->t[(size_t)self].go) != 0) {} if (R->stop) throw Stop(); }
std::vector<int> ready() { std::vector<int> v; for (size_t i = 0; i < R->t.size(); i++) if (R->t[i].state == READY && (int)i != self) v.push_back((int)i); return v; }
void note(u64 kind, int to) { R->s->sig = hash2(R->s->sig, hash2((u64)self * 8 + kind, (u64)to * 0x10001 + R->s->seen[Y_CALL])); }
inline void yield(int kind) {
  if (self < 0 || !R) return;
  if (R->stop) throw Stop();
  Sched &s = *R->s; s.seen[kind]++;
  if (R->at[kind] >= R->q[kind].size() || --R->left[kind]) return;
  const Switch &w = R->q[kind][R->at[kind]++]; R->pos++; load(kind);
  std::vector<int> v = ready(); if (v.empty()) return;
  int to = v[(u64)w.to % v.size()]; s.fired[kind]++; g_ctx->fault(yield_names[kind]); note((u64)kind, to); hand(to);
}
// the running thread cannot go on until somebody else acts
void block(const void *on) {
  Thread &t = R->t[(size_t)self]; t.state = BLOCKED; t.on = on; R->s->contended++; g_ctx->probe("waited for a lock");
  std::vector<int> v = ready();
  if (v.empty()) { t.state = READY; throw Violation{"deadlock", "every thread waits for a lock"}; }
  int to = v[R->pos % v.size()]; note(7, to); hand(to);
}
void wake(const void *on) { for (auto &t : R->t) if (t.state == BLOCKED && t.on == on) { t.state = READY; t.on = nullptr; } }
void *body(void *a) {
  self = (int)(size_t)a; Thread &t = R->t[(size_t)self];
  while (sem_wait(&t.go) != 0) {}
  try { if (R->stop) throw Stop(); R->s->bodies[(size_t)self](); }
  catch (Stop &) {}
  catch (Violation &v) { t.failed = true; t.v = v; R->stop = true; }
  catch (AbortCalled &) { t.failed = true; t.v = Violation{"abort", "the library terminated the process"}; R->stop = true; }
  t.state = DONE;
  if (R->stop) for (auto &o : R->t) if (o.state == BLOCKED) o.state = READY;
  std::vector<int> v = ready();
  if (v.empty()) {
    for (auto &o : R->t) if (o.state == BLOCKED) { t.failed = true; t.v = Violation{"deadlock", "a thread waits for a lock that is never released"}; R->stop = true; }
    if (R->stop) { for (auto &o : R->t) if (o.state == BLOCKED) o.state = READY; v = ready(); }
  }
  if (v.empty()) sem_post(&R->finished); else { note(6, v[0]); sem_post(&R->t[(size_t)v[R->pos % v.size()]].go); }
  self = -1; return nullptr;
}
inline Shadow *find(const u8 *p) { if (!pages[(u64)p >> 12 & 0xffff]) return nullptr; size_t a = 0, b = shadows.size(); while (a < b) { size_t m = (a + b) / 2; if (shadows[m].p <= p) a = m + 1; else b = m; } if (!a) return nullptr; Shadow &s = shadows[a - 1]; return p < s.p + s.n ? &s : nullptr; }
void __attribute__((noinline)) touch(Shadow *s, const u8 *p, size_t n, bool write) {
  size_t a = (size_t)(p - s->p) >> 3, b = std::min(s->hot.size() - 1, (size_t)(p + (n ? n - 1 : 0) - s->p) >> 3); bool hot = write;
  for (size_t i = a; i <= b; i++) { if (write && !s->hot[i]) { s->hot[i] = 1; written++; } if (s->hot[i]) hot = true; }
  if (hot) yield(Y_SHARED);
}
inline void access(const void *p, size_t n, bool w) { if (!pages[(u64)p >> 12 & 0xffff]) return; Shadow *s = find((const u8 *)p); if (s) touch(s, (const u8 *)p, n, w); }
void atomic_point(const void *p, bool w) { if (self < 0 || !R) return; Shadow *s = find((const u8 *)p); if (s && w) { size_t i = (size_t)((const u8 *)p - s->p) >> 3; if (!s->hot[i]) { s->hot[i] = 1; written++; } } yield(Y_SYNC);
  // a thread spinning on an atomic lets the others run
  if (++R->t[(size_t)self].spin % 1000 == 0) { std::vector<int> v = ready(); if (!v.empty()) hand(v[(R->t[(size_t)self].spin / 1000) % v.size()]); } }
std::map<const void *, int> &once_main() { static std::map<const void *, int> m; return m; }
const size_t STACK = 1 << 20, DIRTY = 192 << 10; enum { MAXT = 8 };
u8 *stacks[MAXT];
}
void shared_ranges(const std::vector<Range> &extra) {
  std::vector<Range> v = extra;
  if (__start_libdata && __stop_libdata > __start_libdata) v.push_back({(u8 *)__start_libdata, (size_t)(__stop_libdata - __start_libdata)});
  if (__start_libbss && __stop_libbss > __start_libbss) v.push_back({(u8 *)__start_libbss, (size_t)(__stop_libbss - __start_libbss)});
  std::sort(v.begin(), v.end(), [](const Range &a, const Range &b) { return a.p < b.p; });
  shadows.clear(); memset(pages, 0, sizeof pages);
  for (auto &r : v) if (r.n) { shadows.push_back({r.p, r.n, std::vector<u8>(r.n / 8 + 2)}); for (u64 a = (u64)r.p >> 12; a <= (u64)(r.p + r.n) >> 12; a++) pages[a & 0xffff] = 1; }
}
void shared_forget() { if (!written) return; for (auto &s : shadows) std::fill(s.hot.begin(), s.hot.end(), 0); written = 0; }
u64 shared_written() { return written; }
void Sched::run() {
  Run r; r.s = this; r.t.resize(bodies.size()); R = &r; r.once = once_main(); for (auto &w : plan) r.q[w.kind].push_back(w); for (int k = 0; k < Y_N; k++) load(k); sem_init(&r.finished, 0, 0);
  for (size_t i = 0; i < bodies.size(); i++) {
    if (!stacks[i]) { stacks[i] = (u8 *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
    u64 x = hash2(stack_seed, i) | 1; u64 *q = (u64 *)(stacks[i] + STACK - DIRTY); for (size_t k = 0; k < DIRTY / 8; k++) { x = x * 6364136223846793005ull + 1442695040888963407ull; q[k] = x; }
    sem_init(&r.t[i].go, 0, 0); pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, stacks[i], STACK);
    if (pthread_create(&r.t[i].th, &a, body, (void *)i) != 0) { fprintf(stderr, "cannot create a thread\n"); _Exit(3); }
    pthread_attr_destroy(&a);
  }
  sem_post(&r.t[0].go);
  while (sem_wait(&r.finished) != 0) {}
  for (auto &t : r.t) { pthread_join(t.th, nullptr); sem_destroy(&t.go); }
  sem_destroy(&r.finished); R = nullptr;
  for (auto &t : r.t) if (t.failed) throw t.v;
  for (auto &o : r.owner) if (o.second >= 0) throw Violation{"lock-held", "a thread ended holding a lock"};
}
extern "C" {
// ---- locks
int sim_pthread_mutex_lock(pthread_mutex_t *m) {
  if (self < 0) return 0;
  yield(Y_SYNC);
  for (;;) { auto it = R->owner.find(m); if (it == R->owner.end() || it->second < 0) break; if (it->second == self) throw Violation{"deadlock", "a thread acquires a lock it holds"}; block(m); }
  R->owner[m] = self; return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t *m) { if (self < 0) return 0; yield(Y_SYNC); auto it = R->owner.find(m); if (it != R->owner.end() && it->second >= 0) return EBUSY; R->owner[m] = self; return 0; }
int sim_pthread_mutex_unlock(pthread_mutex_t *m) { if (self < 0) return 0; auto it = R->owner.find(m); if (it == R->owner.end() || it->second != self) throw Violation{"unlock-unheld", "a lock is released by a thread that does not hold it"}; it->second = -1; wake(m); yield(Y_SYNC); return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t *m) { return sim_pthread_mutex_lock((pthread_mutex_t *)m); }
int sim_pthread_spin_unlock(pthread_spinlock_t *m) { return sim_pthread_mutex_unlock((pthread_mutex_t *)m); }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *m) { if (self < 0) return 0; yield(Y_SYNC); while ((R->owner.count(m) && R->owner[m] >= 0) || R->readers[m] > 0) block(m); R->owner[m] = self; return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *m) { if (self < 0) return 0; yield(Y_SYNC); while (R->owner.count(m) && R->owner[m] >= 0) block(m); R->readers[m]++; return 0; }
int sim_pthread_rwlock_unlock(pthread_rwlock_t *m) { if (self < 0) return 0; if (R->owner.count(m) && R->owner[m] == self) R->owner[m] = -1; else R->readers[m]--; wake(m); yield(Y_SYNC); return 0; }
int sim_pthread_once(pthread_once_t *o, void (*f)(void)) {
  if (self < 0) { int &st = once_main()[o]; if (!st) { st = 2; f(); } return 0; }
  yield(Y_SYNC);
  for (;;) { int st = R->once[o]; if (st == 2) return 0; if (st == 0) break; block(o); }
  R->once[o] = 1; f(); R->once[o] = 2; wake(o); yield(Y_SYNC); return 0;
}
// ---- allocation (world.cc holds the simulated heap)
void *sim_malloc(size_t); void *sim_calloc(size_t, size_t); void *sim_realloc(void *, size_t); void sim_free(void *);
void *sched_malloc(size_t n) { yield(Y_HEAP); return sim_malloc(n); }
void *sched_calloc(size_t a, size_t b) { yield(Y_HEAP); return sim_calloc(a, b); }
void *sched_realloc(void *p, size_t n) { yield(Y_HEAP); return sim_realloc(p, n); }
void sched_free(void *p) { yield(Y_HEAP); sim_free(p); }
// ---- block operations of the library: touching shared memory, they can be interrupted half way
void *sched_memcpy(void *d, const void *s, size_t n) { access(s, n, false); access(d, n, true); size_t h = n / 2; memcpy(d, s, h); if (h) { access((const u8 *)s + h, n - h, false); access((u8 *)d + h, n - h, true); } memcpy((u8 *)d + h, (const u8 *)s + h, n - h); return d; }
void *sched_memmove(void *d, const void *s, size_t n) { access(s, n, false); access(d, n, true); memmove(d, s, n); return d; }
void *sched_memset(void *d, int c, size_t n) { access(d, n, true); size_t h = n / 2; memset(d, c, h); if (h) access((u8 *)d + h, n - h, true); memset((u8 *)d + h, c, n - h); return d; }
int sched_memcmp(const void *a, const void *b, size_t n) { access(a, n, false); access(b, n, false); return memcmp(a, b, n); }
// ---- compiler instrumentation
void __tsan_init(void) {}
void __tsan_func_entry(void *) { yield(Y_CALL); }
void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *p) { access(p, n, false); } void __tsan_write##n(void *p) { access(p, n, true); } void __tsan_unaligned_read##n(void *p) { access(p, n, false); } void __tsan_unaligned_write##n(void *p) { access(p, n, true); } void __tsan_volatile_read##n(void *p) { access(p, n, false); } void __tsan_volatile_write##n(void *p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(b) typedef u##b a##b; \
  a##b __tsan_atomic##b##_load(const volatile a##b *p, int) { atomic_point((const void *)p, false); return *p; } \
  void __tsan_atomic##b##_store(volatile a##b *p, a##b v, int) { atomic_point((const void *)p, true); *p = v; } \
  a##b __tsan_atomic##b##_exchange(volatile a##b *p, a##b v, int) { atomic_point((const void *)p, true); a##b o = *p; *p = v; return o; } \
  a##b __tsan_atomic##b##_fetch_add(volatile a##b *p, a##b v, int) { atomic_point((const void *)p, true); a##b o = *p; *p = (a##b)(o + v); return o; } \
  a##b __tsan_atomic##b##_fetch_sub(volatile a##b *p, a##b v, int) { atomic_point((const void *)p, true); a##b o = *p; *p = (a##b)(o - v); return o; } \
  a##b __tsan_atomic##b##_fetch_and(volatile a##b *p, a##b v, int) { atomic_point((const void *)p, true); a##b o = *p; *p = o & v; return o; } \
  a##b __tsan_atomic##b##_fetch_or(volatile a##b *p, a##b v, int) { atomic_point((const void *)p, true); a##b o = *p; *p = o | v; return o; } \
  a##b __tsan_atomic##b##_fetch_xor(volatile a##b *p, a##b v, int) { atomic_point((const void *)p, true); a##b o = *p; *p = o ^ v; return o; } \
  a##b __tsan_atomic##b##_fetch_nand(volatile a##b *p, a##b v, int) { atomic_point((const void *)p, true); a##b o = *p; *p = (a##b)~(o & v); return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile a##b *p, a##b *e, a##b v, int, int) { atomic_point((const void *)p, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile a##b *p, a##b *e, a##b v, int, int) { atomic_point((const void *)p, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  a##b __tsan_atomic##b##_compare_exchange_val(volatile a##b *p, a##b e, a##b v, int, int) { atomic_point((const void *)p, true); a##b o = *p; if (o == e) *p = v; return o; }
AT(8) AT(16) AT(32) AT(64)
}
