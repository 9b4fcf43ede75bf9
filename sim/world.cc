#include "world.h"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <fcntl.h>
#include <link.h>
#include <poll.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <pthread.h>
#include <unistd.h>

World W;
NoMemoryPlan g_oom;
static u64 g_ent_pos_local;

const char *const call_names[K_N] = {"getrandom", "open", "fstat", "poll", "read", "close", "fcntl", "sysctl", "socket", "connect", "write", "shutdown"};
const char *const fault_names[F_N] = {"EINTR", "EAGAIN", "short", "hard", "eof", "wrong-type", "spurious"};

void World::reset() {
  env = Env(); faults.clear(); fds.clear(); log.clear();
  memset(calls, 0, sizeof calls);
  total_calls = 0; call_limit = 100000; fired = fired_hard = fired_transient = 0; now_us = 0;
  ent_seed = 1; ent_pos = &g_ent_pos_local; g_ent_pos_local = 0; mutate_pos = ~0ull; pid = 1000;
  hard_getrandom = hard_device = hard_sysctl = false;
  cpu_rdrand = cpu_rdseed = 0; cpu_leaf = 7; hw_mode = 0; hw_seed = 0; hw_calls = 0; hw_fail_num = 0; hw_dead_from = ~0ull; hw_dead_to = 0; hw_fails = 0; last_rdrand = 0; rdrand_dead = false; hw_seq = 0; hw_last = 0;
  adv_mem = nullptr; adv_len = adv_off = 0;
}
void World::begin_request() {
  hw_seq = 0; hw_last = 0;
  log.clear(); memset(calls, 0, sizeof calls); total_calls = 0;
  hard_getrandom = hard_device = hard_sysctl = false; fired = fired_hard = fired_transient = 0;
}

static void kernel_enter(int k) {
  W.total_calls++;
  g_ctx->step();
  W.now_us += 1;
  if (W.total_calls > W.call_limit)
    g_ctx->fail("no-progress", "request made %llu system calls (limit %llu) without completing, last: %s",
      (unsigned long long)W.total_calls, (unsigned long long)W.call_limit, call_names[k]);
}
static Fault *fault_for(int k) {
  int nth = W.calls[k]++;
  for (auto &f : W.faults) if (f.call == k && f.nth <= nth && nth < f.nth + (f.arg >> 16 > 0 ? f.arg >> 16 : 1)) { return &f; }
  return nullptr;
}
static void fired(int k, Fault *f, bool hard) {
  char b[40]; snprintf(b, sizeof b, "%s:%s", call_names[k], fault_names[f->kind]);
  g_ctx->fault(b); g_ctx->sh(k * 100 + f->kind); f->used++; W.fired++;
  if (hard) W.fired_hard++; else W.fired_transient++;
  W.now_us += 50;
}
static int hard_errno(int k, i64 a) {
  static const int og[] = {ENOSYS, EPERM, EIO, EFAULT, EINVAL};
  static const int oo[] = {ENOENT, EMFILE, ENFILE, EACCES, ENXIO, ENOMEM, EPERM};
  static const int os[] = {EBADF, EIO, ENOMEM, EOVERFLOW};
  static const int orr[] = {EIO, EBADF, EINVAL, EISDIR};
  a &= 0xffff;
  switch (k) {
    case K_GETRANDOM: return og[a % 5];
    case K_OPEN: return oo[a % 7];
    case K_FSTAT: return os[a % 4];
    case K_POLL: { static const int o[] = {EINVAL, ENOMEM, EFAULT}; return o[a % 3]; }
    case K_READ: return orr[a % 4];
    case K_CLOSE: return EIO;
    case K_CONNECT: { static const int o[] = {ECONNREFUSED, ENOENT, EACCES, ETIMEDOUT}; return o[a % 4]; }
    case K_WRITE: { static const int o[] = {EPIPE, EIO, ECONNRESET}; return o[a % 3]; }
    case K_SOCKET: { static const int o[] = {EMFILE, ENFILE, EAFNOSUPPORT, EACCES}; return o[a % 4]; }
    default: return EIO;
  }
}

static bool seeded() { return W.now_us >= (u64)W.env.seeded_at; }
static void wait_seeded() {
  if (!seeded()) { g_ctx->simtime(W.env.seeded_at - W.now_us); W.now_us = W.env.seeded_at; g_ctx->probe("blocked-until-pool-ready"); }
}
static void deliver(void *dst, size_t n, bool genuine) {
  Delivery d; d.pos = *W.ent_pos; d.dst = (u8 *)dst; d.n = n; d.genuine = genuine; d.data.resize(n);
  for (size_t i = 0; i < n; i++) {
    u64 pos = d.pos + i;
    u64 w = mix64(hash2(W.ent_seed, pos >> 3));
    d.data[i] = (u8)(w >> (8 * (pos & 7)));
    if (!genuine) d.data[i] = (u8)(0x41 + (pos % 7));
    if (pos == W.mutate_pos) d.data[i] ^= (u8)(1 + (mix64(pos) % 255));
  }
  if (n) memcpy(dst, d.data.data(), n);
  *W.ent_pos += n;
  W.log.push_back(d);
}

static long do_getrandom(void *buf, size_t len, unsigned flags) {
  kernel_enter(K_GETRANDOM);
  Fault *f = fault_for(K_GETRANDOM);
  if (W.env.getrandom == 1) { W.hard_getrandom = true; errno = ENOSYS; g_ctx->probe("getrandom-absent"); return -1; }
  if (W.env.getrandom == 2) { W.hard_getrandom = true; errno = EPERM; g_ctx->probe("getrandom-seccomp"); return -1; }
  if (flags & ~7u) { errno = EINVAL; W.hard_getrandom = true; return -1; }
  if (f) switch (f->kind) {
    case F_EINTR: fired(K_GETRANDOM, f, false); errno = EINTR; return -1;
    case F_EAGAIN: fired(K_GETRANDOM, f, false); errno = EAGAIN; return -1;
    case F_SHORT: if (len > 1) { fired(K_GETRANDOM, f, false); len = 1 + (size_t)(f->arg & 0xffff) % (len - 1); } break;
    case F_HARD: fired(K_GETRANDOM, f, true); W.hard_getrandom = true; errno = hard_errno(K_GETRANDOM, f->arg); return -1;
    default: break;
  }
  if (!seeded() && !(flags & 4)) {
    if (flags & 1) { errno = EAGAIN; return -1; }
    wait_seeded();
  }
  deliver(buf, len, seeded());
  return (long)len;
}
static long do_sysctl(void *argp) {
  struct A { int *name; int nlen; void *oldval; size_t *oldlenp; void *newval; size_t newlen; unsigned long un[4]; };
  kernel_enter(K_SYSCTL);
  Fault *f = fault_for(K_SYSCTL);
  A *a = (A *)argp;
  if (!W.env.sysctl || a->nlen != 3 || a->name[0] != 1 || a->name[1] != 40 || a->name[2] != 6) { errno = ENOSYS; return -1; }
  if (f && f->kind == F_HARD) { fired(K_SYSCTL, f, true); W.hard_sysctl = true; errno = EIO; return -1; }
  u8 uuid[16];
  deliver(uuid, 16, true);
  // the version and variant bits of the uuid are not random
  uuid[6] = (uuid[6] & 0x0f) | 0x40; uuid[8] = (uuid[8] & 0x3f) | 0x80;
  W.log.back().data[6] = uuid[6]; W.log.back().data[8] = uuid[8]; W.log.back().fixed = {6, 8};
  size_t n = *a->oldlenp < 16 ? *a->oldlenp : 16;
  if (f && f->kind == F_SHORT) { fired(K_SYSCTL, f, true); W.hard_sysctl = true; n = (size_t)(f->arg & 0xffff) % 16; W.log.back().data.resize(n); W.log.back().n = n; }
  memcpy(a->oldval, uuid, n); *a->oldlenp = n;
  W.log.back().dst = (u8 *)a->oldval;
  g_ctx->probe("uuid-fallback");
  return 0;
}

static int do_open(const char *path, int flags) {
  kernel_enter(K_OPEN);
  Fault *f = fault_for(K_OPEN);
  int what = 0, st = 0;
  if (!strcmp(path, "/dev/random")) { what = 1; st = W.env.random_dev; }
  else if (!strcmp(path, "/dev/urandom")) { what = 2; st = W.env.urandom_dev; }
  else { errno = ENOENT; return -1; }
  if ((flags & O_CLOEXEC) && !W.env.cloexec) { errno = EINVAL; g_ctx->probe("no-cloexec"); return -1; }
  if (f) switch (f->kind) {
    case F_EINTR: fired(K_OPEN, f, false); errno = EINTR; return -1;
    case F_HARD: fired(K_OPEN, f, true); W.hard_device = true; errno = hard_errno(K_OPEN, f->arg); return -1;
    case F_TYPE: fired(K_OPEN, f, true); W.hard_device = true; st = 2; break;
    default: break;
  }
  if (W.env.nofile) { W.hard_device = true; errno = EMFILE; return -1; }
  if (st == 1) { W.hard_device = true; errno = ENOENT; return -1; }
  if (st == 3) { W.hard_device = true; errno = EACCES; return -1; }
  if (st == 2) { what += 10; W.hard_device = true; }
  int fd = 3;
  while (W.fds.count(fd)) fd++;
  World::Fd e; e.what = what; e.pos = 0; e.open = true; e.cloexec = flags & O_CLOEXEC ? 1 : 0;
  W.fds[fd] = e;
  return fd;
}
static World::Fd *fd_get(int fd, const char *who) {
  auto it = W.fds.find(fd);
  if (it == W.fds.end()) {
    g_ctx->fail("foreign-descriptor", "%s on descriptor %d which this request does not own", who, fd);
  }
  return &it->second;
}
static int do_fstat(int fd, mode_t *mode) {
  kernel_enter(K_FSTAT);
  Fault *f = fault_for(K_FSTAT);
  World::Fd *e = fd_get(fd, "fstat");
  if (f && f->kind == F_HARD) { fired(K_FSTAT, f, true); W.hard_device = true; errno = hard_errno(K_FSTAT, f->arg); return -1; }
  bool reg = e->what > 10;
  if (f && f->kind == F_TYPE) { fired(K_FSTAT, f, true); W.hard_device = true; reg = true; }
  *mode = reg ? (S_IFREG | 0644) : (S_IFCHR | 0666);
  return 0;
}
static int do_poll(struct pollfd *p, nfds_t n, i64 timeout_ms) {
  kernel_enter(K_POLL);
  Fault *f = fault_for(K_POLL);
  if (n != 1) { errno = EINVAL; return -1; }
  World::Fd *e = fd_get(p->fd, "poll");
  if (f) switch (f->kind) {
    case F_EINTR: fired(K_POLL, f, false); errno = EINTR; return -1;
    case F_EAGAIN: fired(K_POLL, f, false); errno = EAGAIN; return -1;
    case F_HARD: fired(K_POLL, f, true); W.hard_device = true; errno = hard_errno(K_POLL, f->arg); return -1;
    case F_SPURIOUS: fired(K_POLL, f, true); W.hard_device = true; p->revents = 0; return 0;
    default: break;
  }
  if (e->what == 1 && !seeded()) {
    if (timeout_ms < 0) wait_seeded();
    else { W.now_us += timeout_ms * 1000; if (!seeded()) { p->revents = 0; return 0; } }
  }
  p->revents = p->events & POLLIN;
  return p->revents ? 1 : 0;
}
static ssize_t do_read(int fd, void *buf, size_t len) {
  kernel_enter(K_READ);
  Fault *f = fault_for(K_READ);
  World::Fd *e = fd_get(fd, "read");
  if (f) switch (f->kind) {
    case F_EINTR: fired(K_READ, f, false); errno = EINTR; return -1;
    case F_EAGAIN: fired(K_READ, f, false); errno = EAGAIN; return -1;
    case F_SHORT: if (len > 1) { fired(K_READ, f, false); len = 1 + (size_t)(f->arg & 0xffff) % (len - 1); } break;
    case F_HARD: fired(K_READ, f, true); W.hard_device = true; errno = hard_errno(K_READ, f->arg); return -1;
    case F_EOF: fired(K_READ, f, true); W.hard_device = true; return 0;
    default: break;
  }
  if (e->what == 20) {  // entropy daemon socket
    if (e->rx.empty()) { return 0; }
    size_t n = len < e->rx.size() ? len : e->rx.size();
    memcpy(buf, e->rx.data(), n);
    for (size_t i = 0; i < n; i++) {  // protocol bytes are not entropy
      Delivery d; d.pos = 0; d.dst = (u8 *)buf + i; d.n = 1; d.genuine = e->rxg[i] != 0; d.data.assign(1, e->rx[i]); W.log.push_back(d);
    }
    e->rx.erase(e->rx.begin(), e->rx.begin() + n);
    e->rxg.erase(e->rxg.begin(), e->rxg.begin() + n);
    return (ssize_t)n;
  }
  // regular files in place of the devices, and urandom before the pool is ready, give predictable bytes
  bool genuine = e->what < 10 && seeded();
  if (e->what == 1) { wait_seeded(); genuine = true; }
  deliver(buf, len, genuine);
  return (ssize_t)len;
}
static int do_close(int fd) {
  kernel_enter(K_CLOSE);
  Fault *f = fault_for(K_CLOSE);
  fd_get(fd, "close");
  W.fds.erase(fd);
  // Linux releases the descriptor even when close reports an interruption
  if (f && f->kind == F_EINTR) { fired(K_CLOSE, f, false); errno = EINTR; return -1; }
  if (f && f->kind == F_HARD) { fired(K_CLOSE, f, false); errno = EIO; return -1; }
  return 0;
}

// ---------------------------------------------------------------- cpu
static u64 hw_answer(size_t size) {
  u64 n = W.hw_calls;
  switch (W.hw_mode) {
    default:
    case 0: return mix64(hash2(W.hw_seed, n));
    case 1: return 0;
    case 2: return ~0ull;
    case 3: return W.hw_seed;                    // stuck at a constant
    case 4: {                                    // replays the entropy delivered last, word by word (cancels under xor)
      u64 v = 0; size_t total = 0;
      for (auto &d : W.log) total += d.n;
      if (!total) return 0;
      size_t off = (n * size) % total;
      for (size_t k = 0; k < size; k++) {
        size_t o = (off + k) % total, q = 0;
        for (auto &d : W.log) { if (o < q + d.n) { v |= (u64)d.data[o - q] << (8 * k); break; } q += d.n; }
      }
      return v;
    }
    case 5: {                                    // mirrors library memory from an offset, word by word
      if (W.adv_len < 8) return 0;
      u64 v = 0; size_t o = (W.adv_off + (size_t)W.hw_seq * (W.hw_seed & (1 << 20) ? size : 4)) % (W.adv_len - 8);
      memcpy(&v, W.adv_mem + o, size > 8 ? 8 : size);
      return v;
    }
  }
}
static int hw_step(void *z, size_t size, const char *what, int insn) {
  g_ctx->step();
  if (insn != W.hw_last) { W.hw_last = insn; W.hw_seq = 0; }
  u64 n = W.hw_calls++;
  bool dead = n >= W.hw_dead_from && n < W.hw_dead_to;
  bool failn = W.hw_fail_num && (mix64(hash2(W.hw_seed ^ 77, n)) % 100) < W.hw_fail_num;
  if (++W.total_calls > 4000000) g_ctx->fail("no-progress", "hardware random polling did not terminate (%s)", what);
  if (dead || failn || (insn == 1 && W.rdrand_dead)) {
    W.hw_fails++;
    g_ctx->fault(what);
    memset(z, 0, size);
    return 0;
  }
  u64 v = hw_answer(size);
  memcpy(z, &v, size < 8 ? size : 8);
  W.last_rdrand = (u32)v;
  W.hw_seq++;
  return 1;
}
extern "C" {
void torsion_sim_cpuid(uint32_t *a, uint32_t *b, uint32_t *c, uint32_t *d, uint32_t leaf, uint32_t) {
  *a = *b = *c = *d = 0;
  if (leaf == 0) *a = (u32)W.cpu_leaf;
  else if (leaf > (u32)W.cpu_leaf) { *a = *b = *c = *d = 0xdeadbeef; *b |= 1u << 18; *c |= 1u << 30; }  // garbage for unsupported leaves
  else if (leaf == 1) { *c = W.cpu_rdrand ? 1u << 30 : 0; *c |= 0x00982203; *d = 0x178bfbff; }
  else if (leaf == 7) { *b = (W.cpu_rdseed ? 1u << 18 : 0) | 0x009c07ab; }
}
int torsion_sim_rdrand(void *z, size_t size) { return hw_step(z, size, "rdrand:fail", 1); }
int torsion_sim_rdseed(void *z, size_t size) { return hw_step(z, size, "rdseed:fail", 2); }

// ---------------------------------------------------------------- imported symbols
long sim_syscall(long nr, ...) {
  va_list ap; va_start(ap, nr);
  long a0 = va_arg(ap, long), a1 = va_arg(ap, long), a2 = va_arg(ap, long), a3 = va_arg(ap, long);
  va_end(ap);
  switch (nr) {
#ifdef __NR_getrandom
    case __NR_getrandom: return do_getrandom((void *)a0, (size_t)a1, (unsigned)a2);
#endif
#ifdef __NR__sysctl
    case __NR__sysctl: return do_sysctl((void *)a0);
#endif
    case __NR_read: return do_read((int)a0, (void *)a1, (size_t)a2);
    case __NR_open: return do_open((const char *)a0, (int)a1);
    case __NR_openat: return do_open((const char *)a1, (int)a2);
    case __NR_close: return do_close((int)a0);
    case __NR_getpid: return W.pid;
    case __NR_gettid: return W.pid;
    case __NR_poll: return do_poll((struct pollfd *)a0, (nfds_t)a1, a2);
  }
  (void)a3;
  g_ctx->probe("unknown-syscall");
  errno = ENOSYS;
  return -1;
}
ssize_t sim_getrandom(void *b, size_t n, unsigned f) { return do_getrandom(b, n, f); }
int sim_getentropy(void *b, size_t n) {
  if (n > 256) { errno = EIO; return -1; }
  size_t o = 0;
  while (o < n) { long r = do_getrandom((u8 *)b + o, n - o, 0); if (r < 0) { if (errno == EINTR) continue; return -1; } o += (size_t)r; }
  return 0;
}
int sim_open(const char *p, int fl, ...) { return do_open(p, fl); }
int sim_openat(int, const char *p, int fl, ...) { return do_open(p, fl); }
int sim_fstat(int fd, struct stat *st) { mode_t m; int r = do_fstat(fd, &m); if (r == 0) { memset(st, 0, sizeof *st); st->st_mode = m; st->st_rdev = 0x109; } return r; }
int sim___fxstat(int, int fd, struct stat *st) { return sim_fstat(fd, st); }
int sim_poll(struct pollfd *p, nfds_t n, int t) { return do_poll(p, n, t); }
int sim___poll_chk(struct pollfd *p, nfds_t n, int t, size_t) { return do_poll(p, n, t); }
int sim_ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *) { return do_poll(p, n, t ? t->tv_sec * 1000 + t->tv_nsec / 1000000 : -1); }
int sim_select(int nfds, fd_set *r, fd_set *, fd_set *, struct timeval *tv) {
  for (int fd = 0; r && fd < nfds; fd++) if (FD_ISSET(fd, r)) {
    struct pollfd p; p.fd = fd; p.events = POLLIN; p.revents = 0;
    int x = do_poll(&p, 1, tv ? tv->tv_sec * 1000 + tv->tv_usec / 1000 : -1);
    if (x == 0) FD_CLR(fd, r);
    return x;
  }
  return 0;
}
ssize_t sim_read(int fd, void *b, size_t n) { return do_read(fd, b, n); }
ssize_t sim___read_chk(int fd, void *b, size_t n, size_t) { return do_read(fd, b, n); }
int sim_close(int fd) { return do_close(fd); }
int sim_fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); int arg = va_arg(ap, int); va_end(ap);
  kernel_enter(K_FCNTL);
  Fault *f = fault_for(K_FCNTL);
  World::Fd *e = fd_get(fd, "fcntl");
  if (f && f->kind == F_HARD) { fired(K_FCNTL, f, false); errno = EBADF; return -1; }
  if (cmd == F_GETFD) return e->cloexec ? FD_CLOEXEC : 0;
  if (cmd == F_SETFD) { e->cloexec = (arg & FD_CLOEXEC) != 0; return 0; }
  return 0;
}
int sim_open64(const char *p, int fl, ...) { return do_open(p, fl); }
int sim_openat64(int, const char *p, int fl, ...) { return do_open(p, fl); }
int sim_fstat64(int fd, struct stat *st) { return sim_fstat(fd, st); }
int sim___fxstat64(int, int fd, struct stat *st) { return sim_fstat(fd, st); }
int sim_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); int arg = va_arg(ap, int); va_end(ap); return sim_fcntl(fd, cmd, arg); }
int sim_ioctl(int, unsigned long, ...) { errno = ENOTTY; return -1; }
pid_t sim_getpid(void) { return (pid_t)W.pid; }
pid_t sim_getppid(void) { return (pid_t)1; }
pid_t sim_gettid(void) { return (pid_t)W.pid; }
time_t sim_time(time_t *t) { time_t v = (time_t)(1600000000 + W.now_us / 1000000); if (t) *t = v; return v; }
int sim_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = (time_t)(1600000000 + W.now_us / 1000000); tv->tv_usec = (suseconds_t)(W.now_us % 1000000); return 0; }
int sim_clock_gettime(clockid_t, struct timespec *t) { t->tv_sec = (time_t)(1600000000 + W.now_us / 1000000); t->tv_nsec = (long)(W.now_us % 1000000) * 1000; return 0; }
clock_t sim_clock(void) { return (clock_t)W.now_us; }
int sim_nanosleep(const struct timespec *t, struct timespec *) { W.now_us += (u64)t->tv_sec * 1000000 + (u64)t->tv_nsec / 1000; return 0; }
int sim_usleep(unsigned us) { W.now_us += us; return 0; }
unsigned sim_sleep(unsigned s) { W.now_us += (u64)s * 1000000; return 0; }
unsigned long sim_getauxval(unsigned long) { return 0; }

// entropy gathering daemon over a local socket
int sim_socket(int, int type, int) {
  kernel_enter(K_SOCKET);
  Fault *f = fault_for(K_SOCKET);
  if ((type & SOCK_CLOEXEC) && !W.env.cloexec) { errno = EINVAL; return -1; }
  if (f && f->kind == F_HARD) { fired(K_SOCKET, f, true); W.hard_device = true; errno = hard_errno(K_SOCKET, f->arg); return -1; }
  int fd = 3;
  while (W.fds.count(fd)) fd++;
  World::Fd e; e.what = 20; e.pos = 0; e.open = true; e.cloexec = 0;
  W.fds[fd] = e;
  return fd;
}
int sim_connect(int fd, const struct sockaddr *, socklen_t) {
  kernel_enter(K_CONNECT);
  Fault *f = fault_for(K_CONNECT);
  World::Fd *e = fd_get(fd, "connect");
  if (W.env.egd) { W.hard_device = true; errno = ENOENT; return -1; }
  if (f) switch (f->kind) {
    case F_EINTR: fired(K_CONNECT, f, false); errno = EINTR; return -1;
    case F_HARD: fired(K_CONNECT, f, true); W.hard_device = true; errno = hard_errno(K_CONNECT, f->arg); return -1;
    default: break;
  }
  if (e->pos) { errno = EISCONN; return -1; }
  e->pos = 1;
  return 0;
}
ssize_t sim_write(int fd, const void *b, size_t n) {
  kernel_enter(K_WRITE);
  Fault *f = fault_for(K_WRITE);
  World::Fd *e = fd_get(fd, "write");
  if (f) switch (f->kind) {
    case F_EINTR: fired(K_WRITE, f, false); errno = EINTR; return -1;
    case F_EAGAIN: fired(K_WRITE, f, false); errno = EAGAIN; return -1;
    case F_SHORT: if (n > 1) { fired(K_WRITE, f, true); W.hard_device = true; n = 1 + (size_t)(f->arg & 0xffff) % (n - 1); } break;
    case F_HARD: fired(K_WRITE, f, true); W.hard_device = true; errno = hard_errno(K_WRITE, f->arg); return -1;
    default: break;
  }
  const u8 *p = (const u8 *)b;
  e->tx.insert(e->tx.end(), p, p + n);
  while (e->tx.size() >= 2 && (e->tx[0] == 0x01 || e->tx[0] == 0x02)) {
    size_t want = e->tx[1];
    e->tx.erase(e->tx.begin(), e->tx.begin() + 2);
    size_t give = want;
    if (f && f->kind == F_SPURIOUS) { give = want ? (size_t)(f->arg & 0xffff) % want : 0; fired(K_WRITE, f, give == 0); if (!give) W.hard_device = true; }
    Bytes tmp(give);
    u64 keep = W.log.size();
    if (give) deliver(tmp.data(), give, true);
    W.log.resize(keep);
    e->rx.push_back((u8)give);
    e->rx.insert(e->rx.end(), tmp.begin(), tmp.end());
    e->rxg.push_back(0);
    e->rxg.insert(e->rxg.end(), give, 1);
  }
  return (ssize_t)n;
}
ssize_t sim_send(int fd, const void *b, size_t n, int) { return sim_write(fd, b, n); }
ssize_t sim_recv(int fd, void *b, size_t n, int) { return do_read(fd, b, n); }
int sim_shutdown(int fd, int) { kernel_enter(K_SHUTDOWN); fd_get(fd, "shutdown"); return 0; }
}

// ---------------------------------------------------------------- allocator
struct Blk { size_t n; };
static std::map<u8 *, size_t> *g_heap;
static std::map<u8 *, size_t> &heap() { if (!g_heap) g_heap = new std::map<u8 *, size_t>(); return *g_heap; }
u64 heap_live() { return heap().size(); }
std::vector<Range> library_heap() { std::vector<Range> v; for (auto &k : heap()) v.push_back({k.first, k.second}); return v; }
void (*g_on_release)(const u8 *, size_t);
void (*g_on_abort)();
void heap_drop_new(const std::vector<Range> &before) {
  std::map<u8 *, size_t> keep; for (auto &r : before) keep[r.p] = r.n;
  auto &h = heap();
  for (auto it = h.begin(); it != h.end();) { if (keep.count(it->first)) ++it; else { free(it->first); it = h.erase(it); } }
}
static bool oom(size_t size, void *site) {
  if (!g_oom.active) return false;
  if (g_oom.record) g_oom.rec.push_back({g_oom.call, (u64)site});
  u64 n = g_oom.count++;
  bool f = n >= g_oom.fail_from || size > g_oom.max_size;
  for (auto x : g_oom.fail_at) if (x == n) f = true;
  if (f) { g_oom.failed++; g_ctx->fault("alloc:ENOMEM"); errno = ENOMEM; }
  return f;
}
u64 g_alloc_seq;
static void junk(void *p, size_t n) {
  // fresh heap memory holds seed-derived junk so that reads of uninitialised memory show up
  u64 s = mix64(++g_alloc_seq);
  if (n > 4096) n = 4096;
  u8 *b = (u8 *)p;
  for (size_t i = 0; i < n; i++) b[i] = (u8)(s >> ((i & 7) * 8)) ^ (u8)i;
}
extern "C" {
void *sim_malloc(size_t n) {
  if (oom(n, __builtin_return_address(0))) return nullptr;
  void *p = malloc(n ? n : 1);
  if (!p) return p;
  junk(p, n); heap()[(u8 *)p] = n;
  return p;
}
void *sim_calloc(size_t a, size_t b) {
  if (oom(a * b, __builtin_return_address(0))) return nullptr;
  if (b && a > (size_t)-1 / b) return nullptr;
  void *p = calloc(a * b ? a * b : 1, 1);
  if (p) heap()[(u8 *)p] = a * b;
  return p;
}
void sim_free(void *p) {
  if (!p) return;
  auto it = heap().find((u8 *)p);
  if (it == heap().end()) g_ctx->fail("bad-free", "library freed a block it does not hold");
  if (g_on_release) g_on_release(it->first, it->second);
  heap().erase(it);
  free(p);
}
void *sim_realloc(void *p, size_t n) {
  if (!p) return sim_malloc(n);
  if (oom(n, __builtin_return_address(0))) return nullptr;
  auto it = heap().find((u8 *)p);
  if (it == heap().end()) g_ctx->fail("bad-free", "library reallocated a block it does not hold");
  size_t old = it->second;
  if (g_on_release) g_on_release(it->first, old);
  void *q = malloc(n ? n : 1);          // always moves: stale pointers must not survive
  if (!q) return q;
  junk(q, n);
  memcpy(q, p, old < n ? old : n);
  heap().erase(it);
  memset(p, 0xdd, old);
  free(p);
  heap()[(u8 *)q] = n;
  return q;
}
void sim_abort(void) { if (g_on_abort) g_on_abort(); throw AbortCalled(); }
void sim___assert_fail(const char *e, const char *f, unsigned l, const char *) { g_ctx->fail("assertion", "assertion failed: %s at %s:%u", e, f, l); }
}

// ---------------------------------------------------------------- memory image
static u8 *g_tls_p; static size_t g_tls_n;
static int phdr_cb(struct dl_phdr_info *i, size_t, void *) {
  if (i->dlpi_name && i->dlpi_name[0]) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) { g_tls_p = (u8 *)i->dlpi_tls_data; g_tls_n = i->dlpi_phdr[k].p_memsz; }
  return 1;
}
std::vector<Range> library_static() {
  std::vector<Range> v;
  if (__start_libdata && __stop_libdata > __start_libdata) v.push_back({(u8 *)__start_libdata, (size_t)(__stop_libdata - __start_libdata)});
  if (__start_libbss && __stop_libbss > __start_libbss) v.push_back({(u8 *)__start_libbss, (size_t)(__stop_libbss - __start_libbss)});
  g_tls_p = nullptr; g_tls_n = 0;
  dl_iterate_phdr(phdr_cb, nullptr);
  if (g_tls_p && g_tls_n) v.push_back({g_tls_p, g_tls_n});
  return v;
}

// ---------------------------------------------------------------- locks
// Default: calls are atomic steps, so a lock is never contended; a second
// acquisition without release would block for ever.
struct SimLock { int depth; };
static std::map<void *, int> &locks() { static std::map<void *, int> m; return m; }
extern "C" {
__attribute__((weak)) int sim_pthread_mutex_lock(pthread_mutex_t *m) { if (locks()[m]) g_ctx->fail("deadlock", "lock acquired twice without release"); locks()[m] = 1; return 0; }
__attribute__((weak)) int sim_pthread_mutex_trylock(pthread_mutex_t *m) { if (locks()[m]) return EBUSY; locks()[m] = 1; return 0; }
__attribute__((weak)) int sim_pthread_mutex_unlock(pthread_mutex_t *m) { if (!locks()[m]) g_ctx->fail("unlock-unheld", "lock released without being held"); locks()[m] = 0; return 0; }
__attribute__((weak)) int sim_pthread_spin_lock(pthread_spinlock_t *m) { return sim_pthread_mutex_lock((pthread_mutex_t *)m); }
__attribute__((weak)) int sim_pthread_spin_unlock(pthread_spinlock_t *m) { return sim_pthread_mutex_unlock((pthread_mutex_t *)m); }
__attribute__((weak)) int sim_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return sim_pthread_mutex_lock((pthread_mutex_t *)m); }
__attribute__((weak)) int sim_pthread_rwlock_rdlock(pthread_rwlock_t *m) { return sim_pthread_mutex_lock((pthread_mutex_t *)m); }
__attribute__((weak)) int sim_pthread_rwlock_unlock(pthread_rwlock_t *m) { return sim_pthread_mutex_unlock((pthread_mutex_t *)m); }
__attribute__((weak)) int sim_pthread_once(pthread_once_t *o, void (*f)(void)) { return pthread_once(o, f); }
}
u64 locks_held() { u64 n = 0; for (auto &k : locks()) n += (u64)(k.second != 0); return n; }
