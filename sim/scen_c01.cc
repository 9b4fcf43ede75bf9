// C01: operating-system entropy under system-call faults.
#include "world.h"
#include <cerrno>
#include <algorithm>
extern "C" {
#include <torsion/rand.h>
}

enum { OP_ENV, OP_FAULT, OP_REQ, OP_FOREIGN };
static const char *const ops[] = {"env", "fault", "request", "openfd", nullptr};

static size_t pick_size(Rng &r) {
  switch (r.below(8)) {
    case 0: return r.below(4);
    case 1: return 1 + r.below(40);
    case 2: return r.pick<size_t>({13, 14, 15, 16, 28, 29, 32, 64, 255, 256, 257, 511, 512, 513, 768, 1024});
    case 3: return 200 + r.below(200);
    case 4: return 500 + r.below(600);
    case 5: return r.below(5000);
    default: return 1 + r.below(600);
  }
}

static Plan gen(Rng &r, const Cfg &, u64) {
  Plan p;
  int reqs = (int)r.range(1, 5);
  bool faulty = r.chance(4, 5);
  u32 kinds = (u32)r.next() | (u32)r.next();
  for (int q = 0; q < reqs; q++) {
    if (r.chance(q == 0 ? 3 : 1, 4)) p.add(OP_ENV, {0, (i64)r.pick<int>({0, 1, 1, 2})});
    if (r.chance(1, 6)) p.add(OP_ENV, {1, (i64)r.below(4)});
    if (r.chance(1, 6)) p.add(OP_ENV, {2, (i64)r.below(4)});
    if (r.chance(1, 4)) p.add(OP_ENV, {3, (i64)r.below(2)});
    if (r.chance(1, 2)) p.add(OP_ENV, {4, (i64)r.below(2)});
    if (r.chance(1, 3)) p.add(OP_ENV, {5, (i64)r.below(2000000)});
    if (r.chance(1, 12)) p.add(OP_ENV, {6, (i64)r.below(2)});
    if (r.chance(1, 12)) p.add(OP_ENV, {7, (i64)r.below(2)});
    if (r.chance(1, 4)) p.add(OP_FOREIGN, {(i64)r.below(4)});
    size_t size = pick_size(r);
    if (faulty) {
      int n = (int)r.below(r.chance(1, 4) ? 14 : 5);
      for (int i = 0; i < n; i++) {
        int call = (int)r.below(K_N);
        if (r.chance(1, 2)) call = r.pick<int>({K_GETRANDOM, K_READ, K_OPEN, K_POLL});
        int kind = (int)r.below(F_N);
        if (!((kinds >> (kind * 3 + call % 3)) & 1)) kind = F_EINTR;
        int nth = (int)(r.chance(2, 3) ? r.below(3) : r.below(24));
        i64 burst = r.chance(1, 6) ? r.range(2, 60) : 1;
        p.add(OP_FAULT, {call, nth, kind, (burst << 16) | (i64)r.below(65536)});
      }
    }
    p.add(OP_REQ, {(i64)size, (i64)r.below(16), (i64)r.below(140), (i64)r.below(1 << 20)});
  }
  return p;
}

// Every byte of a successful buffer must come from a genuine delivery of this request.
static void check_attribution(const u8 *buf, size_t n, Ctx &c) {
  std::vector<char> ok(n, 0);
  // direct deliveries: the last delivery covering an address decides
  for (auto &d : W.log) {
    for (size_t i = 0; i < d.n; i++) {
      const u8 *a = d.dst + i;
      if (a >= buf && a < buf + n) ok[a - buf] = (d.genuine && *a == d.data[i] && std::find(d.fixed.begin(), d.fixed.end(), i) == d.fixed.end()) ? 1 : 2;
    }
  }
  // deliveries into private buffers, copied afterwards: match unused delivered bytes by value
  struct Tmp { const Bytes *d; std::vector<char> used; };
  std::vector<Tmp> tmp;
  for (auto &d : W.log) if (d.genuine && (d.dst + d.n <= buf || d.dst >= buf + n)) { tmp.push_back({&d.data, std::vector<char>(d.n, 0)}); for (size_t o : d.fixed) if (o < d.n) tmp.back().used[o] = 1; }
  size_t i = 0;
  while (i < n) {
    if (ok[i] == 1) { i++; continue; }
    size_t gap = 1;
    while (i + gap < n && ok[i + gap] != 1) gap++;
    size_t at = i;
    while (at < i + gap) {
      size_t best = 0; Tmp *bt = nullptr; size_t bo = 0;
      for (auto &t : tmp) for (size_t o = 0; o < t.d->size(); o++) {
        size_t l = 0;
        while (at + l < i + gap && o + l < t.d->size() && !t.used[o + l] && (*t.d)[o + l] == buf[at + l]) l++;
        if (l > best) { best = l; bt = &t; bo = o; }
      }
      if (!best) c.fail("undelivered-byte", "request of %zu bytes succeeded but byte %zu (0x%02x) was not delivered by the random source in this request", n, at, buf[at]);
      for (size_t k = 0; k < best; k++) bt->used[bo + k] = 1;
      at += best;
    }
    i += gap;
  }
  c.eval(n);
}

static void exec(const Plan &p, Ctx &c) {
  W.reset();
  W.env.getrandom = 0;
  W.ent_seed = 0xabcdef;
  for (auto &s : p.steps) {
    switch (s.op) {
      case OP_ENV: {
        int v = (int)s.arg(1);
        switch (s.arg(0)) {
          case 0: W.env.getrandom = v % 3; break;
          case 1: W.env.random_dev = v % 4; break;
          case 2: W.env.urandom_dev = v % 4; break;
          case 3: W.env.cloexec = v % 2; break;
          case 4: W.env.sysctl = v % 2; break;
          case 5: W.env.seeded_at = v; if (W.now_us < (u64)v) W.now_us = 0; break;
          case 6: W.env.nofile = v % 2; break;
          case 7: W.env.egd = v % 2; break;
        }
        break;
      }
      case OP_FOREIGN: {  // descriptors the application itself holds open
        int fd = 3 + (int)(s.arg(0) & 3);
        if (!W.fds.count(fd)) { World::Fd e; e.what = 99; e.pos = 0; e.open = true; e.cloexec = 0; W.fds[fd] = e; }
        break;
      }
      case OP_FAULT: {
        Fault f; f.call = (int)((u64)s.arg(0) % K_N); f.nth = (int)((u64)s.arg(1) % 4096); f.kind = (int)((u64)s.arg(2) % F_N); f.arg = s.arg(3); f.used = 0;
        W.faults.push_back(f);
        break;
      }
      case OP_REQ: {
        size_t n = (size_t)((u64)s.arg(0) % 100000);
        Guard g(n, (u64)s.arg(3), (size_t)(s.arg(1) & 15));
        W.ent_seed = 0xabcdef + (u64)s.arg(3);
        W.begin_request();
        u64 burst = 0;
        for (auto &f : W.faults) burst += (u64)(f.arg >> 16 > 0 ? f.arg >> 16 : 1);
        W.call_limit = 100 + 4 * burst + n;
        std::map<int, int> before;
        for (auto &k : W.fds) before[k.first] = k.second.what;
        int e0 = (int)(s.arg(2) % 134);
        errno = e0;
        int ret = 0;
        u64 t0 = W.now_us;
        try { ret = torsion_getentropy(g.p(), n); }
        catch (AbortCalled &) { c.fail("aborted", "entropy request of %zu bytes terminated the process", n); }
        int e1 = errno;
        c.simtime(W.now_us - t0);
        c.sh((u64)ret * 1000003 + W.total_calls);
        c.state(hash2(c.shape, W.total_calls));
        c.log("request %zu -> %d, %llu system calls, %llu faults fired", n, ret, (unsigned long long)W.total_calls, (unsigned long long)W.fired);
        c.tr((u64)ret); c.tr(g.p(), n); c.tr(W.total_calls);
        g.check("entropy request");
        c.eval(4);
        CHECK(e1 == e0, "errno-changed", "errno was %d before the request and %d after (returned %d)", e0, e1, ret);
        std::map<int, int> after;
        for (auto &k : W.fds) after[k.first] = k.second.what;
        CHECK(after == before, "descriptor-leak", "open descriptors changed from %zu to %zu by a request of %zu bytes (returned %d)", before.size(), after.size(), n, ret);
        if (ret) {
          check_attribution(g.p(), n, c);
          if (W.fired) c.probe("success-despite-faults");
        } else {
          for (size_t i = 0; i < n; i++)
            CHECK(g.p()[i] == 0, "failure-not-zeroed", "failed request of %zu bytes left byte %zu = 0x%02x", n, i, g.p()[i]);
          CHECK(n > 0, "empty-request-failed", "request of zero bytes reported failure");
          bool egd = strstr(c.cfg.flavour, "egd") != nullptr;
          bool could = (!egd && (!W.hard_getrandom || !W.hard_device || (W.env.sysctl && !W.hard_sysctl))) || (egd && !W.hard_device && !W.fired_hard);
          CHECK(!could, "failed-without-cause", "request of %zu bytes failed although a source only had transient faults (%llu)", n, (unsigned long long)W.fired);
          c.probe("failed-closed");
        }
        if (W.calls[K_READ]) c.probe("device-path");
        W.faults.clear();
        break;
      }
    }
  }
}

const Scenario scenario = {"C01", ops, gen, exec, nullptr,
  "runs in which at least one injected fault fired, distinct by the sequence of (call kind, fault kind) fired plus result and number of system calls of every request", 20};
