// C11: keystream ciphers over call histories, against position-indexed models.
#include "world.h"
#include "models.h"
#include "input.h"
#include "huge.h"
extern "C" {
#include <torsion/stream.h>
}
enum { OP_OPEN, OP_CRYPT, OP_COPY, OP_DERIVE, OP_BIG };
static const char *const ops[] = {"open", "crypt", "copy", "derive", "big", nullptr};
enum { K_CHACHA, K_SALSA, K_ARC4, KINDS };
static const char *const names[] = {"chacha20", "salsa20", "rc4"};

static u32 r32(const u8 *p) { return p[0] | p[1] << 8 | p[2] << 16 | (u32)p[3] << 24; }
static void consts(u32 c[4], size_t kl) { const char *s = kl == 16 ? "expand 16-byte k" : "expand 32-byte k"; for (int i = 0; i < 4; i++) c[i] = r32((const u8 *)s + 4 * i); }
static void chacha_state(u32 s[16], const Bytes &key, const u32 tail[4]) { consts(s, key.size()); for (int i = 0; i < 8; i++) s[4 + i] = r32(&key[(4 * i) % key.size()]); for (int i = 0; i < 4; i++) s[12 + i] = tail[i]; }
static void salsa_state(u32 s[16], const Bytes &key, const u32 mid[4]) {
  u32 c[4]; consts(c, key.size()); s[0] = c[0]; s[5] = c[1]; s[10] = c[2]; s[15] = c[3];
  for (int i = 0; i < 4; i++) { s[1 + i] = r32(&key[4 * i]); s[11 + i] = r32(&key[(16 + 4 * i) % key.size()]); s[6 + i] = mid[i]; }
}
static Bytes derive(int kind, const Bytes &key, const u8 *nonce) {
  u32 t[4], s[16], o[16]; for (int i = 0; i < 4; i++) t[i] = r32(nonce + 4 * i);
  Bytes r;
  static const int ci[] = {0, 1, 2, 3, 12, 13, 14, 15}, si[] = {0, 5, 10, 15, 6, 7, 8, 9};
  if (kind == K_CHACHA) { chacha_state(s, key, t); mchacha_block(s, o); } else { salsa_state(s, key, t); msalsa_block(s, o); }
  for (int i = 0; i < 8; i++) { u32 v = o[kind == K_CHACHA ? ci[i] : si[i]]; for (int j = 0; j < 4; j++) r.push_back((u8)(v >> (8 * j))); }
  return r;
}
// Keystream as a function of position. The standards say what happens when a 64-bit counter carries (8-byte nonces);
// where the nonce takes the place of the upper half they say nothing, so there either reading is accepted, but only one per stream.
struct Stream {
  int kind = -1; Bytes key; u32 w[4]; bool defined = true; int carry = -1; u64 pos = 0;
  u8 rc[256], ri = 0, rj = 0; u64 rpos = 0;
  int lo = 0, hi = 1;
  void block(u64 n, int mode, u8 out[64]) const {
    u32 t[4]; memcpy(t, w, 16);
    u64 c = (u64)t[lo] + n; bool over = c >> 32 || c < n;
    if (mode) { u64 v = (u64)t[hi] << 32 | t[lo]; v += n; t[lo] = (u32)v; t[hi] = (u32)(v >> 32); } else t[lo] = (u32)c;
    (void)over;
    u32 s[16], o[16];
    if (kind == K_CHACHA) { chacha_state(s, key, t); mchacha_block(s, o); } else { salsa_state(s, key, t); msalsa_block(s, o); }
    for (int i = 0; i < 16; i++) { u32 v = o[i] + s[i]; for (int j = 0; j < 4; j++) out[4 * i + j] = (u8)(v >> (8 * j)); }
  }
  bool wraps(u64 n) const { return (((u64)w[lo] + n) >> 32) != 0 || n >> 32; }
  void rc4_init() { for (int i = 0; i < 256; i++) rc[i] = (u8)i; u8 j = 0; for (int i = 0; i < 256; i++) { j = (u8)(j + rc[i] + key[(size_t)i % key.size()]); std::swap(rc[i], rc[j]); } ri = rj = 0; }
  // compares one stretch of output; advances
  bool matches(const u8 *in, const u8 *out, size_t n) {
    bool ok = true;
    if (kind == K_ARC4) {
      for (size_t i = 0; i < n; i++) { ri++; rj = (u8)(rj + rc[ri]); std::swap(rc[ri], rc[rj]); if (out[i] != (u8)(in[i] ^ rc[(u8)(rc[ri] + rc[rj])])) ok = false; }
      pos += n; return ok;
    }
    for (size_t i = 0; i < n;) {
      u64 b = (pos + i) / 64; size_t o = (pos + i) % 64, l = std::min<size_t>(64 - o, n - i);
      u8 k[64]; bool good = false;
      int from = defined ? 1 : carry >= 0 ? carry : 0, to = defined ? 1 : carry >= 0 ? carry : 1;
      if (!wraps(b)) { from = to = 1; }
      int hit = -1, hits = 0;
      for (int m = from; m <= to; m++) { block(b, m, k); bool e = true; for (size_t x = 0; x < l; x++) e &= out[i + x] == (u8)(in[i + x] ^ k[o + x]); if (e) { good = true; hit = m; hits++; } }
      if (wraps(b) && !defined && hits == 1 && l >= 8) carry = hit;
      if (!good) ok = false;
      i += l;
    }
    pos += n; return ok;
  }
};
struct Slot { void *ctx = nullptr; size_t size = 0; Stream m; };
static std::vector<Slot> sl;

static size_t ctx_size(int k) { return k == K_CHACHA ? sizeof(chacha20_t) : k == K_SALSA ? sizeof(salsa20_t) : sizeof(arc4_t); }
static void crypt(Slot &s, u8 *d, const u8 *i, size_t n) {
  if (s.m.kind == K_CHACHA) chacha20_crypt((chacha20_t *)s.ctx, d, i, n);
  else if (s.m.kind == K_SALSA) salsa20_crypt((salsa20_t *)s.ctx, d, i, n);
  else arc4_crypt((arc4_t *)s.ctx, d, i, n);
}
static void open(Slot &s, const Step &st, Ctx &c) {
  // slot, kind, keysize, noncesize, seed, counter, big key counter bytes
  bool reuse = s.ctx && s.m.kind == (int)((u64)st.arg(1) % KINDS) && (st.arg(4) & 1);
  if (!reuse) { ::free(s.ctx); s.size = ctx_size((int)((u64)st.arg(1) % KINDS)); s.ctx = ::malloc(s.size); fill_bytes((u64)st.arg(4) + 5, s.ctx, s.size); } else c.fault("reopened-in-place");
  s.m = Stream(); Stream &m = s.m; m.kind = (int)((u64)st.arg(1) % KINDS);
  if (m.kind == K_ARC4) { m.key = seed_bytes((u64)st.arg(4), 1 + (u64)st.arg(2) % 256); Input k(m.key, 1); arc4_init((arc4_t *)s.ctx, k.p, k.n); k.check("init"); m.rc4_init(); c.sh(hash2(3, m.key.size())); return; }
  static const size_t ns[] = {8, 12, 16, 24, 28, 32};
  size_t nl = ns[(u64)st.arg(3) % 6]; if (nl == 32) nl = 24;
  m.key = seed_bytes((u64)st.arg(4), st.arg(2) & 1 ? 32 : 16);
  Bytes nonce = seed_bytes((u64)st.arg(4) + 1, nl);
  u64 counter = (u64)st.arg(5);
  size_t tail = nl >= 24 ? 16 : 0, rest = nl - tail;
  if (rest == 16) { size_t o = tail + (m.kind == K_CHACHA ? 0 : 8); for (int i = 0; i < 8; i++) nonce[o + i] = (u8)(counter >> (8 * i)); }
  else if (m.kind == K_SALSA && rest == 12) for (int i = 0; i < 4; i++) nonce[tail + 8 + i] = (u8)(counter >> (8 * i + 3));
  Input k(m.key, 3), n(nonce, 5);
  if (m.kind == K_CHACHA) chacha20_init((chacha20_t *)s.ctx, k.p, k.n, n.p, n.n, counter); else salsa20_init((salsa20_t *)s.ctx, k.p, k.n, n.p, n.n, counter);
  k.check("init"); n.check("init");
  if (tail) m.key = derive(m.kind, m.key, nonce.data());
  const u8 *q = nonce.data() + tail; u32 *w = m.w;
  if (m.kind == K_CHACHA) {
    m.lo = 0; m.hi = 1;
    if (rest == 8) { w[0] = (u32)counter; w[1] = (u32)(counter >> 32); w[2] = r32(q); w[3] = r32(q + 4); }
    else if (rest == 12) { w[0] = (u32)counter; w[1] = r32(q); w[2] = r32(q + 4); w[3] = r32(q + 8); m.defined = false; }
    else { for (int i = 0; i < 4; i++) w[i] = r32(q + 4 * i); }
  } else {
    m.lo = 2; m.hi = 3;
    if (rest == 8) { w[0] = r32(q); w[1] = r32(q + 4); w[2] = (u32)counter; w[3] = (u32)(counter >> 32); }
    else if (rest == 12) { w[0] = r32(q); w[1] = r32(q + 4); w[2] = r32(q + 8); w[3] = (u32)counter; }
    else for (int i = 0; i < 4; i++) w[i] = r32(q + 4 * i);
  }
  c.sh(hash2((u64)m.kind * 64 + nl, m.key.size()));
}
static void do_crypt(Slot &s, size_t n, u64 seed, bool inplace, Ctx &c) {
  Bytes in = seed_bytes(seed, n);
  Guard g(n, seed, seed % 16);
  u64 b0 = s.m.pos / 64, b1 = (s.m.pos + n) / 64; bool w = s.m.kind != K_ARC4 && !s.m.wraps(b0) && s.m.wraps(b1);
  u64 full = s.m.kind == K_ARC4 ? 0 : ((u64)s.m.w[s.m.hi] << 32 | s.m.w[s.m.lo]);
  if (w) c.probe(s.m.defined ? "32-bit-carry" : "32-bit-carry-into-nonce");
  if (s.m.kind != K_ARC4 && s.m.defined && full + b1 < full && full + b0 >= full) c.probe("64-bit-wrap");
  if (inplace) { memcpy(g.p(), in.data(), n); crypt(s, g.p(), g.p(), n); c.fault("in-place"); }
  else { Input i(in, (seed >> 4) % 8); crypt(s, g.p(), i.p, n); i.check("crypt"); }
  g.check("crypt");
  c.tr(g.p(), n); c.eval(); c.interesting = true;
  u64 at = s.m.pos;
  CHECK(s.m.matches(in.data(), g.p(), n), "keystream-differs", "%s: %zu bytes at offset %llu differ from the definition", names[s.m.kind], n, (unsigned long long)at);
}
static void big(const Step &st, Ctx &c) {
  Slot &s = sl[0];
  if (!s.ctx) return;
  u64 total = (u64)st.arg(0) % (6ull << 30);
  if (!map_huge((4ull << 30) + (64ull << 20)) || !map_sink((4ull << 30) + (64ull << 20))) { c.probe("huge-mapping-unavailable"); return; }
  if (total > huge_size) total = huge_size;
  crypt(s, sink, huge, total);
  // every page of the sink is the same memory: it now holds the end of the output
  u64 last = total / HUGE_PAGE * HUGE_PAGE;
  if (s.m.kind == K_ARC4) { for (u64 i = 0; i < last; i++) { s.m.ri++; s.m.rj = (u8)(s.m.rj + s.m.rc[s.m.ri]); std::swap(s.m.rc[s.m.ri], s.m.rc[s.m.rj]); } s.m.pos += last; } else s.m.pos += last;
  c.eval(); c.interesting = true; c.probe("single-call-over-4-gib"); c.sh(total);
  c.tr(sink, total - last);
  CHECK(s.m.matches(huge, sink, total - last), "keystream-differs", "%s: the end of one call of %llu bytes differs from the definition", names[s.m.kind], (unsigned long long)total);
  do_crypt(s, 100, 3, false, c);
}
static void exec(const Plan &p, Ctx &c) {
  W.reset();
  for (auto &s : sl) ::free(s.ctx);
  sl.assign(6, Slot());
  for (auto &st : p.steps) {
    c.step();
    Slot &s = sl[(u64)st.arg(0) % 6];
    switch (st.op) {
      case OP_OPEN: open(s, st, c); break;
      case OP_CRYPT: if (s.ctx) { size_t n = (size_t)((u64)st.arg(1) % 40000); c.fault(n ? "cut" : "empty-call"); c.sh(n % 64); c.state(hash2(hash2((u64)s.m.kind, s.m.pos % 64), n)); do_crypt(s, n, (u64)st.arg(2), st.arg(3) & 1, c); } break;
      case OP_COPY: { Slot &d = sl[(u64)st.arg(1) % 6]; if (!s.ctx || &d == &s) break; ::free(d.ctx); d = s; d.ctx = ::malloc(s.size); memcpy(d.ctx, s.ctx, s.size); c.fault("context-copied"); c.sh(0xc0); break; }
      case OP_DERIVE: {
        int k = (int)((u64)st.arg(0) % 2); Bytes key = seed_bytes((u64)st.arg(1), st.arg(2) & 1 ? 32 : 16), n = seed_bytes((u64)st.arg(1) + 1, 16);
        Guard g(32); Input ik(key, 1), in(n, 2);
        if (k == K_CHACHA) chacha20_derive(g.p(), ik.p, ik.n, in.p); else salsa20_derive(g.p(), ik.p, ik.n, in.p);
        g.check("derive"); c.eval(); c.sh(0xd0);
        CHECK(g.get(32) == derive(k, key, n.data()), "derive-differs", "%s subkey derivation differs from the definition", names[k]);
        break;
      }
      case OP_BIG: big(st, c); break;
    }
  }
  for (auto &s : sl) if (s.ctx) do_crypt(s, 65, 9, false, c);
}
static i64 counter(Rng &r) {
  switch (r.below(6)) {
    case 0: return (i64)(0xffffffffull - r.below(8));
    case 1: return (i64)((r.below(1ull << 32) << 32) + 0xffffffffull - r.below(8));
    case 2: return (i64)(~0ull - r.below(8));
    case 3: return (i64)r.next();
    default: return (i64)r.below(3);
  }
}
static Plan gen(Rng &r, const Cfg &cfg, u64 index) {
  Plan p;
  if (!strcmp(cfg.flavour, "fast") && index < (cfg.thorough ? 6u : 3u)) {
    p.add(OP_OPEN, {0, (i64)(index % 3), 1, (i64)(index / 3), (i64)r.below(1 << 20), 5});
    p.add(OP_CRYPT, {0, (i64)r.below(100), 1, 0});
    p.add(OP_BIG, {(i64)((4ull << 30) + r.below(30 << 20))});
    return p;
  }
  int ns = (int)r.range(1, 4), n = (int)r.range(2, 30);
  auto op = [&](int s) { p.add(OP_OPEN, {s, (i64)r.below(KINDS * 2) % 5 % 3, (i64)r.below(256), (i64)r.below(6), (i64)r.below(1 << 20), counter(r)}); };
  for (int s = 0; s < ns; s++) op(s);
  for (int i = 0; i < n; i++) {
    int s = (int)r.below(ns); u64 k = r.below(20);
    if (k < 16) {
      i64 len;
      switch (r.below(6)) { case 0: len = 0; break; case 1: len = (i64)r.below(9); break; case 2: len = 64 * (i64)r.below(5) + r.range(-1, 1); break; case 3: len = (i64)r.below(65); break; case 4: len = (i64)r.below(400); break; default: len = r.chance(1, 30) ? (i64)r.below(20000) : (i64)r.below(200); }
      if (len < 0) len = 0;
      p.add(OP_CRYPT, {s, len, (i64)r.below(1 << 20), (i64)r.below(2)});
    } else if (k == 16) p.add(OP_COPY, {s, (i64)r.below(ns)});
    else if (k == 17) p.add(OP_DERIVE, {(i64)r.below(2), (i64)r.below(1 << 20), (i64)r.below(2)});
    else if (k == 18) op(s);
  }
  return p;
}
const Scenario scenario = {"C11", ops, gen, exec, nullptr, "histories with at least one comparison, distinct by cipher, key and nonce sizes, chunk lengths modulo 64 and context operations", 200};
