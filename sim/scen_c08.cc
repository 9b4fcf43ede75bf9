// C08: streaming hashes and MACs under arbitrary chunking, interleaving, copying and reuse.
#include "world.h"
#include "algs.h"
#include "huge.h"
#include <boost/multiprecision/cpp_int.hpp>
#include <map>
#include <sys/mman.h>
#include <unistd.h>
extern "C" {
#include <torsion/hash.h>
#include <torsion/mac.h>
}

enum { OP_OPEN, OP_UPDATE, OP_COPY, OP_FINAL, OP_PAD, OP_BIG, OP_POLYEDGE };
static const char *const ops[] = {"open", "update", "copy", "final", "pad", "big", "polyedge", nullptr};
enum { K_GENERIC, K_DIRECT, K_HMAC, K_BLAKE2B, K_BLAKE2S, K_KECCAK, K_POLY, K_SIP, KINDS };

// ---------------------------------------------------------------- algorithm table
// per-algorithm entry points
struct Direct { size_t size; void (*init)(void *, const u8 *, size_t); void (*update)(void *, const void *, size_t); void (*final)(void *, u8 *, size_t); bool keyed; };
#define D(n, t) {sizeof(t), [](void *c, const u8 *, size_t) { n##_init((t *)c); }, [](void *c, const void *d, size_t l) { n##_update((t *)c, d, l); }, [](void *c, u8 *o, size_t) { n##_final((t *)c, o); }, false}
#define DB(n, t) {sizeof(t), [](void *c, const u8 *k, size_t l) { n##_init((t *)c, k, l); }, [](void *c, const void *d, size_t l) { n##_update((t *)c, d, l); }, [](void *c, u8 *o, size_t) { n##_final((t *)c, o); }, true}
#define DX(n, t) {sizeof(t), [](void *c, const u8 *, size_t) { n##_init((t *)c); }, [](void *c, const void *d, size_t l) { n##_update((t *)c, d, l); }, [](void *c, u8 *o, size_t l) { n##_final((t *)c, o, l); }, false}
static const Direct direct[] = {
  DB(torsion_blake2b160, blake2b_t), DB(torsion_blake2b256, blake2b_t), DB(torsion_blake2b384, blake2b_t), DB(torsion_blake2b512, blake2b_t),
  DB(torsion_blake2s128, blake2s_t), DB(torsion_blake2s160, blake2s_t), DB(torsion_blake2s224, blake2s_t), DB(torsion_blake2s256, blake2s_t),
  D(gost94, gost94_t), D(hash160, hash160_t), D(hash256, hash256_t),
  D(torsion_keccak224, sha3_t), D(torsion_keccak256, sha3_t), D(torsion_keccak384, sha3_t), D(torsion_keccak512, sha3_t),
  D(md2, md2_t), D(md4, md4_t), D(md5, md5_t), D(md5sha1, md5sha1_t), D(ripemd160, ripemd160_t), D(sha1, sha1_t),
  D(sha224, sha224_t), D(sha256, sha256_t), D(sha384, sha384_t), D(sha512, sha512_t),
  D(torsion_sha3_224, sha3_t), D(torsion_sha3_256, sha3_t), D(torsion_sha3_384, sha3_t), D(torsion_sha3_512, sha3_t),
  DX(torsion_shake128, sha3_t), DX(torsion_shake256, sha3_t), D(whirlpool, whirlpool_t),
};

// ---------------------------------------------------------------- contexts
struct Slot {
  int kind = -1, alg = 0; void *ctx = nullptr; size_t size = 0;
  Bytes msg, key; MSpec ms; size_t outlen = 0; unsigned pad = 0;
};
static size_t ctx_size(int kind, int alg) {
  switch (kind) {
    case K_GENERIC: return sizeof(hash_t); case K_DIRECT: return direct[alg].size; case K_HMAC: return sizeof(hmac_t);
    case K_BLAKE2B: return sizeof(blake2b_t); case K_BLAKE2S: return sizeof(blake2s_t); case K_KECCAK: return sizeof(keccak_t);
    default: return sizeof(poly1305_t);
  }
}
static void drop(Slot &s) { ::free(s.ctx); s = Slot(); }

static void open_slot(Slot &s, const Step &st, Ctx &c) {
  if (s.ctx) drop(s);
  s.kind = (int)((u64)st.arg(1) % KINDS); s.alg = (int)((u64)st.arg(2) % NALG);
  if (s.kind == K_SIP) { s.kind = -1; return; }
  s.size = ctx_size(s.kind, s.alg);
  s.ctx = ::malloc(s.size); fill_bytes((u64)st.arg(4), s.ctx, s.size);        // whatever memory held before
  s.ms = algs[s.alg].m; s.outlen = s.ms.out;
  u64 kl = (u64)st.arg(3);
  c.sh(hash2((u64)s.kind * 64 + (u64)s.alg, s.kind >= K_BLAKE2B ? kl % 64 : 0));
  switch (s.kind) {
    case K_GENERIC: hash_init((hash_t *)s.ctx, algs[s.alg].id);
      if (algs[s.alg].id == HASH_SHAKE128 || algs[s.alg].id == HASH_SHAKE256) s.outlen = 1 + kl % 200;
      break;
    case K_DIRECT: {
      size_t mk = s.ms.alg == MH_BLAKE2B ? 64 : 32;
      if (direct[s.alg].keyed && (kl & 1)) s.key = seed_bytes((u64)st.arg(4) + 1, kl % (mk + 1));
      s.ms.key = s.key;
      Input k(s.key, kl % 8);
      direct[s.alg].init(s.ctx, k.p, k.n);
      if (algs[s.alg].id == HASH_SHAKE128 || algs[s.alg].id == HASH_SHAKE256) s.outlen = 1 + kl % 200;
      break;
    }
    case K_HMAC: {
      size_t b = s.ms.block; static const int d[] = {-1, 0, 1, 0, -2};
      size_t n = kl % 5 == 0 ? kl % 300 : kl % 5 == 1 ? kl % (b + 1) : (size_t)((i64)b + d[kl % 5]);
      s.key = seed_bytes((u64)st.arg(4) + 1, n);
      Input k(s.key, kl % 8);
      hmac_init((hmac_t *)s.ctx, algs[s.alg].id, k.p, k.n);
      k.check("hmac_init");
      break;
    }
    case K_BLAKE2B: case K_BLAKE2S: {
      size_t m = s.kind == K_BLAKE2B ? 64 : 32;
      s.outlen = 1 + kl % m; s.key = seed_bytes((u64)st.arg(4) + 1, (kl / 64) % 3 == 0 ? 0 : (kl / 192) % (m + 1));
      s.ms = MSpec{s.kind == K_BLAKE2B ? MH_BLAKE2B : MH_BLAKE2S, 0, 0, s.outlen, m * 2, s.key};
      Input k(s.key, kl % 8);
      if (s.kind == K_BLAKE2B) blake2b_init((blake2b_t *)s.ctx, s.outlen, k.p, k.n); else blake2s_init((blake2s_t *)s.ctx, s.outlen, k.p, k.n);
      k.check("blake2 init");
      break;
    }
    case K_KECCAK: {
      unsigned bits = 32 + 32 * (unsigned)(kl % 24);          // every capacity the interface accepts
      if (kl % 3 == 0) { static const unsigned std_bits[] = {128, 160, 192, 224, 256, 384, 512}; bits = std_bits[(kl / 3) % 7]; }
      static const unsigned pads[] = {1, 6, 0x1f, 4};
      s.pad = pads[(kl / 24) % 4];
      size_t rate = (1600 - 2 * bits) / 8;
      s.outlen = (kl / 96) % 4 == 0 ? 0 : 1 + (kl / 96) % 200;
      s.ms = MSpec{MH_KECCAK, bits, s.pad, s.outlen ? s.outlen : 100 - rate / 2, rate, {}};
      keccak_init((keccak_t *)s.ctx, bits);
      break;
    }
    case K_POLY: {
      s.key = seed_bytes((u64)st.arg(4) + 1, 32);
      if (kl % 4 == 1) { for (int i = 0; i < 16; i++) s.key[i] = 0xff; }          // the largest multiplier
      if (kl % 4 == 2) { for (int i = 0; i < 16; i++) s.key[i] = 0; s.key[0] = (u8)(kl >> 3); }
      if (kl % 3 == 0) { for (int i = 16; i < 32; i++) s.key[i] = 0xff; }
      Input k(s.key, kl % 8);
      poly1305_init((poly1305_t *)s.ctx, k.p);
      k.check("poly1305_init");
      break;
    }
  }
}
static void update_slot(Slot &s, const Bytes &data, size_t off) {
  Input in(data, off);
  switch (s.kind) {
    case K_GENERIC: hash_update((hash_t *)s.ctx, in.p, in.n); break;
    case K_DIRECT: direct[s.alg].update(s.ctx, in.p, in.n); break;
    case K_HMAC: hmac_update((hmac_t *)s.ctx, in.p, in.n); break;
    case K_BLAKE2B: blake2b_update((blake2b_t *)s.ctx, in.p, in.n); break;
    case K_BLAKE2S: blake2s_update((blake2s_t *)s.ctx, in.p, in.n); break;
    case K_KECCAK: keccak_update((keccak_t *)s.ctx, in.p, in.n); break;
    case K_POLY: poly1305_update((poly1305_t *)s.ctx, in.p, in.n); break;
  }
  in.check("update");
  s.msg.insert(s.msg.end(), data.begin(), data.end());
}
static const char *kind_name(const Slot &s) {
  switch (s.kind) { case K_HMAC: return "hmac"; case K_BLAKE2B: return "blake2b"; case K_BLAKE2S: return "blake2s"; case K_KECCAK: return "keccak"; case K_POLY: return "poly1305"; case K_GENERIC: return "hash"; default: return "direct"; }
}
static void final_slot(Slot &s, u64 seed, Ctx &c) {
  size_t n = s.kind == K_KECCAK ? s.ms.out : s.kind == K_POLY ? 16 : s.outlen;
  Guard g(n, seed, seed % 8);
  switch (s.kind) {
    case K_GENERIC: hash_final((hash_t *)s.ctx, g.p(), s.outlen); break;
    case K_DIRECT: direct[s.alg].final(s.ctx, g.p(), s.outlen); break;
    case K_HMAC: hmac_final((hmac_t *)s.ctx, g.p()); break;
    case K_BLAKE2B: blake2b_final((blake2b_t *)s.ctx, g.p()); break;
    case K_BLAKE2S: blake2s_final((blake2s_t *)s.ctx, g.p()); break;
    case K_KECCAK: keccak_final((keccak_t *)s.ctx, g.p(), s.pad, s.outlen); break;
    case K_POLY: poly1305_final((poly1305_t *)s.ctx, g.p()); break;
  }
  g.check("final");
  Bytes got = g.get(n), want;
  MSpec ms = s.ms;
  if (s.kind != K_KECCAK && s.kind != K_HMAC) ms.out = n;
  if (s.kind == K_HMAC) want = mhmac(s.ms, s.key, s.msg);
  else if (s.kind == K_POLY) want = mpoly1305(s.key.data(), s.msg);
  else want = mhash(ms, s.msg);
  c.tr(got); c.eval(); c.interesting = true;
  if (s.kind == K_KECCAK || ms.alg == MH_KECCAK) if (n > ms.block) c.probe("squeezed-twice");
  CHECK(got == want, s.kind == K_HMAC ? "hmac-differs" : s.kind == K_POLY ? "poly1305-differs" : "digest-differs", "%s %s: %zu bytes of output after %zu bytes of input (key %zu) are %s, the definition gives %s",
    kind_name(s), s.kind == K_POLY || s.kind == K_BLAKE2B || s.kind == K_BLAKE2S || s.kind == K_KECCAK ? "" : algs[s.alg].name, n, s.msg.size(), s.key.size(), hex(got).c_str(), hex(want).c_str());
  drop(s);
}

// ---------------------------------------------------------------- huge inputs
static void big(const Step &st, Ctx &c) {
  int alg = (int)((u64)st.arg(0) % NALG);
  u64 total = (u64)st.arg(1) % (6ull << 30), pre = (u64)st.arg(2) % 200, parts = 1 + (u64)st.arg(3) % 64;
  if (!map_huge((4ull << 30) + (64ull << 20))) { c.probe("huge-mapping-unavailable"); return; }
  hash_t h; hash_init(&h, algs[alg].id);
  auto m = mhash(algs[alg].m);
  hash_update(&h, huge, pre); m->update(huge, pre);
  u64 left = total - std::min(total, pre), step = left / parts + 1, off = 0;
  while (left) { u64 n = std::min(left, step); if (off + n > huge_size) off = 0; if (n > huge_size) n = huge_size; hash_update(&h, huge + off, n); m->update(huge + off, n); left -= n; off += n % HUGE_PAGE; if (off > (32u << 20)) off = 0; }
  Guard g(algs[alg].m.out);
  hash_final(&h, g.p(), algs[alg].m.out);
  g.check("final");
  Bytes got = g.get(algs[alg].m.out), want = m->final();
  c.tr(got); c.eval(); c.interesting = true; c.sh(hash2(alg, total));
  c.probe(total >= (4ull << 30) ? "total-over-4-gib" : "total-over-512-mib");
  CHECK(got == want, "digest-differs", "%s over %llu bytes in %llu updates is %s, the definition gives %s", algs[alg].name, (unsigned long long)total, (unsigned long long)parts, hex(got).c_str(), hex(want).c_str());
}

// Messages whose accumulator ends next to the modulus 2^130-5, where the final reduction decides.
typedef boost::multiprecision::cpp_int Z;
static Z le(const u8 *p, size_t n) { Z z = 0; for (size_t i = n; i-- > 0;) z = z * 256 + p[i]; return z; }
static void polyedge(const Step &st, Ctx &c) {
  // multiplier choice, blocks before, wanted accumulator, seed, cut
  const Z p = (Z(1) << 130) - 5, two128 = Z(1) << 128;
  Bytes key = seed_bytes((u64)st.arg(3), 32);
  if (st.arg(0) % 3 == 0) { for (int i = 0; i < 16; i++) key[i] = 0; key[0] = (u8)(1 + st.arg(0) / 3 % 4); }
  if (st.arg(0) % 3 == 1) for (int i = 0; i < 16; i++) key[i] = 0xff;
  if (st.arg(4) & 1) for (int i = 16; i < 32; i++) key[i] = 0xff;
  u8 rb[16]; memcpy(rb, key.data(), 16); rb[3] &= 15; rb[7] &= 15; rb[11] &= 15; rb[15] &= 15; rb[4] &= 252; rb[8] &= 252; rb[12] &= 252;
  Z r = le(rb, 16); if (r == 0) return;
  Z inv = boost::multiprecision::powm(r, Z(p - 2), p);
  size_t nb = 1 + (u64)st.arg(1) % 4;
  for (int attempt = 0; attempt < 40; attempt++) {
    Bytes m = seed_bytes((u64)st.arg(3) + 77 * (u64)attempt, nb * 16);
    if (st.arg(4) & 2) for (auto &b : m) b = 0xff;
    if (attempt && (st.arg(4) & 2)) m[(size_t)attempt % m.size()] ^= (u8)(attempt * 37);
    Z h = 0; for (size_t i = 0; i < nb; i++) h = (h + le(&m[i * 16], 16) + two128) * r % p;
    i64 t = st.arg(2) % 40 - 20; Z want = t < 0 ? Z(p + t) : Z(t);
    Z last = ((want * inv - h - two128) % p + 2 * p) % p;
    if (last >= two128) continue;
    for (int i = 0; i < 16; i++) { m.push_back((u8)(last & 255)); last >>= 8; }
    poly1305_t ctx; poly1305_init(&ctx, key.data());
    size_t cut = (u64)st.arg(5) % (m.size() + 1);
    { Input a(Bytes(m.begin(), m.begin() + cut), 1), b(Bytes(m.begin() + cut, m.end()), 2); poly1305_update(&ctx, a.p, a.n); poly1305_update(&ctx, b.p, b.n); }
    Guard g(16); poly1305_final(&ctx, g.p()); g.check("final");
    Bytes got = g.get(16), exp = mpoly1305(key.data(), m);
    c.tr(got); c.eval(); c.interesting = true; c.sh(hash2(hash2(0x90, (u64)t), nb)); c.probe("accumulator-next-to-modulus");
    CHECK(got == exp, "poly1305-differs", "accumulator %lld next to the modulus: tag %s, the definition gives %s", (long long)t, hex(got).c_str(), hex(exp).c_str());
    return;
  }
}

// ---------------------------------------------------------------- generation
static i64 alg_index(hash_id_t id) { for (int i = 0; i < NALG; i++) if (algs[i].id == id) return i; return 0; }
static Plan gen(Rng &r, const Cfg &cfg, u64 index) {
  Plan p;
  if (!strcmp(cfg.flavour, "fast")) {
    static const struct { hash_id_t id; int gib4; int when; } bigs[] = {
      {HASH_WHIRLPOOL, 0, 0}, {HASH_SHA256, 1, 0}, {HASH_MD5SHA1, 0, 0}, {HASH_BLAKE2S_256, 1, 0}, {HASH_SHA512, 1, 0}, {HASH_SHA1, 1, 0}, {HASH_MD5, 1, 0}, {HASH_GOST94, 0, 0},
      {HASH_RIPEMD160, 0, 0}, {HASH_SHA224, 0, 0}, {HASH_MD4, 0, 0}, {HASH_SHA256, 0, 0}, {HASH_HASH256, 0, 0}, {HASH_SHA1, 0, 0}, {HASH_MD5, 0, 0}, {HASH_SHA384, 0, 0},
      {HASH_HASH160, 0, 0}, {HASH_MD4, 1, 0}, {HASH_BLAKE2B_512, 1, 1}, {HASH_RIPEMD160, 1, 1}, {HASH_WHIRLPOOL, 1, 1}, {HASH_SHA3_256, 1, 1}, {HASH_GOST94, 1, 2}, {HASH_MD2, 0, 2},
      {HASH_BLAKE2S_128, 1, 1}, {HASH_BLAKE2S_160, 1, 1}, {HASH_BLAKE2S_224, 1, 1}, {HASH_SHA224, 1, 1}, {HASH_SHA384, 1, 1}, {HASH_MD5SHA1, 1, 1}, {HASH_HASH256, 1, 1}, {HASH_HASH160, 1, 1} };
    if (index < sizeof bigs / sizeof *bigs && bigs[index].when <= cfg.thorough) {
      u64 t = (bigs[index].gib4 ? 4ull << 30 : 512ull << 20) + r.below(4000);
      p.add(OP_BIG, {alg_index(bigs[index].id), (i64)t, (i64)(r.chance(1, 2) ? 0 : r.below(200)), (i64)(r.chance(1, 2) ? 0 : r.below(16))});
      return p;
    }
  }
  if (r.chance(1, 40)) for (int i = 0; i < 8; i++) p.add(OP_POLYEDGE, {(i64)r.below(12), (i64)r.below(4), (i64)r.below(40), (i64)r.below(1 << 20), (i64)r.below(4), (i64)r.below(90)});
  int nslot = (int)r.range(1, 4), n = (int)r.range(3, 40);
  bool fav = r.chance(1, 2); int fk = (int)r.below(KINDS - 1), fa = (int)r.below(NALG);
  std::vector<int> block(nslot, 64);
  auto open = [&](int s) {
    int k = fav ? fk : (int)r.below(KINDS - 1), a = fav && r.chance(3, 4) ? fa : (int)r.below(NALG);
    if (r.chance(1, 3)) k = r.pick<int>({K_GENERIC, K_DIRECT, K_HMAC});
    block[s] = k <= K_HMAC ? (int)algs[a].m.block : k == K_BLAKE2B ? 128 : k == K_BLAKE2S ? 64 : k == K_POLY ? 16 : 136;
    i64 kl = (i64)r.below(4000);
    if (k == K_KECCAK) { unsigned bits = 32 + 32 * (unsigned)(kl % 24); static const unsigned sb[] = {128, 160, 192, 224, 256, 384, 512}; if (kl % 3 == 0) bits = sb[(kl / 3) % 7]; block[s] = (1600 - 2 * (int)bits) / 8; }
    p.add(OP_OPEN, {s, k, a, kl, (i64)r.below(1 << 20)});
  };
  for (int s = 0; s < nslot; s++) open(s);
  for (int i = 0; i < n; i++) {
    int s = (int)r.below(nslot);
    u64 k = r.below(24);
    if (k < 17) {
      i64 len; i64 b = block[s];
      switch (r.below(7)) {
        case 0: len = 0; break;
        case 1: len = (i64)r.below(9); break;
        case 2: len = b * (i64)r.below(4) + r.range(-1, 1); break;
        case 3: len = (i64)r.below((u64)b + 1); break;
        case 4: len = (i64)r.below(1000); break;
        case 5: len = b + r.range(-9, 9); break;
        default: len = r.chance(1, 20) ? (i64)r.below(20000) : (i64)r.below(300); break;
      }
      if (len < 0) len = 0;
      p.add(OP_UPDATE, {s, len, (i64)r.below(16), (i64)r.below(1 << 20), (i64)r.below(12)});
    } else if (k == 17) p.add(OP_COPY, {s, (i64)r.below(nslot)});
    else if (k == 18) p.add(OP_PAD, {s});
    else if (k == 19 && r.chance(1, 2)) open(s);
    else { p.add(OP_FINAL, {s, (i64)r.below(64)}); open(s); }
  }
  return p;
}
static void exec(const Plan &p, Ctx &c) {
  W.reset();
  static std::vector<Slot> sl;
  for (auto &s : sl) drop(s);
  sl.assign(8, Slot());
  for (auto &st : p.steps) {
    c.step();
    Slot &s = sl[(u64)st.arg(0) % 8];
    switch (st.op) {
      case OP_OPEN: if (s.ctx) c.fault("abandoned"); open_slot(s, st, c); break;
      case OP_UPDATE: {
        if (!s.ctx) break;
        size_t n = (size_t)((u64)st.arg(1) % 40000);
        Bytes d = seed_bytes((u64)st.arg(3), n);
        if (st.arg(4) == 1) for (auto &b : d) b = 0xff;
        if (st.arg(4) == 2) for (auto &b : d) b = 0;
        c.fault(n == 0 ? "empty-update" : "cut");
        c.sh(n % (s.ms.block ? s.ms.block : 16)); c.state(hash2(hash2((u64)s.kind * 64 + (u64)s.alg, s.msg.size()), n));
        update_slot(s, d, (size_t)((u64)st.arg(2) % 16));
        break;
      }
      case OP_COPY: {
        Slot &d = sl[(u64)st.arg(1) % 8];
        if (!s.ctx || &d == &s) break;
        drop(d);
        d = s; d.ctx = ::malloc(s.size); memcpy(d.ctx, s.ctx, s.size);
        c.fault("context-copied"); c.sh(0xc0);
        break;
      }
      case OP_PAD:
        if (s.kind != K_POLY || !s.ctx) break;
        poly1305_pad((poly1305_t *)s.ctx);
        while (s.msg.size() % 16) s.msg.push_back(0);
        c.probe("poly1305-padded");
        break;
      case OP_FINAL: if (s.ctx) { c.sh(hash2(0xf, s.msg.size())); final_slot(s, (u64)st.arg(1), c); } break;
      case OP_BIG: big(st, c); break;
      case OP_POLYEDGE: polyedge(st, c); break;
    }
  }
  for (auto &s : sl) if (s.ctx) final_slot(s, 3, c);
}
static void init(const Cfg &) {}
const Scenario scenario = {"C08", ops, gen, exec, init, "histories in which at least one digest was compared, distinct by algorithms, chunk lengths modulo the block size and context operations", 300};
