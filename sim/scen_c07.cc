// C07: deterministic generators over call histories, against SP 800-90A models.
#define OPENSSL_SUPPRESS_DEPRECATED
#include "world.h"
#include "algs.h"
#include <openssl/aes.h>
extern "C" {
#include <torsion/drbg.h>
}
enum { OP_INIT, OP_RESEED, OP_GEN, OP_BURST, OP_RNG };
static const char *const ops[] = {"init", "reseed", "generate", "burst", "rng", nullptr};
enum { D_HMAC, D_HASH, D_CTR, DKINDS };

static Bytes cat(std::initializer_list<Bytes> l) { Bytes r; for (auto &b : l) r.insert(r.end(), b.begin(), b.end()); return r; }

struct Model { virtual ~Model() {} virtual void reseed(const Bytes &a, const Bytes &b) = 0; virtual Bytes gen(size_t n, const Bytes &add) = 0; };
struct MHmac : Model {
  MSpec h; Bytes K, V;
  void upd(const Bytes &d) {
    K = mhmac(h, K, cat({V, {0}, d})); V = mhmac(h, K, V);
    if (!d.empty()) { K = mhmac(h, K, cat({V, {1}, d})); V = mhmac(h, K, V); }
  }
  MHmac(const MSpec &s, const Bytes &seed) : h(s), K(s.out, 0), V(s.out, 1) { upd(seed); }
  void reseed(const Bytes &a, const Bytes &) override { upd(a); }
  Bytes gen(size_t n, const Bytes &add) override {
    if (!add.empty()) upd(add);
    Bytes o; while (o.size() < n) { V = mhmac(h, K, V); o.insert(o.end(), V.begin(), V.end()); }
    o.resize(n); upd(add); return o;
  }
};
struct MHashD : Model {
  MSpec h; size_t len; Bytes V, C; u64 ctr = 1;
  Bytes df(const Bytes &in) { Bytes o; u32 bits = (u32)len * 8; for (u8 c = 1; o.size() < len; c++) { Bytes t = mhash(h, cat({{c, (u8)(bits >> 24), (u8)(bits >> 16), (u8)(bits >> 8), (u8)bits}, in})); o.insert(o.end(), t.begin(), t.end()); } o.resize(len); return o; }
  void add(Bytes &v, const Bytes &x) { unsigned c = 0; for (size_t i = 0; i < v.size(); i++) { size_t k = v.size() - 1 - i; c += v[k] + (i < x.size() ? x[x.size() - 1 - i] : 0); v[k] = (u8)c; c >>= 8; } }
  MHashD(const MSpec &s, const Bytes &seed) : h(s), len(s.out <= 32 ? 55 : 111) { V = df(seed); C = df(cat({{0}, V})); }
  void reseed(const Bytes &a, const Bytes &) override { V = df(cat({{1}, V, a})); C = df(cat({{0}, V})); ctr = 1; }
  Bytes gen(size_t n, const Bytes &ad) override {
    if (!ad.empty()) add(V, mhash(h, cat({{2}, V, ad})));
    Bytes o, d = V; while (o.size() < n) { Bytes t = mhash(h, d); o.insert(o.end(), t.begin(), t.end()); add(d, {1}); }
    o.resize(n);
    Bytes H = mhash(h, cat({{3}, V})); Bytes L(8); for (int i = 0; i < 8; i++) L[7 - i] = (u8)(ctr >> (8 * i));
    add(V, H); add(V, C); add(V, L); ctr++;
    return o;
  }
};
struct MCtr : Model {
  size_t kl, sl; bool df; Bytes K, V;
  static void aes(const Bytes &k, const u8 *in, u8 *out) { AES_KEY ak; AES_set_encrypt_key(k.data(), (int)k.size() * 8, &ak); AES_encrypt(in, out, &ak); }
  static void inc(Bytes &v) { for (size_t i = v.size(); i-- > 0;) if (++v[i]) break; }
  Bytes stream(Bytes &v, size_t n) { Bytes o; while (o.size() < n) { inc(v); u8 b[16]; aes(K, v.data(), b); o.insert(o.end(), b, b + 16); } o.resize(n); return o; }
  void upd(Bytes d) { Bytes t = stream(V, sl); d.resize(sl); for (size_t i = 0; i < sl; i++) t[i] ^= d[i]; K.assign(t.begin(), t.begin() + kl); V.assign(t.begin() + kl, t.end()); }
  Bytes derive(const Bytes &in) {
    Bytes S; u32 L = (u32)in.size(), N = (u32)sl;
    for (int i = 3; i >= 0; i--) S.push_back((u8)(L >> (8 * i)));
    for (int i = 3; i >= 0; i--) S.push_back((u8)(N >> (8 * i)));
    S.insert(S.end(), in.begin(), in.end()); S.push_back(0x80); while (S.size() % 16) S.push_back(0);
    Bytes k(kl); for (size_t i = 0; i < kl; i++) k[i] = (u8)i;
    Bytes tmp;
    for (u32 i = 0; tmp.size() < kl + 16; i++) {
      u8 ch[16] = {0}; u8 iv[16] = {(u8)(i >> 24), (u8)(i >> 16), (u8)(i >> 8), (u8)i}; aes(k, iv, ch);
      for (size_t o = 0; o < S.size(); o += 16) { for (int j = 0; j < 16; j++) ch[j] ^= S[o + j]; aes(k, ch, ch); }
      tmp.insert(tmp.end(), ch, ch + 16);
    }
    Bytes K2(tmp.begin(), tmp.begin() + kl), X(tmp.begin() + kl, tmp.begin() + kl + 16), o;
    while (o.size() < sl) { aes(K2, X.data(), X.data()); o.insert(o.end(), X.begin(), X.end()); }
    o.resize(sl); return o;
  }
  Bytes mix(Bytes a, Bytes b) { if (df) return derive(cat({a, b})); a.resize(sl); b.resize(sl); for (size_t i = 0; i < sl; i++) a[i] ^= b[i]; return a; }
  MCtr(unsigned bits, bool d) : kl(bits / 8), sl(bits / 8 + 16), df(d), K(bits / 8, 0), V(16, 0) {}
  void reseed(const Bytes &a, const Bytes &b) override { upd(mix(a, b)); }
  Bytes gen(size_t n, const Bytes &add) override {
    Bytes a = add;
    if (!a.empty()) { if (df) a = derive(a); upd(a); }
    Bytes o = stream(V, n); upd(a); return o;
  }
  // what an update would mix its input with, for aiming the counter
  Bytes next_pad() { Bytes v = V; return stream(v, sl); }
};

struct Slot { int kind = -1; void *ctx = nullptr; std::unique_ptr<Model> m; int alg = 0; bool df = false; };
static std::vector<Slot> *sl;

static Bytes input(i64 len, i64 seed, size_t max) { return seed_bytes((u64)seed, (size_t)((u64)len % (max + 1))); }

// For the counter generator without derivation the input reaches the counter directly: aim it just below a carry.
static Bytes aimed(MCtr *m, i64 how, i64 seed) {
  Bytes pad = m->next_pad(), want = seed_bytes((u64)seed, m->sl);
  size_t n = (size_t)((u64)how % 17);
  for (size_t i = 0; i < n; i++) want[m->sl - 1 - i] = 0xff;
  if (n) want[m->sl - 1] = (u8)(0xff - ((u64)seed >> 3) % 6);
  for (size_t i = 0; i < m->sl; i++) want[i] ^= pad[i];
  return want;
}

static void gen_check(Slot &s, size_t n, const Bytes &add, u64 place, bool rng, Ctx &c) {
  Guard g(n, place, place % 16);
  Input a(add, (place / 16) % 8);
  switch (s.kind) {
    case D_HMAC: if (rng) hmac_drbg_rng(g.p(), n, s.ctx); else hmac_drbg_generate((hmac_drbg_t *)s.ctx, g.p(), n, add.empty() && place & 1 ? nullptr : a.p, a.n); break;
    case D_HASH: if (rng) hash_drbg_rng(g.p(), n, s.ctx); else hash_drbg_generate((hash_drbg_t *)s.ctx, g.p(), n, add.empty() && place & 1 ? nullptr : a.p, a.n); break;
    case D_CTR: if (rng) ctr_drbg_rng(g.p(), n, s.ctx); else ctr_drbg_generate((ctr_drbg_t *)s.ctx, g.p(), n, add.empty() && place & 1 ? nullptr : a.p, a.n); break;
  }
  g.check("generate"); a.check("generate");
  Bytes got = g.get(n), want = s.m->gen(n, add);
  c.tr(got); c.eval(); c.interesting = true;
  static const char *kn[] = {"hmac", "hash", "ctr"};
  CHECK(got == want, "output-differs", "%s generator (%s): %zu bytes with %zu bytes of additional input are %s, the standard gives %s", kn[s.kind], s.kind == D_CTR ? (s.df ? "derivation" : "no derivation") : algs[s.alg].name,
    n, add.size(), hex(got).c_str(), hex(want).c_str());
}

static void exec(const Plan &p, Ctx &c) {
  W.reset();
  if (!sl) sl = new std::vector<Slot>();
  for (auto &s : *sl) ::free(s.ctx);
  sl->clear(); sl->resize(6);
  for (auto &st : p.steps) {
    c.step();
    Slot &s = (*sl)[(u64)st.arg(0) % 6];
    if (st.op != OP_INIT && s.kind < 0) continue;
    switch (st.op) {
      case OP_INIT: {
        // slot, kind, algorithm, len, seed, len2, aim
        int kind = (int)((u64)st.arg(1) % DKINDS);
        bool reuse = s.ctx && s.kind == kind && (st.arg(4) & 1);
        if (!reuse) { ::free(s.ctx); size_t n = kind == D_HMAC ? sizeof(hmac_drbg_t) : kind == D_HASH ? sizeof(hash_drbg_t) : sizeof(ctr_drbg_t); s.ctx = ::malloc(n); fill_bytes((u64)st.arg(4) + 9, s.ctx, n); }
        else c.fault("reinstantiated-in-place");
        s.kind = kind; s.alg = (int)((u64)st.arg(2) % NALG); s.df = (st.arg(2) / 3) & 1;
        Bytes a = input(st.arg(3), st.arg(4), 512), b = input(st.arg(5), st.arg(4) + 1, 512);
        c.sh(hash2((u64)kind * 64 + (u64)s.alg, 1));
        if (kind == D_HMAC) { Input in(a, 1); s.m.reset(new MHmac(algs[s.alg].m, a)); hmac_drbg_init((hmac_drbg_t *)s.ctx, algs[s.alg].id, in.p, in.n); in.check("init"); }
        else if (kind == D_HASH) { Input in(a, 1); s.m.reset(new MHashD(algs[s.alg].m, a)); hash_drbg_init((hash_drbg_t *)s.ctx, algs[s.alg].id, in.p, in.n); in.check("init"); }
        else {
          static const unsigned bits[] = {128, 192, 256};
          unsigned n = bits[(u64)st.arg(2) % 3];
          MCtr *m = new MCtr(n, s.df);
          if (!s.df) { a.resize(std::min(a.size(), m->sl)); b.resize(std::min(b.size(), m->sl)); if (st.arg(6)) { a = aimed(m, st.arg(6), st.arg(4)); b.clear(); c.fault("counter-aimed-at-carry"); } }
          Input ia(a, 2), ib(b, 3);
          ctr_drbg_init((ctr_drbg_t *)s.ctx, n, s.df, ia.p, ia.n, ib.p, ib.n); ia.check("init"); ib.check("init");
          m->upd(m->mix(a, b));
          s.m.reset(m);
        }
        break;
      }
      case OP_RESEED: {
        Bytes a = input(st.arg(1), st.arg(2), 512), b = input(st.arg(3), st.arg(2) + 1, 512);
        c.sh(hash2(0x20 + (u64)s.kind, a.empty()));
        c.fault("reseed-between-requests");
        if (s.kind == D_CTR) {
          MCtr *m = (MCtr *)s.m.get();
          if (!s.df) { a.resize(std::min(a.size(), m->sl)); b.resize(std::min(b.size(), m->sl)); if (st.arg(4)) { a = aimed(m, st.arg(4), st.arg(2)); b.clear(); c.fault("counter-aimed-at-carry"); } }
        } else b.clear();
        Input ia(a, 1), ib(b, 2);
        if (s.kind == D_HMAC) hmac_drbg_reseed((hmac_drbg_t *)s.ctx, ia.p, ia.n);
        else if (s.kind == D_HASH) hash_drbg_reseed((hash_drbg_t *)s.ctx, ia.p, ia.n);
        else ctr_drbg_reseed((ctr_drbg_t *)s.ctx, ia.p, ia.n, ib.p, ib.n);
        ia.check("reseed"); ib.check("reseed");
        s.m->reseed(a, b);
        break;
      }
      case OP_GEN: {
        Bytes a = input(st.arg(2), st.arg(3), 512);
        if (s.kind == D_CTR) { MCtr *m = (MCtr *)s.m.get(); if (!s.df) { a.resize(std::min(a.size(), m->sl)); if (st.arg(5) && !a.empty()) { a = aimed(m, st.arg(5), st.arg(3)); c.fault("counter-aimed-at-carry"); } } }
        size_t n = (size_t)((u64)st.arg(1) % 70000);
        c.sh(hash2(hash2(0x40 + (u64)s.kind, !a.empty()), n % 64)); c.state(hash2(hash2((u64)s.kind * 64 + (u64)s.alg, n), a.size()));
        gen_check(s, n, a, (u64)st.arg(4), false, c);
        break;
      }
      case OP_RNG: gen_check(s, (size_t)((u64)st.arg(1) % 2000), {}, (u64)st.arg(2), true, c); c.sh(0x80); break;
      case OP_BURST: {
        u64 n = (u64)st.arg(1) % 140000, len = (u64)st.arg(2) % 40;
        if (n > 255) c.probe("request-counter-over-255");
        if (n > 65535) c.probe("request-counter-over-65535");
        // the intermediate outputs are compared only now and then
        for (u64 i = 0; i < n; i++) {
          u8 o[40];
          if (s.kind == D_HMAC) hmac_drbg_generate((hmac_drbg_t *)s.ctx, o, len, nullptr, 0);
          else if (s.kind == D_HASH) hash_drbg_generate((hash_drbg_t *)s.ctx, o, len, nullptr, 0);
          else ctr_drbg_generate((ctr_drbg_t *)s.ctx, o, len, nullptr, 0);
          Bytes w = s.m->gen(len, {});
          CHECK(!memcmp(o, w.data(), len), "output-differs", "request %llu of a burst differs from the standard", (unsigned long long)i);
        }
        c.eval(n); c.step(n); c.sh(hash2(0x60 + (u64)s.kind, n));
        gen_check(s, 64, {}, 3, false, c);
        break;
      }
    }
  }
  for (auto &s : *sl) if (s.kind >= 0) gen_check(s, 32, {}, 5, false, c);
}
static i64 lens(Rng &r) { switch (r.below(6)) { case 0: return 0; case 1: return (i64)r.below(16); case 2: return r.pick<int>({16, 20, 28, 32, 40, 48, 55, 64, 111, 128, 512}) + r.range(-1, 1); case 3: return (i64)r.below(80); case 4: return r.pick<int>({512, 511, 7, 8, 23, 24}); default: return (i64)r.below(512); } }
static Plan gen(Rng &r, const Cfg &cfg, u64 index) {
  Plan p; int ns = (int)r.range(1, 3), n = (int)r.range(2, 18);
  auto aim = [&]() -> i64 { return r.chance(1, 2) ? (i64)r.range(1, 16) : 0; };
  auto initf = [&](int s) { p.add(OP_INIT, {s, (i64)r.below(DKINDS), (i64)r.below(1 << 12), lens(r), (i64)r.below(1 << 20), lens(r), aim()}); };
  for (int s = 0; s < ns; s++) initf(s);
  bool slow = r.chance(1, 400);
  for (int i = 0; i < n; i++) {
    int s = (int)r.below(ns);
    u64 k = r.below(20);
    if (k < 13) {
      i64 len = r.chance(1, 100) ? (i64)r.below(66000) : r.chance(1, 2) ? (i64)(r.pick<int>({16, 20, 28, 32, 48, 64}) * (int)r.below(6)) + r.range(-1, 1) : (i64)r.below(200);
      if (len < 0) len = 0;
      p.add(OP_GEN, {s, len, r.chance(1, 2) ? 0 : lens(r), (i64)r.below(1 << 20), (i64)r.below(128), aim()});
    } else if (k < 16) p.add(OP_RESEED, {s, lens(r), (i64)r.below(1 << 20), r.chance(1, 2) ? 0 : lens(r), aim()});
    else if (k < 17) p.add(OP_RNG, {s, (i64)r.below(300), (i64)r.below(128)});
    else if (k < 18) { if (r.chance(1, 12)) p.add(OP_BURST, {s, slow ? (i64)r.range(65530, 65600) : r.range(2, 600), (i64)r.below(40)}); }
    else initf(s);
  }
  return p;
}
static void init(const Cfg &) {}
const Scenario scenario = {"C07", ops, gen, exec, init, "histories with at least one output compared, distinct by generator, operations, request sizes modulo 64 and presence of inputs", 120};
