// C13: parties with key pairs under a history of conversions and tweaks, exchanging public keys over a faulty channel.
#include "world.h"
#include "emodels.h"
#include "input.h"
#include "der.h"
#include "groups.h"
extern "C" {
#include <torsion/ecc.h>
#include <torsion/dsa.h>
}
enum { OP_WORLD, OP_KEY, OP_ADD, OP_MUL, OP_NEG, OP_INV, OP_SUM, OP_FORM, OP_MAP, OP_GRIND, OP_DAMAGE, OP_XCHG, OP_CROSS };
static const char *const ops[] = {"world", "key", "tweak-add", "tweak-mul", "negate", "invert", "sum", "reencode", "map", "grind", "damaged-peer", "exchange", "cross", nullptr};
enum { F_W, F_B, F_E, F_R, F_M, F_D, NF };
static const char *const fam[] = {"weierstrass", "x-only", "edwards", "ristretto", "montgomery", "finite-field"};
static const int ncurve[] = {6, 6, 3, 3, 2, (int)(sizeof fgroups / sizeof *fgroups)};
static const int NS = 4, NFAULT = 20;

static wei_curve_t *wc[6]; static edwards_curve_t *ecv[3]; static mont_curve_t *mc[2];
static DGroup dg[32];
static void init(const Cfg &) {
  for (int i = 0; i < 6; i++) { mwei(i); wc[i] = wei_curve_create((wei_curve_id_t)i); }
  for (int i = 0; i < 3; i++) { med(i); ecv[i] = edwards_curve_create((edwards_curve_id_t)i); }
  for (int i = 0; i < 2; i++) { mmont(i); mc[i] = mont_curve_create((mont_curve_id_t)i); }
  for (int i = 0; i < ncurve[F_D]; i++) { dg[i].p = Z(fgroups[i].p, 16); dg[i].q = Z(fgroups[i].q, 16); dg[i].g = Z(fgroups[i].g, 16); }
}
// Whatever a call finds below its own stack frame is decided by the run's seed.
static u64 g_dirt;
__attribute__((noinline)) static void dirty() { volatile u8 b[24576]; u64 s = g_dirt; for (size_t i = 0; i < sizeof b; i += 8) { s = mix64(s); for (int j = 0; j < 8; j++) b[i + (size_t)j] = (u8)(s >> (8 * j)); } asm volatile("" ::"r"(b) : "memory"); }

struct Slot { bool live = false; Bytes priv, pub; Z k; Pt P; Z u; bool clamped = false; Bytes seed; };
static Slot sl[NS]; static int F, C;
static const MWei &mw() { return mwei(C); }
static const MEd &me() { return med(C); }
static const MMont &mm() { return mmont(C); }
static wei_curve_t *w() { return wc[C]; }
static edwards_curve_t *e() { return ecv[C]; }
static mont_curve_t *m() { return mc[C]; }
static std::string name() { return F == F_D ? "group " + std::to_string(C) : F == F_M ? mm().name : F == F_E || F == F_R ? me().name : mw().name; }
static Z order() { return F == F_D ? dg[C].q : F == F_M ? mm().n : F == F_E || F == F_R ? me().n : mw().n; }
static size_t ssize() { return F == F_D ? 32 : F == F_M ? mm().ss : F == F_E || F == F_R ? me().ss : mw().ss; }
static size_t psize() { return F == F_D ? 64 : F == F_M ? mm().fs : F == F_E ? me().as : F == F_R ? me().fs : F == F_B ? mw().fs : 1 + 2 * mw().fs; }
static bool le() { return F == F_E || F == F_R || F == F_M; }
static Bytes enc_s(const Z &k) { return le() ? b_le(k, ssize()) : b_be(k, ssize()); }
static Z dec_s(const Bytes &b) { return le() ? z_le(b.data(), b.size()) : z_be(b); }

static Z scalar(int how, u64 seed, const Z &own) {
  Z n = order(), full = (Z(1) << (unsigned)(8 * ssize()));
  switch (how) {
    case 1: return 0; case 2: return 1; case 3: return n - 1; case 4: return zmod(-own, n); case 5: return own; case 6: return n;
    case 7: return full - 1; case 8: return Z((unsigned long)(seed & 0xffff)); case 9: return Z(1) << (unsigned)(seed % (8 * ssize() - 1));
    case 10: return zmod(n - Z((unsigned long)(seed & 0xff)), n); case 11: return z_be(seed_bytes(seed, ssize()));
    case 12: return zinv(own == 0 ? Z(1) : own, n);
    default: return zmod(z_be(seed_bytes(seed, ssize() + 8)), n); }
}
static Bytes wpub(const Pt &P, int form) { Bytes b = mw().encode(P, form == 1); if (form == 2) b[0] = (u8)(6 | zodd(P.y)); return b; }
static Bytes mpub(const Slot &s, int form) { return F == F_W ? wpub(s.P, form) : F == F_B ? b_be(s.P.x, mw().fs) : F == F_E ? me().encode(s.P) : F == F_R ? rist_encode(me(), s.P) : b_le(s.u, mm().fs); }
// even representative of an x-only key
static void even(Slot &s) { if (zodd(s.P.y)) { s.P = mw().neg(s.P); s.k = zmod(-s.k, mw().n); } }

#define ST(what) c.eval(); (void)what
static void same(const Bytes &got, const Bytes &want, const char *cls, const char *what) {
  CHECK(got == want, cls, "%s on %s: %s, expected %s", what, name().c_str(), hex(got).c_str(), hex(want).c_str());
}
static void rc(int got, bool want, const char *what) { CHECK(got == (int)want, want ? "refused" : "accepted", "%s on %s returned %d, the definition says %d", what, name().c_str(), got, (int)want); }

static Bytes entropy(u64 seed) { return seed_bytes(hash2(seed, 0xe17), 32); }
static void setkey(Slot &s, Ctx &c, int how, u64 seed) {
  s = Slot(); s.live = true; g_dirt = seed; dirty();
  if (F == F_D) {
    const DGroup &g = dg[C]; Guard o(DSA_MAX_PRIV_SIZE + 16, seed); size_t n = 0; Bytes prm = der_group(g);
    Z x = how == 2 ? Z(1) : how == 3 ? Z(g.q - 1) : how == 8 ? Z(1 + (seed & 0xffff)) : Z(0);
    if (x == 0) { Bytes en = entropy(seed); rc(dsa_privkey_create(o.p(), &n, prm.data(), prm.size(), en.data()), true, "creating a key in the group"); o.check("key creation"); s.priv = o.get(n); DPriv d; CHECK(der_priv(s.priv, d) && d.g.p == g.p && d.g.q == g.q && d.g.g == g.g && d.x > 0 && d.x < g.q && d.y == zpow(g.g, d.x, g.p), "bad-key", "a generated key is not a key of its group"); s.k = d.x; }
    else { s.k = x; DPriv d; d.g = g; d.x = x; d.y = zpow(g.g, x, g.p); s.priv = der_priv(d); }
    s.u = zpow(g.g, s.k, g.p);
    Guard q(DSA_MAX_PUB_SIZE + 16, seed); int r = dsa_pubkey_create(q.p(), &n, s.priv.data(), s.priv.size()); q.check("public key creation");
    bool sane = s.u >= 2 && s.u < g.p - 1; rc(r, sane, "deriving the public key"); if (!sane) { s.live = false; return; }
    s.pub = q.get(n); same(s.pub, der_pub(g, s.u), "wrong-key", "public key"); return;
  }
  Bytes en = entropy(seed); Guard o(ssize() + 8, seed), q(psize() + 8, seed); size_t n = 0;
  if (F == F_M) {
    s.priv = how == 0 ? Bytes() : how == 1 ? Bytes(mm().ss, 0) : how == 2 ? Bytes(mm().ss, 0xff) : how == 3 ? b_le(mm().n - 1, mm().ss) : seed_bytes(seed, mm().ss);
    if (s.priv.empty()) { ecdh_privkey_generate(m(), o.p(), en.data()); o.check("key generation"); s.priv = o.get(mm().ss); }
    s.k = mm().clamp(s.priv); s.u = mm().ladder(s.k, mm().gx); s.clamped = true;
    ecdh_pubkey_create(m(), q.p(), s.priv.data()); s.pub = q.get(psize());
  } else if (F == F_E) {
    if (how < 6) { // through the seed
      s.seed = how == 1 ? Bytes(me().as, 0) : how == 2 ? Bytes(me().as, 0xff) : seed_bytes(seed, me().as);
      if (how == 0) { eddsa_privkey_generate(e(), o.p(), en.data()); s.seed = o.get(me().as); }
      Bytes pre; me().expand(s.seed, s.k, pre); s.clamped = true; Guard t(me().ss + 8); eddsa_privkey_convert(e(), t.p(), s.seed.data()); t.check("scalar conversion"); s.priv = t.get(me().ss);
      same(s.priv, b_le(s.k, me().ss), "wrong-scalar", "expanding a private key");
      eddsa_pubkey_create(e(), q.p(), s.seed.data());
    } else {
      s.priv = enc_s(scalar(how, seed, 1)); s.k = dec_s(s.priv); s.clamped = b_le(me().clamp(s.priv), me().ss) == s.priv;
      eddsa_pubkey_from_scalar(e(), q.p(), s.priv.data());
    }
    s.P = me().mulg(zmod(s.k, me().n)); s.pub = q.get(psize());
  } else if (F == F_R) {
    if (how == 0) { ristretto_privkey_generate(e(), o.p(), en.data()); s.priv = o.get(me().ss); s.k = dec_s(s.priv); CHECK(s.k > 0 && s.k < me().n, "bad-key", "generated scalar out of range"); }
    else if (how == 12) { Bytes un = seed_bytes(seed, me().ss * 2); ristretto_privkey_from_uniform(e(), o.p(), un.data()); s.priv = o.get(me().ss); s.k = zmod(z_le(un.data(), un.size()), me().n); same(s.priv, enc_s(s.k), "wrong-scalar", "scalar from uniform bytes"); }
    else { s.k = scalar(how, seed, 1); s.priv = enc_s(s.k); }
    int r = ristretto_pubkey_create(e(), q.p(), s.priv.data()); q.check("public key creation"); rc(r, s.k < me().n, "creating a public key"); rc(ristretto_privkey_verify(e(), s.priv.data()), s.k < me().n, "private key check");
    if (s.k >= me().n) { s.live = false; return; }
    s.P = me().mulg(s.k); s.pub = q.get(psize());
  } else {
    int form = (int)(seed % 2);
    if (how == 0) { (F == F_W ? ecdsa_privkey_generate : bip340_privkey_generate)(w(), o.p(), en.data()); s.priv = o.get(mw().ss); s.k = dec_s(s.priv); CHECK(s.k > 0 && s.k < mw().n, "bad-key", "generated scalar out of range"); }
    else if (how == 12) { s.k = scalar(0, seed, 1); Bytes b = b_be(s.k, mw().ss); if (seed & 4) b.insert(b.begin(), 1 + seed % 5, 0); else { size_t z = 0; s.k >>= (unsigned)(8 * (seed % mw().ss)); b = b_be(s.k, mw().ss); while (z < b.size() && !b[z]) z++; b.erase(b.begin(), b.begin() + (long)z); }
      int r = (F == F_W ? ecdsa_privkey_import : bip340_privkey_import)(w(), o.p(), b.data(), b.size()); rc(r, s.k > 0, "importing a private key"); if (s.k == 0) { s.live = false; return; } s.priv = o.get(mw().ss); same(s.priv, enc_s(s.k), "wrong-scalar", "imported private key"); }
    else { s.k = scalar(how, seed, 1); s.priv = enc_s(s.k); }
    bool ok = s.k > 0 && s.k < mw().n; int r = F == F_W ? ecdsa_pubkey_create(w(), q.p(), &n, s.priv.data(), form) : bip340_pubkey_create(w(), q.p(), s.priv.data()); q.check("public key creation"); rc(r, ok, "creating a public key");
    rc((F == F_W ? ecdsa_privkey_verify : bip340_privkey_verify)(w(), s.priv.data()), ok, "private key check");
    if (!ok) { s.live = false; return; }
    s.P = mw().mulg(s.k); if (F == F_W) CHECK(n == 1 + mw().fs * (form ? 1 : 2), "wrong-length", "public key of %zu bytes", n);
    s.pub = q.get(F == F_W ? n : psize()); same(s.pub, mpub(s, form), "wrong-key", "public key"); o.check("key generation"); return;
  }
  o.check("key generation"); q.check("public key creation"); same(s.pub, mpub(s, 0), "wrong-key", "public key");
}

// A peer value damaged or chosen by whoever controls the channel.
static Bytes damage(const Slot &s, const Slot &own, int f, u64 seed, const char **what) {
  Bytes b = s.pub; auto rb = [&](size_t k) { return seed_bytes(seed, k); }; *what = "bit-flip";
  auto flip = [&] { for (int i = 0; i <= (int)(seed >> 60 & 1); i++) b[(seed >> (8 * i)) % b.size()] ^= (u8)(1u << ((seed >> (20 + 5 * i)) & 7)); };
  if (f == 0) { *what = ""; return b; }
  if (f == 1 || f == 2) { flip(); return b; }
  if (f == 3) { *what = "all-zero"; return Bytes(b.size(), 0); }
  if (f == 4) { *what = "random-bytes"; Bytes r = rb(b.size()); if (F == F_W) r[0] = b[0]; return r; }
  if (f == 5) { *what = "all-ones"; Bytes r(b.size(), 0xff); if (F == F_W) r[0] = b[0]; return r; }
  if (F == F_W) { const MWei &E = mw(); size_t fs = E.fs; Z full = Z(1) << (unsigned)(8 * fs);
    auto raw = [&](int pre, const Z &x, const Z *y) { Bytes o{(u8)pre}; Bytes X = b_be(x, fs); o.insert(o.end(), X.begin(), X.end()); if (y) { Bytes Y = b_be(*y, fs); o.insert(o.end(), Y.begin(), Y.end()); } return o; };
    Z rx = zmod(z_be(rb(fs + 8)), E.p), ry;
    switch (f) {
      case 6: *what = "truncated"; b.resize(seed % b.size()); return b;
      case 7: *what = "extended"; b.resize(b.size() + 1 + seed % 40, (u8)(seed >> 9)); return b;
      case 8: *what = "off-curve"; ry = zmod(s.P.y + 1, E.p); return raw(4, s.P.x, &ry);
      case 9: *what = "invalid-curve"; ry = zmod(z_be(seed_bytes(seed + 1, fs + 8)), E.p); return raw((int)(4 + (seed & 1) * (2 + zodd(ry))), rx, &ry);
      case 10: { *what = "x-without-y"; Pt t; while (E.lift(rx, 0, t)) rx = zmod(rx + 1, E.p); return raw(2 + (int)(seed & 1), rx, nullptr); }
      case 11: { *what = "coordinate-out-of-range"; Pt t; Z x = 0; int tries = 0; Z sp = full - E.p; for (;;) { x = zmod(z_be(seed_bytes(seed + (u64)tries, fs)), sp < 1000000 ? sp : Z(1000000)); if (E.lift(x, (int)(seed & 1), t) || ++tries > 40) break; } if (tries > 40) { flip(); *what = "bit-flip"; return b; } Z xx = x + E.p; if (xx >= full) { xx = x; } return seed & 2 ? raw(2 + (int)(seed & 1), xx, nullptr) : raw(4, xx, &t.y); }
      case 12: { *what = "y-out-of-range"; Z yy = s.P.y + E.p; if (yy >= full) yy = s.P.y; return raw(4, s.P.x, &yy); }
      case 13: *what = "infinity"; return seed & 1 ? Bytes{0} : Bytes(1 + fs * (1 + (seed >> 1 & 1)), 0);
      case 14: *what = "prefix"; b[0] = (u8)(seed % 10); return b;
      case 15: { *what = "hybrid"; Bytes o = raw(6 + (int)(seed & 1), s.P.x, &s.P.y); return o; }
      case 16: *what = "swapped-coordinates"; return raw(4, s.P.y, &s.P.x);
      case 17: *what = "negated"; { Pt t = E.neg(s.P); return wpub(t, (int)(seed % 3)); }
      case 18: *what = "reflected"; return wpub(seed & 1 ? own.P : E.neg(own.P), (int)(seed % 3));
      default: { *what = "generator"; return wpub(seed & 1 ? E.g : E.neg(E.g), (int)(seed % 3)); } } }
  if (F == F_B) { const MWei &E = mw(); Z full = Z(1) << (unsigned)(8 * E.fs); Pt t; Z x = zmod(z_be(rb(E.fs + 8)), E.p);
    switch (f) { case 6: case 7: *what = "x-without-y"; while (E.lift(x, 0, t)) x = zmod(x + 1, E.p); return b_be(x, E.fs);
      case 8: case 9: *what = "coordinate-out-of-range"; { Z xx = E.p + Z((unsigned long)(seed % 8)); return b_be(xx < full ? xx : Z(full - 1), E.fs); }
      case 10: *what = "reflected"; return own.pub; case 11: *what = "generator"; return b_be(E.g.x, E.fs);
      default: flip(); return b; } }
  if (F == F_E) { const MEd &E = me(); Z y = zmod(z_be(rb(E.fs + 8)), E.p); Pt t;
    switch (f) { case 6: case 7: *what = "small-order"; return E.encode(E.tor[seed % E.tor.size()]);
      case 8: case 9: *what = "torsion-added"; return E.encode(E.add(s.P, E.tor[seed % E.tor.size()]));
      case 10: { *what = "coordinate-out-of-range"; Z sp = (Z(1) << (unsigned)E.fb) - E.p; Z v = E.p + Z((unsigned long)(seed % 40)) % sp; Bytes o = b_le(v, E.as); if (seed >> 40 & 1) o[E.as - 1] |= 0x80; return o; }
      case 11: { *what = "sign-of-zero"; Bytes o = E.encode(E.tor[seed % E.tor.size()]); o[E.as - 1] ^= 0x80; return o; }
      case 12: *what = "off-curve"; while (E.lift(y, 0, t)) y = zmod(y + 1, E.p); return b_le(y, E.as);
      case 13: *what = "sign"; b[E.as - 1] ^= 0x80; return b;
      case 14: *what = "reflected"; return own.pub;
      case 15: *what = "high-byte"; b[E.as - 1] ^= (u8)(1u << (seed % 8)); return b;
      default: flip(); return b; } }
  if (F == F_R) { const MEd &E = me(); Z v = z_le(b.data(), b.size());
    switch (f) { case 6: *what = "negative"; return b_le(zmod(-v, E.p), E.fs);
      case 7: case 8: { *what = "coordinate-out-of-range"; Z full = Z(1) << (unsigned)(8 * E.fs); Z x = v + E.p; if (x >= full || (seed & 1)) x = E.p + Z((unsigned long)(seed % 60)); if (x >= full) x = full - 1; return b_le(x, E.fs); }
      case 9: case 10: *what = "identity"; return Bytes(b.size(), 0);
      case 11: case 12: { *what = "not-a-square"; Z x; Pt t; for (int i = 0;; i++) { x = zmod(z_be(seed_bytes(seed + (u64)i, E.fs + 8)), E.p); if (zodd(x)) x = E.p - x; if (!rist_decode(E, b_le(x, E.fs), t)) break; } return b_le(x, E.fs); }
      case 13: *what = "one"; return b_le(Z(1 + (seed & 1)), E.fs); case 14: *what = "minus-one"; return b_le(E.p - 1 - (seed & 1), E.fs);
      case 15: *what = "reflected"; return own.pub; case 16: *what = "high-bits"; b[E.fs - 1] |= (u8)(0x80 >> (seed & 3)); return b;
      default: flip(); return b; } }
  if (F == F_M) { const MMont &E = mm(); Z full = Z(1) << (unsigned)(8 * E.fs); Z v = z_le(b.data(), b.size()), x = zmod(z_be(rb(E.fs + 8)), E.p); std::vector<Z> low{0, 1, E.p - 1, E.p, E.p + 1};
    if (C == 0) for (auto &t : med(0).tor) if (t.y != 1) low.push_back(zmod((1 + t.y) * zinv(zmod(1 - t.y, E.p), E.p), E.p));
    switch (f) { case 6: case 7: case 8: { *what = "small-order"; Z q = low[seed % low.size()]; if ((seed >> 30 & 1) && q + E.p < full) q += E.p; Bytes o = b_le(q, E.fs); if (C == 0 && (seed >> 31 & 1)) o[31] |= 0x80; return o; }
      case 9: case 10: *what = "twist"; while (E.on(x)) x = zmod(x + 1, E.p); return b_le(x, E.fs);
      case 11: *what = "coordinate-out-of-range"; { Z q = E.p + Z((unsigned long)(seed % 300)); if (q >= full) q = full - 1; return b_le(q, E.fs); }
      case 12: *what = "high-bit"; b[E.fs - 1] ^= 0x80; return b;
      case 13: *what = "torsion-added"; if (C == 0) { const MEd &G = med(0); Pt t = G.add(G.mulg(zmod(z_be(rb(40)), G.n)), G.tor[seed % G.tor.size()]); if (t.y == 1) return b; return b_le(zmod((1 + t.y) * zinv(zmod(1 - t.y, G.p), G.p), G.p), 32); } return b_le(x, E.fs);
      case 14: *what = "reflected"; return own.pub; default: (void)v; flip(); return b; } }
  const DGroup &g = dg[C]; DGroup h = g; Z y = s.u, r = zmod(z_be(rb((size_t)fgroups[C].pbits / 8 + 8)), g.p);
  switch (f) { case 6: *what = "small-order"; y = seed % 3 == 0 ? Z(1) : seed % 3 == 1 ? Z(g.p - 1) : Z(0); break;
    case 7: *what = "out-of-range"; y = s.u + g.p; break; case 8: *what = "outside-subgroup"; y = r; break;
    case 9: *what = "outside-subgroup"; y = g.p - s.u; break; case 10: *what = "modulus"; h.p = seed & 1 ? Z(g.p + 2) : Z(g.p ^ (Z(1) << (unsigned)(seed % (unsigned)fgroups[C].pbits))); break;
    case 11: *what = "subgroup-order"; h.q = seed & 1 ? Z(g.q + 2) : Z(g.q ^ (Z(1) << (unsigned)(seed % (unsigned)fgroups[C].qbits))); break;
    case 12: *what = "generator"; h.g = seed & 1 ? r : zpow(g.g, 2, g.p); break;
    case 13: { *what = "other-group"; int o = (int)(seed % (u64)ncurve[F_D]); h = dg[o]; y = zpow(h.g, zmod(r, h.q), h.p); break; }
    case 14: *what = "truncated"; b.resize(seed % b.size()); return b; case 15: *what = "extended"; b.resize(b.size() + 1 + seed % 40, (u8)(seed >> 9)); return b;
    case 16: *what = "padded-integer"; return der_pub(g, y, 1 + (int)(seed % 4)); case 17: *what = "long-length"; return der_pub(g, y, 5);
    case 18: *what = "private-key"; return own.priv; default: flip(); return b; }
  return der_pub(h, y);
}
// What the mathematics says about a peer value: usable, and the secret.
static bool expect(const Bytes &peer, const Slot &own, int form, Bytes &sec, bool *decodes) {
  Pt P; bool dec; *decodes = false;
  switch (F) {
    case F_W: dec = mw().decode(peer, P); *decodes = dec; if (!dec) return false; { Pt S = mw().mul(P, own.k); if (S.inf) return false; sec = mw().encode(S, form); return true; }
    case F_B: { Z x = z_be(peer); dec = x < mw().p && mw().lift(x, 0, P); *decodes = dec; if (!dec) return false; Pt S = mw().mul(P, own.k); if (S.inf) return false; sec = b_be(S.x, mw().fs); return true; }
    case F_E: { dec = me().decode(peer, P); *decodes = dec; if (!dec) return false; Pt S = me().mul(P, me().clamp(own.priv)); if (me().iszero(S)) return false; sec = me().encode(S); return true; }
    case F_R: { dec = rist_decode(me(), peer, P); *decodes = dec; if (!dec) return false; Pt S = me().mul(P, own.k); sec = rist_encode(me(), S); for (u8 b : sec) if (b) return true; return false; }
    case F_M: { Bytes q = peer; if (mm().fb & 7) q[mm().fs - 1] &= (u8)((1u << (mm().fb & 7)) - 1); Z u = zmod(z_le(q.data(), q.size()), mm().p); *decodes = mm().on(u); Z r = mm().ladder(own.k, u); sec = b_le(r, mm().fs); return r != 0; }
    default: { DGroup h; Z y; const DGroup &g = dg[C]; if (!der_pub(peer, h, y)) return false; bool match = h.p == g.p && h.q == g.q && h.g == g.g; if (!match) return false; bool ok = y >= 2 && y < g.p - 1 && zpow(y, g.q, g.p) == 1; *decodes = ok; if (!ok) return false; sec = b_be(zpow(y, own.k, g.p), (mpz_sizeinbase(g.p.get_mpz_t(), 2) + 7) / 8); return true; } }
}
static int derive(const Bytes &peer, const Slot &own, int form, u64 seed, Bytes &sec) {
  Input in(peer, seed % 8); Guard o(F == F_D ? DSA_MAX_SIZE + 8 : psize() + 8, seed); size_t n = 0; int r; g_dirt = seed; dirty();
  switch (F) {
    case F_W: r = ecdsa_derive(w(), o.p(), &n, in.p, in.n, own.priv.data(), form); break;
    case F_B: r = bip340_derive(w(), o.p(), in.p, own.priv.data()); n = mw().fs; break;
    case F_E: if (!own.seed.empty() && (seed & 1)) r = eddsa_derive(e(), o.p(), in.p, own.seed.data()); else r = eddsa_derive_with_scalar(e(), o.p(), in.p, own.priv.data()); n = me().as; break;
    case F_R: r = ristretto_derive(e(), o.p(), in.p, own.priv.data()); n = me().fs; break;
    case F_M: r = ecdh_derive(m(), o.p(), in.p, own.priv.data()); n = mm().fs; break;
    default: r = dsa_derive(o.p(), &n, in.p, in.n, own.priv.data(), own.priv.size()); }
  in.check("key agreement"); o.check("key agreement"); if (r) sec = o.get(n); else sec.clear();
  return r;
}
static int take1(const unsigned char *pub, void *arg) { u64 *k = (u64 *)arg; return ((pub[3] ^ pub[9]) & k[0]) == k[1] || ++k[2] > 60; }
static int take2(const unsigned char *pub, size_t, void *arg) { return take1(pub, arg); }

// An operation on both halves of a slot; `t` is the other operand.
static void twofold(Ctx &c, Slot &s, int op, int how, u64 seed, const Slot *o) {
  if (F == F_M || F == F_D) return;
  bool alias = seed >> 33 & 1; int form = (int)(seed >> 34 & 1); g_dirt = seed; dirty();
  Z n = order(), t = op == OP_SUM ? o->k : scalar(how, seed, s.k); Bytes tb = enc_s(t); bool tok = t < n;
  Guard pg(ssize() + 8, seed), qg(psize() + 8, seed); memcpy(pg.p(), s.priv.data(), s.priv.size()); memcpy(qg.p(), s.pub.data(), s.pub.size());
  const u8 *pi = alias ? pg.p() : s.priv.data(), *qi = alias ? qg.p() : s.pub.data(); size_t ql = 0; int r1 = 1, r2 = 1; bool e1 = true, e2 = true; Slot x = s; int neg = 0; const char *what = ops[op];
  switch (F) {
    case F_W: { const MWei &E = mw();
      switch (op) {
        case OP_ADD: r1 = ecdsa_privkey_tweak_add(w(), pg.p(), pi, tb.data()); r2 = ecdsa_pubkey_tweak_add(w(), qg.p(), &ql, qi, s.pub.size(), tb.data(), form); x.k = zmod(s.k + t, n); e1 = e2 = tok && x.k != 0; break;
        case OP_MUL: r1 = ecdsa_privkey_tweak_mul(w(), pg.p(), pi, tb.data()); r2 = ecdsa_pubkey_tweak_mul(w(), qg.p(), &ql, qi, s.pub.size(), tb.data(), form); x.k = zmod(s.k * t, n); e1 = e2 = tok && x.k != 0; break;
        case OP_NEG: r1 = ecdsa_privkey_negate(w(), pg.p(), pi); r2 = ecdsa_pubkey_negate(w(), qg.p(), &ql, qi, s.pub.size(), form); x.k = zmod(-s.k, n); break;
        case OP_INV: r1 = ecdsa_privkey_invert(w(), pg.p(), pi); x.k = zinv(s.k, n); r2 = ecdsa_pubkey_create(w(), qg.p(), &ql, r1 ? pg.p() : s.priv.data(), form); break;
        default: { r1 = ecdsa_privkey_tweak_add(w(), pg.p(), pi, o->priv.data()); x.k = zmod(s.k + o->k, n); e1 = e2 = x.k != 0;
          if (seed & 1) r2 = ecdsa_pubkey_add(w(), qg.p(), &ql, qi, s.pub.size(), o->pub.data(), o->pub.size(), form);
          else { const u8 *pp[3] = {qi, o->pub.data(), o->pub.data()}; size_t pl[3] = {s.pub.size(), o->pub.size(), o->pub.size()}; r2 = ecdsa_pubkey_combine(w(), qg.p(), &ql, pp, pl, 2, form); } } }
      x.P = E.mulg(x.k); break; }
    case F_B: { const MWei &E = mw(); Slot v = s; even(v); // public half stands for the even point
      switch (op) {
        case OP_ADD: r1 = bip340_privkey_tweak_add(w(), pg.p(), pi, tb.data()); r2 = bip340_pubkey_tweak_add(w(), qg.p(), &neg, qi, tb.data()); x.k = zmod(v.k + t, n); e1 = e2 = tok && x.k != 0; break;
        case OP_MUL: r1 = bip340_privkey_tweak_mul(w(), pg.p(), pi, tb.data()); r2 = bip340_pubkey_tweak_mul(w(), qg.p(), &neg, qi, tb.data()); x.k = zmod(s.k * t, n); e1 = e2 = tok && x.k != 0; break;
        case OP_INV: case OP_NEG: r1 = bip340_privkey_invert(w(), pg.p(), pi); x.k = zinv(s.k, n); r2 = bip340_pubkey_create(w(), qg.p(), r1 ? pg.p() : s.priv.data()); break;
        default: { Slot u = *o; even(u); // private half: negate as needed, then add
          Bytes ub = enc_s(u.k); r1 = bip340_privkey_tweak_add(w(), pg.p(), pi, ub.data()); x.k = zmod(v.k + u.k, n); e1 = e2 = x.k != 0;
          if (seed & 1) r2 = bip340_pubkey_add(w(), qg.p(), qi, o->pub.data()); else { const u8 *pp[2] = {qi, o->pub.data()}; r2 = bip340_pubkey_combine(w(), qg.p(), pp, 2); } } }
      x.P = E.mulg(x.k); ql = mw().fs;
      if ((op == OP_ADD || op == OP_MUL) && e2 && r2) { Pt Y = op == OP_ADD ? x.P : E.mulg(zmod(v.k * t, n)); CHECK(neg == (int)zodd(Y.y), "wrong-parity", "%s reports negated=%d, the point's parity is %d", what, neg, (int)zodd(Y.y));
        auto chk = op == OP_ADD ? bip340_pubkey_tweak_add_check : bip340_pubkey_tweak_mul_check; Bytes ex = qg.get(ql), bad = ex; bad[seed % ex.size()] ^= (u8)(1u << (seed >> 20 & 7));
        CHECK(chk(w(), s.pub.data(), tb.data(), ex.data(), neg) == 1 && chk(w(), s.pub.data(), tb.data(), ex.data(), !neg) == 0 && chk(w(), s.pub.data(), tb.data(), bad.data(), neg) == 0, "tweak-check", "the tweak check does not tell the tweaked key from others"); }
      break; }
    case F_E: { const MEd &E = me(); ql = E.as; x.seed.clear();
      switch (op) {
        case OP_ADD: eddsa_scalar_tweak_add(e(), pg.p(), pi, tb.data()); r2 = eddsa_pubkey_tweak_add(e(), qg.p(), qi, tb.data()); x.k = zmod(s.k + t, n); x.P = E.add(s.P, E.mulg(zmod(t, n))); break;
        case OP_MUL: eddsa_scalar_tweak_mul(e(), pg.p(), pi, tb.data()); r2 = eddsa_pubkey_tweak_mul(e(), qg.p(), qi, tb.data()); x.k = zmod(s.k * t, n); x.P = E.mul(s.P, t); break;
        case OP_NEG: eddsa_scalar_negate(e(), pg.p(), pi); r2 = eddsa_pubkey_negate(e(), qg.p(), qi); x.k = zmod(-s.k, n); x.P = E.neg(s.P); break;
        case OP_INV: { eddsa_scalar_invert(e(), pg.p(), pi); Z k = zmod(s.k, n); x.k = k == 0 ? Z(0) : zinv(k, n); eddsa_pubkey_from_scalar(e(), qg.p(), pg.p()); x.P = E.mulg(x.k); break; }
        default: eddsa_scalar_tweak_add(e(), pg.p(), pi, o->priv.data()); x.k = zmod(s.k + o->k, n); x.P = E.add(s.P, o->P);
          if (seed & 1) r2 = eddsa_pubkey_add(e(), qg.p(), qi, o->pub.data()); else { const u8 *pp[2] = {qi, o->pub.data()}; r2 = eddsa_pubkey_combine(e(), qg.p(), pp, 2); } }
      x.clamped = b_le(E.clamp(enc_s(x.k)), E.ss) == enc_s(x.k); break; }
    case F_R: { const MEd &E = me(); ql = E.fs;
      switch (op) {
        case OP_ADD: r1 = ristretto_privkey_tweak_add(e(), pg.p(), pi, tb.data()); r2 = ristretto_pubkey_tweak_add(e(), qg.p(), qi, tb.data()); x.k = zmod(s.k + t, n); e1 = e2 = tok; break;
        case OP_MUL: r1 = ristretto_privkey_tweak_mul(e(), pg.p(), pi, tb.data()); r2 = ristretto_pubkey_tweak_mul(e(), qg.p(), qi, tb.data()); x.k = zmod(s.k * t, n); e1 = e2 = tok && x.k != 0; break;
        case OP_NEG: r1 = ristretto_privkey_negate(e(), pg.p(), pi); r2 = ristretto_pubkey_negate(e(), qg.p(), qi); x.k = zmod(-s.k, n); break;
        case OP_INV: r1 = ristretto_privkey_invert(e(), pg.p(), pi); x.k = s.k == 0 ? Z(0) : zinv(s.k, n); r2 = ristretto_pubkey_create(e(), qg.p(), pg.p()); break;
        default: r1 = ristretto_privkey_tweak_add(e(), pg.p(), pi, o->priv.data()); x.k = zmod(s.k + o->k, n);
          if (seed & 1) r2 = ristretto_pubkey_add(e(), qg.p(), qi, o->pub.data()); else { const u8 *pp[2] = {qi, o->pub.data()}; r2 = ristretto_pubkey_combine(e(), qg.p(), pp, 2); } }
      x.P = E.mulg(x.k); break; } }
  pg.check(what); qg.check(what); c.eval(2); rc(r1, e1, (std::string(what) + ", private half,").c_str()); rc(r2, e2, (std::string(what) + ", public half,").c_str());
  if (!e1 || !e2) { c.probe("operation-must-fail"); return; }
  if (t == 0 || zmod(t, n) == 0) c.probe("zero-operand");
  x.priv = pg.get(ssize()); x.pub = qg.get(ql); same(x.priv, enc_s(x.k), "wrong-scalar", (std::string(what) + ", private half").c_str());
  same(x.pub, mpub(x, form), "wrong-key", (std::string(what) + ", public half").c_str());
  s = x;
}
static void reencode(Ctx &c, Slot &s, int how, u64 seed) {
  Guard a(psize() + 8, seed), b(psize() + 8, seed), o(F == F_D ? DSA_MAX_PRIV_SIZE + 16 : psize() + 8, seed); size_t n = 0; c.eval(); g_dirt = seed; dirty();
  size_t lead = seed % 4; auto padded = [&](const u8 *p, size_t len) { Bytes v(p, p + len); if (seed >> 8 & 1) { if (le()) v.resize(len + lead, 0); else v.insert(v.begin(), lead, 0); } else if (seed >> 9 & 1) { if (le()) while (v.size() > 1 && !v.back()) v.pop_back(); else while (v.size() > 1 && !v[0]) v.erase(v.begin()); } return v; };
  switch (F) {
    case F_W: { int form = (int)(seed >> 10 & 1); size_t fs = mw().fs;
      if (how & 1) { rc(ecdsa_pubkey_export(w(), a.p(), b.p(), s.pub.data(), s.pub.size()), true, "exporting coordinates"); same(a.get(fs), b_be(s.P.x, fs), "wrong-key", "x coordinate"); same(b.get(fs), b_be(s.P.y, fs), "wrong-key", "y coordinate");
        Bytes X = padded(a.p(), fs), Y = padded(b.p(), fs); bool hy = seed >> 11 & 1; rc(ecdsa_pubkey_import(w(), o.p(), &n, X.data(), X.size(), Y.data(), hy ? Y.size() : 0, (int)zodd(s.P.y), form), true, "importing coordinates"); }
      else { Bytes in = s.pub; if (seed >> 12 & 1) in = wpub(s.P, 2); rc(ecdsa_pubkey_convert(w(), o.p(), &n, in.data(), in.size(), form), true, "converting a public key"); }
      s.pub = o.get(n); same(s.pub, mpub(s, form), "wrong-key", "re-encoded key"); break; }
    case F_B: { size_t fs = mw().fs; Slot v = s; even(v);
      if (how & 1) { Guard d(mw().ss + 8, seed); rc(bip340_privkey_export(w(), d.p(), a.p(), b.p(), s.priv.data()), true, "exporting a key pair"); d.check("key export"); same(d.get(mw().ss), enc_s(v.k), "wrong-scalar", "exported scalar"); s.priv = d.get(mw().ss); s.k = v.k; s.P = v.P; }
      else rc(bip340_pubkey_export(w(), a.p(), b.p(), s.pub.data()), true, "exporting coordinates");
      same(a.get(fs), b_be(v.P.x, fs), "wrong-key", "x coordinate"); same(b.get(fs), b_be(v.P.y, fs), "wrong-key", "y coordinate"); Bytes X = padded(a.p(), fs), Y = padded(b.p(), fs); bool hy = seed >> 11 & 1;
      rc(bip340_pubkey_import(w(), o.p(), X.data(), X.size(), Y.data(), hy ? Y.size() : 0), true, "importing coordinates"); same(o.get(fs), s.pub, "wrong-key", "re-encoded key"); break; }
    case F_E: { size_t fs = me().fs; rc(eddsa_pubkey_export(e(), a.p(), b.p(), s.pub.data()), true, "exporting coordinates"); same(a.get(fs), b_le(s.P.x, fs), "wrong-key", "x coordinate"); same(b.get(fs), b_le(s.P.y, fs), "wrong-key", "y coordinate");
      Bytes X = padded(a.p(), fs), Y = padded(b.p(), fs); int h = (int)(seed >> 11) % 3; rc(eddsa_pubkey_import(e(), o.p(), X.data(), h == 1 ? 0 : X.size(), Y.data(), h == 2 ? 0 : Y.size(), h == 2 ? (int)zodd(s.P.y) : (int)zodd(s.P.x)), true, "importing coordinates"); same(o.get(me().as), s.pub, "wrong-key", "re-encoded key");
      if (!s.seed.empty()) { Guard t(me().ss + 8), p(me().as + 8); eddsa_privkey_expand(e(), t.p(), p.p(), s.seed.data()); t.check("expand"); p.check("expand"); same(t.get(me().ss), s.priv, "wrong-scalar", "expanded scalar"); }
      CHECK(eddsa_pubkey_is_infinity(e(), s.pub.data()) == (int)me().iszero(s.P), "wrong-class", "identity test"); CHECK(eddsa_scalar_is_zero(e(), s.priv.data()) == (int)(zmod(s.k, me().n) == 0), "wrong-class", "zero test"); break; }
    case F_R: { rc(ristretto_privkey_export(e(), o.p(), s.priv.data()), true, "exporting a scalar"); Bytes X = padded(o.p(), me().ss); rc(ristretto_privkey_import(e(), a.p(), X.data(), X.size()), true, "importing a scalar"); same(a.get(me().ss), s.priv, "wrong-scalar", "re-encoded scalar");
      CHECK(ristretto_pubkey_is_infinity(e(), s.pub.data()) == (int)(s.k == 0), "wrong-class", "identity test"); CHECK(ristretto_privkey_is_zero(e(), s.priv.data()) == (int)(s.k == 0), "wrong-class", "zero test"); break; }
    case F_M: { size_t fs = mm().fs; int sign = (int)(seed >> 10) % 3 - 1; int r = ecdh_pubkey_export(m(), a.p(), b.p(), s.pub.data(), sign); rc(r, true, "exporting coordinates"); same(a.get(fs), b_le(s.u, fs), "wrong-key", "coordinate");
      Z y = z_le(b.p(), fs); Z lhs = zmod(y * y, mm().p), rhs = zmod(s.u * s.u * s.u + mm().A * s.u * s.u + s.u, mm().p); CHECK(lhs == rhs && y < mm().p && (sign < 0 || (int)zodd(y) == sign), "wrong-key", "the exported point is not on the curve or has the wrong sign");
      Bytes X = padded(a.p(), fs), Y = padded(b.p(), fs); rc(ecdh_pubkey_import(m(), o.p(), X.data(), X.size(), Y.data(), seed >> 13 & 1 ? Y.size() : 0), true, "importing coordinates"); same(o.get(fs), s.pub, "wrong-key", "re-encoded key");
      rc(ecdh_privkey_export(m(), b.p(), s.priv.data()), true, "exporting a private key"); Bytes K = padded(b.p(), mm().ss); rc(ecdh_privkey_import(m(), a.p(), K.data(), K.size()), true, "importing a private key"); same(a.get(mm().ss), s.priv, "wrong-scalar", "re-encoded private key"); break; }
    default: { Guard q(DSA_MAX_PRIV_SIZE + 16, seed); size_t k = 0;
      if (how & 1) { rc(dsa_privkey_export(o.p(), &n, s.priv.data(), s.priv.size()), true, "exporting a private key"); Bytes d = o.get(n); if (seed >> 14 & 1) { DPriv v; der_priv(s.priv, v); v.y = 0; d = dumb({v.g.p, v.g.q, v.g.g, v.y, v.x}); } rc(dsa_privkey_import(q.p(), &k, d.data(), d.size()), true, "importing a private key"); same(q.get(k), s.priv, "wrong-key", "re-encoded private key"); }
      else { rc(dsa_pubkey_export(o.p(), &n, s.pub.data(), s.pub.size()), true, "exporting a public key"); same(o.get(n), dumb({dg[C].p, dg[C].q, dg[C].g, s.u}), "wrong-key", "exported numbers"); rc(dsa_pubkey_import(q.p(), &k, o.p(), n), true, "importing a public key"); same(q.get(k), s.pub, "wrong-key", "re-encoded public key"); }
      o.check("export"); q.check("import");
      CHECK(dsa_pubkey_verify(s.pub.data(), s.pub.size()) == 1 && dsa_privkey_verify(s.priv.data(), s.priv.size()) == 1, "refused", "a good key pair fails validation in group %d", C);
      Guard pr(DSA_MAX_PARAMS_SIZE + 16); const Bytes &src = seed & 2 ? s.pub : s.priv; rc(dsa_params_create(pr.p(), &n, src.data(), src.size()), true, "extracting parameters"); pr.check("parameters"); same(pr.get(n), der_group(dg[C]), "wrong-key", "extracted parameters"); } }
  a.check("re-encoding"); b.check("re-encoding"); o.check("re-encoding");
}
static void maps(Ctx &c, Slot &s, int how, u64 seed) {
  if (F == F_D || (F == F_E && me().iszero(s.P))) return; // the map's documented assumptions leave out torsion points
  size_t fs = F == F_M ? mm().fs : F == F_E || F == F_R ? me().fs : mw().fs; Guard a(2 * fs + 8, seed), o(psize() + 8, seed); size_t n = 0; Bytes en = entropy(seed); int r; g_dirt = seed; dirty();
  auto back = [&](const char *what, bool exact) { o.check(what); a.check(what); c.eval();
    if (exact) same(o.get(F == F_W ? n : psize()), F == F_W ? mpub(s, (int)(seed & 1)) : s.pub, "wrong-key", what);
    else if (F == F_E) { Pt P; CHECK(me().decode(o.get(me().as), P) && me().mul(P, me().h) == me().mul(s.P, me().h), "wrong-key", "%s leaves the key's coset", what); } };
  if (how & 1) {
    unsigned hint = (unsigned)(seed >> 12);  if (how & 2) hint &= 0xff0f;
    switch (F) { case F_W: r = ecdsa_pubkey_to_uniform(w(), a.p(), s.pub.data(), s.pub.size(), hint); if (r) ecdsa_pubkey_from_uniform(w(), o.p(), &n, a.p(), (int)(seed & 1)); break;
      case F_B: r = bip340_pubkey_to_uniform(w(), a.p(), s.pub.data(), hint); if (r) bip340_pubkey_from_uniform(w(), o.p(), a.p()); break;
      case F_E: r = eddsa_pubkey_to_uniform(e(), a.p(), s.pub.data(), hint); if (r) eddsa_pubkey_from_uniform(e(), o.p(), a.p()); break;
      case F_R: r = ristretto_pubkey_to_uniform(e(), a.p(), s.pub.data(), hint); if (r) ristretto_pubkey_from_uniform(e(), o.p(), a.p()); break;
      default: r = ecdh_pubkey_to_uniform(m(), a.p(), s.pub.data(), hint); if (r) ecdh_pubkey_from_uniform(m(), o.p(), a.p()); }
    c.probe(r ? "uniform-preimage" : "no-preimage"); c.sh((u64)r); if (r) back("mapping to uniform bytes and back", F != F_M && (F != F_E || (how & 2)));
    return;
  }
  unsigned sub = how & 2 ? 0 : (unsigned)(seed >> 8 & 15); if (F == F_E || F == F_M) sub %= 4 + 4 * (F == F_E ? me().h == 8 : C == 0); else sub = 0;
  switch (F) { case F_W: r = ecdsa_pubkey_to_hash(w(), a.p(), s.pub.data(), s.pub.size(), sub, en.data()); if (r) r = ecdsa_pubkey_from_hash(w(), o.p(), &n, a.p(), (int)(seed & 1)); break;
    case F_B: r = bip340_pubkey_to_hash(w(), a.p(), s.pub.data(), sub, en.data()); if (r) r = bip340_pubkey_from_hash(w(), o.p(), a.p()); break;
    case F_E: r = eddsa_pubkey_to_hash(e(), a.p(), s.pub.data(), sub, en.data()); if (r) eddsa_pubkey_from_hash(e(), o.p(), a.p(), 0); break;
    case F_R: r = ristretto_pubkey_to_hash(e(), a.p(), s.pub.data(), en.data()); if (r) ristretto_pubkey_from_hash(e(), o.p(), a.p()); break;
    default: r = ecdh_pubkey_to_hash(m(), a.p(), s.pub.data(), sub, en.data()); if (r) r = ecdh_pubkey_from_hash(m(), o.p(), a.p(), 0); }
  rc(r, true, "mapping a key to hash bytes and back"); back("mapping to hash bytes and back", F != F_M && (F != F_E || sub == 0)); c.probe("hash-preimage");
}
static void grind(Ctx &c, Slot &s, u64 seed) {
  if (F == F_D || F == F_M || F == F_E) return;
  u64 k[3] = {seed & 7, 0, 0}; k[1] = (seed >> 3) & k[0]; Guard t(ssize() + 8, seed); int r; Slot x = s; g_dirt = seed; dirty();
  switch (F) { case F_W: r = ecdsa_pubkey_grind(w(), t.p(), s.pub.data(), s.pub.size(), take2, k); break; case F_B: r = bip340_pubkey_grind(w(), t.p(), s.pub.data(), take1, k); break; default: r = ristretto_pubkey_grind(e(), t.p(), s.pub.data(), take1, k); }
  t.check("grinding"); rc(r, true, "grinding a key"); Z tw = dec_s(t.get(ssize())); c.eval();
  CHECK(tw > 0 && tw <= 62, "wrong-tweak", "grinding %s stops after at most 61 candidates but reports the tweak %s", name().c_str(), tw.get_str(16).c_str());
  // the tweak leads both halves to the key that was shown
  Bytes tb = t.get(ssize()); Guard o(psize() + 8, seed); size_t n = 0; int ng = 0;
  switch (F) { case F_W: r = ecdsa_pubkey_tweak_add(w(), o.p(), &n, s.pub.data(), s.pub.size(), tb.data(), s.pub.size() == 1 + mw().fs); break; case F_B: r = bip340_pubkey_tweak_add(w(), o.p(), &ng, s.pub.data(), tb.data()); break; default: r = ristretto_pubkey_tweak_add(e(), o.p(), s.pub.data(), tb.data()); }
  o.check("tweaking"); if (r) { u64 q[3] = {k[0], k[1], 0}; CHECK(k[2] > 60 || take1(o.p(), q), "wrong-tweak", "the tweak does not lead to an accepted key"); }
  if (seed >> 20 & 1) { // private form
    Bytes en = entropy(seed); u64 q[3] = {k[0], k[1], 0}; Guard p(ssize() + 8, seed); dirty();
    switch (F) { case F_W: ecdsa_privkey_grind(w(), p.p(), en.data(), (int)(seed >> 21 & 1), take2, q); break; case F_B: bip340_privkey_grind(w(), p.p(), en.data(), take1, q); break; default: ristretto_privkey_grind(e(), p.p(), en.data(), take1, q); }
    p.check("grinding"); Bytes pb = p.get(ssize()); Z kk = dec_s(pb); CHECK(kk < order() && kk > 0, "bad-key", "ground private key out of range"); size_t l = 0;
    switch (F) { case F_W: r = ecdsa_pubkey_create(w(), o.p(), &l, pb.data(), (int)(seed >> 21 & 1)); break; case F_B: r = bip340_pubkey_create(w(), o.p(), pb.data()); break; default: r = ristretto_pubkey_create(e(), o.p(), pb.data()); }
    rc(r, true, "creating the ground key"); u64 z[3] = {k[0], k[1], 0}; CHECK(q[2] > 60 || take1(o.p(), z), "wrong-key", "the ground private key does not have an accepted public key"); c.probe("private-grind"); }
  c.probe("grind");
}
static void damaged(Ctx &c, const Slot &s, const Slot &own, int f, u64 seed) {
  const char *what; Bytes b = damage(s, own, f, seed, &what); if (*what) c.fault(what); Bytes sec; bool dec; expect(b, own, 0, sec, &dec);
  Input in(b, seed % 8); Guard o(F == F_D ? DSA_MAX_PRIV_SIZE + 16 : 2 * psize() + 8, seed), q(psize() + 8, seed); size_t n = 0; Bytes tb = F == F_D ? Bytes() : enc_s(scalar(0, seed, 1)); c.eval(4); g_dirt = seed; dirty();
  std::string w8 = std::string("a peer value (") + what + ")";
  switch (F) {
    case F_W: rc(ecdsa_pubkey_verify(w(), in.p, in.n), dec, ("checking " + w8).c_str()); rc(ecdsa_pubkey_convert(w(), o.p(), &n, in.p, in.n, 0), dec, ("converting " + w8).c_str()); rc(ecdsa_pubkey_export(w(), o.p(), q.p(), in.p, in.n), dec, ("exporting " + w8).c_str());
      { Pt P; Pt R; bool ok = dec && mw().decode(b, P) && !(R = mw().add(P, mw().mulg(z_be(tb)))).inf; rc(ecdsa_pubkey_tweak_add(w(), o.p(), &n, in.p, in.n, tb.data(), 0), ok, ("tweaking " + w8).c_str()); if (ok) same(o.get(n), mw().encode(R, false), "wrong-key", "tweaked key"); }
      rc(ecdsa_pubkey_negate(w(), o.p(), &n, in.p, in.n, 1), dec, ("negating " + w8).c_str()); break;
    case F_B: rc(bip340_pubkey_verify(w(), in.p), dec, ("checking " + w8).c_str()); rc(bip340_pubkey_export(w(), o.p(), q.p(), in.p), dec, ("exporting " + w8).c_str());
      { Pt P, R; bool ok = dec && mw().lift(z_be(b), 0, P) && !(R = mw().add(P, mw().mulg(z_be(tb)))).inf; int ng; rc(bip340_pubkey_tweak_add(w(), o.p(), &ng, in.p, tb.data()), ok, ("tweaking " + w8).c_str()); if (ok) same(o.get(mw().fs), b_be(R.x, mw().fs), "wrong-key", "tweaked key"); } break;
    case F_E: { Pt P; rc(eddsa_pubkey_verify(e(), in.p), dec, ("checking " + w8).c_str()); rc(eddsa_pubkey_export(e(), o.p(), q.p(), in.p), dec, ("exporting " + w8).c_str());
      bool d = me().decode(b, P); bool small = d && !me().iszero(P) && me().iszero(me().mul(P, me().h)), tors = d && !me().iszero(me().mul(P, me().n));
      CHECK(eddsa_pubkey_is_small(e(), in.p) == (int)small, "wrong-class", "small-order test of %s on %s: expected %d", w8.c_str(), name().c_str(), (int)small); CHECK(eddsa_pubkey_has_torsion(e(), in.p) == (int)tors, "wrong-class", "torsion test of %s on %s: expected %d", w8.c_str(), name().c_str(), (int)tors);
      rc(eddsa_pubkey_tweak_add(e(), o.p(), in.p, tb.data()), dec, ("tweaking " + w8).c_str()); if (dec) same(o.get(me().as), me().encode(me().add(P, me().mulg(zmod(dec_s(tb), me().n)))), "wrong-key", "tweaked key");
      Bytes rt = seed_bytes(seed, me().ss); rc(eddsa_pubkey_tweak_mul(e(), o.p(), in.p, rt.data()), dec, ("multiplying " + w8).c_str()); if (dec) same(o.get(me().as), me().encode(me().mul(P, dec_s(rt))), "wrong-key", "multiplied key"); break; }
    case F_R: { Pt P; rc(ristretto_pubkey_verify(e(), in.p), dec, ("checking " + w8).c_str()); rc(ristretto_pubkey_negate(e(), o.p(), in.p), dec, ("negating " + w8).c_str()); if (dec && rist_decode(me(), b, P)) { same(o.get(me().fs), rist_encode(me(), me().neg(P)), "wrong-key", "negated key"); }
      rc(ristretto_pubkey_tweak_add(e(), o.p(), in.p, tb.data()), dec, ("tweaking " + w8).c_str()); if (dec) same(o.get(me().fs), rist_encode(me(), me().add(P, me().mulg(dec_s(tb)))), "wrong-key", "tweaked key"); break; }
    case F_M: { rc(ecdh_pubkey_verify(m(), in.p), dec, ("checking " + w8).c_str()); rc(ecdh_pubkey_export(m(), o.p(), q.p(), in.p, -1), dec, ("exporting " + w8).c_str());
      Bytes k = b; if (mm().fb & 7) k[mm().fs - 1] &= (u8)((1u << (mm().fb & 7)) - 1); Z u = zmod(z_le(k.data(), k.size()), mm().p); bool small = dec && mm().ladder(mm().h, u) == 0, inf = false; mm().ladder(mm().n, u, &inf); bool tors = dec && (!inf || u == 0);
      CHECK(ecdh_pubkey_is_small(m(), in.p) == (int)small, "wrong-class", "small-order test of %s on %s: expected %d", w8.c_str(), name().c_str(), (int)small); CHECK(ecdh_pubkey_has_torsion(m(), in.p) == (int)tors, "wrong-class", "torsion test of %s (%s) on %s: expected %d", w8.c_str(), hex(b).c_str(), name().c_str(), (int)tors); break; }
    default: { DGroup h; Z y; bool ok = der_pub(b, h, y) && group_sane(h); bool sane = ok && y >= 2 && y < h.p - 1; bool good = sane && zpow(h.g, h.q, h.p) == 1 && zpow(y, h.q, h.p) == 1;
      rc(dsa_pubkey_verify(in.p, in.n), good, ("checking " + w8).c_str()); rc(dsa_pubkey_export(o.p(), &n, in.p, in.n), sane, ("exporting " + w8).c_str()); CHECK(dsa_pubkey_bits(in.p, in.n) == (sane ? mpz_sizeinbase(h.p.get_mpz_t(), 2) : 0), "wrong-class", "size of %s", w8.c_str()); } }
  in.check("a public key function"); o.check("a public key function"); q.check("a public key function"); c.sh((u64)dec); c.tr((u64)dec);
}
static void exchange(Ctx &c, const Slot &a, const Slot &b, int f, u64 seed) {
  const char *what; Bytes pa = damage(a, b, f, seed, &what); int form = (int)(seed >> 40 & 1); Bytes s1, s2, m1; bool dec; if (*what) c.fault(what);
  bool ok = expect(pa, b, form, m1, &dec); int r = derive(pa, b, form, seed, s1); c.eval(2); c.sh((u64)r * 2 + dec); c.tr(s1);
  if (ok) CHECK(r == 1, "refused", "agreement on %s with a usable peer value %s (%s) fails", name().c_str(), hex(pa, 140).c_str(), what);
  else CHECK(r == 0, "accepted", "agreement on %s with the peer value %s (%s) succeeds with the secret %s", name().c_str(), hex(pa, 140).c_str(), what, hex(s1).c_str());
  if (ok) same(s1, m1, "wrong-secret", (std::string("secret with peer value (") + what + ")").c_str());
  if (!ok && dec) c.probe("identity-secret-refused");
  if (ok && *what) c.probe("damaged-but-valid");
  if (f == 0 && (F != F_E || (a.clamped && b.clamped))) { int r2 = derive(b.pub, a, form, seed + 1, s2); CHECK((r2 == 1) == ok && s1 == s2, "disagree", "the two ends on %s derive different secrets", name().c_str()); c.probe("agreed"); }
  if (F == F_W || F == F_B) { // a damaged own key
    u64 k = seed >> 50 & 15; if (k < 3) { Slot z = b; z.priv = enc_s(k == 0 ? Z(0) : k == 1 ? order() : Z((Z(1) << (unsigned)(8 * ssize())) - 1)); if (dec_s(z.priv) >= order() || k == 0) { CHECK(derive(a.pub, z, form, seed + 2, s2) == 0, "accepted", "agreement with an out-of-range private key succeeds"); c.fault("own-key-out-of-range"); } } }
}
// Ed25519 with X25519 and Ed448 with X448: the same key pair seen from both sides.
static void cross(Ctx &c, const Slot &a, const Slot &b, u64 seed) {
  if (!((F == F_E || F == F_M) && C < 2)) return;
  const MMont &M = mmont(C); const MEd &E = med(C); Guard o(E.as + 8, seed), q(E.as + 8, seed); c.eval(); g_dirt = seed; dirty();
  if (F == F_E) {
    Z kk = zmod(a.k, E.n); int r = eddsa_pubkey_convert(ecv[C], o.p(), a.pub.data()); o.check("key conversion"); rc(r, kk != 0, "converting an Edwards key"); if (!r) { c.probe("identity-not-convertible"); return; }
    Bytes u = o.get(M.fs); same(u, b_le(M.ladder(kk, M.gx), M.fs), "wrong-key", "converted key");
    if (a.clamped && b.clamped) { Guard s(M.fs + 8), s2(M.fs + 8); int r1 = ecdh_derive(mc[C], s.p(), u.data(), b.priv.data()); r = eddsa_pubkey_convert(ecv[C], o.p(), b.pub.data()); int r2 = ecdh_derive(mc[C], s2.p(), o.p(), a.priv.data()); CHECK(r && r1 == 1 && r2 == 1 && s.get(M.fs) == s2.get(M.fs), "disagree", "converted Edwards keys on %s do not agree", name().c_str()); c.probe("cross-agreed"); }
  } else {
    int sign = (int)(seed % 3) - 1; rc(ecdh_pubkey_convert(mc[C], o.p(), a.pub.data(), sign), true, "converting a Montgomery key"); o.check("key conversion"); Pt P; Bytes eb = o.get(E.as); CHECK(E.decode(eb, P), "wrong-key", "the converted key is not a point");
    CHECK(sign < 0 || (int)zodd(P.x) == sign, "wrong-key", "the converted key has the wrong sign"); rc(eddsa_pubkey_convert(ecv[C], q.p(), eb.data()), true, "converting back"); same(q.get(M.fs), a.pub, "wrong-key", "key converted to Edwards form and back"); c.probe("cross-roundtrip");
    CHECK(E.iszero(E.mul(P, E.n)), "wrong-key", "the converted key left the prime-order subgroup");
  }
}
static Plan gen(Rng &r, const Cfg &cfg, u64) {
  Plan p; int f = (int)r.below(NF); if (f == F_D && r.chance(1, 2)) f = (int)r.below(F_D); int cu = (int)r.below((u64)ncurve[f]); p.add(OP_WORLD, {f, cu});
  u64 wts[13] = {}; for (int i = OP_KEY; i <= OP_CROSS; i++) wts[i] = 1 + r.below(5); wts[OP_XCHG] += 6; wts[OP_DAMAGE] += 2; wts[OP_KEY] = 1; if (r.chance(1, 4)) wts[OP_DAMAGE] = 0; u64 tot = 0; for (u64 x : wts) tot += x;
  bool special = r.chance(1, 2);
  auto how = [&] { return special ? (i64)r.below(13) : r.chance(1, 3) ? (i64)r.below(13) : 0; };
  auto sd = [&] { return (i64)(r.next() >> 1); };
  for (int i = 0; i < NS; i++) p.add(OP_KEY, {i, r.chance(1, 2) ? 0 : (i64)r.below(13), sd()});
  int n = (int)r.range(4, f == F_D ? 10 : cfg.thorough ? 40 : 18); i64 fmax = r.chance(1, 8) ? 0 : NFAULT - 1;
  for (int i = 0; i < n; i++) { u64 x = r.below(tot); int op = OP_KEY; while (x >= wts[op]) x -= wts[op++];
    i64 a = (i64)r.below(NS), b = (i64)r.below(NS);
    switch (op) { case OP_SUM: case OP_CROSS: p.add(op, {a, b, sd()}); break; case OP_DAMAGE: case OP_XCHG: p.add(op, {a, b, r.chance(1, 5) ? 0 : r.range(0, fmax), sd()}); break; case OP_NEG: case OP_INV: p.add(op, {a, 0, sd()}); break; case OP_FORM: case OP_MAP: p.add(op, {a, (i64)r.below(4), sd()}); break; default: p.add(op, {a, how(), sd()}); } }
  return p;
}
static void exec(const Plan &pl, Ctx &c) {
  W.reset(); for (auto &s : sl) s = Slot(); F = F_W; C = 2; int fired = 0; c.interesting = true;
  for (auto &st : pl.steps) {
    int op = st.op; c.step(); u64 seed = (u64)st.arg(op == OP_DAMAGE || op == OP_XCHG ? 3 : 2); int i1 = (int)((u64)st.arg(0) % NS), i2 = (int)((u64)st.arg(1) % NS), how = (int)st.arg(1);
    if (op == OP_WORLD) { F = (int)((u64)st.arg(0) % NF); C = (int)((u64)st.arg(1) % (u64)ncurve[F]); for (auto &s : sl) s = Slot(); c.probe(fam[F]); c.sh((u64)(F * 16 + C)); continue; }
    Slot &s = sl[i1]; c.sh((u64)op * 64 + (u64)(op == OP_SUM || op == OP_CROSS ? 0 : how) + (op == OP_XCHG || op == OP_DAMAGE ? 4096 * (u64)st.arg(2) : 0));
    if (op == OP_KEY) { setkey(s, c, how, seed); c.eval(); c.log("key %d on %s %s", i1, fam[F], name().c_str()); c.tr(s.pub); continue; }
    if (!s.live) continue; fired++;
    switch (op) {
      case OP_SUM: if (sl[i2].live) { Slot o = sl[i2]; twofold(c, s, op, 0, seed, &o); } break;
      case OP_ADD: case OP_MUL: case OP_NEG: case OP_INV: twofold(c, s, op, how, seed, nullptr); break;
      case OP_FORM: reencode(c, s, how, seed); break; case OP_MAP: maps(c, s, how, seed); break; case OP_GRIND: grind(c, s, seed); break;
      case OP_DAMAGE: if (sl[i2].live) damaged(c, s, sl[i2], (int)((u64)st.arg(2) % NFAULT), seed); break;
      case OP_XCHG: if (sl[i2].live) exchange(c, s, sl[i2], (int)((u64)st.arg(2) % NFAULT), seed); break;
      case OP_CROSS: if (sl[i2].live) cross(c, s, sl[i2], seed); break; }
    c.log("%s %d", ops[op], i1); c.tr(s.pub); c.tr(s.priv);
    if (F == F_W && s.k == 0) c.probe("zero-key");
  }
  c.state(hash2((u64)F * 16 + (u64)C, (u64)fired));
}
const Scenario scenario = {"C13", ops, gen, exec, init, "distinct (group, sequence of key operations, exchange faults and outcomes)", 120};
