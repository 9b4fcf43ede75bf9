#include "emodels.h"
#include <openssl/ec.h>
#include <openssl/obj_mac.h>
#include <openssl/bn.h>
#include <cstdlib>

static const MSpec SP256 = {MH_SHA256, 0, 0, 32, 64, {}}, SP384 = {MH_SHA384, 0, 0, 48, 128, {}}, SP512 = {MH_SHA512, 0, 0, 64, 128, {}}, SPSHAKE = {MH_KECCAK, 256, 0x1f, 32, 136, {}};

Z z_be(const u8 *p, size_t n) { Z r; if (n) mpz_import(r.get_mpz_t(), n, 1, 1, 1, 0, p); return r; }
Z z_le(const u8 *p, size_t n) { Z r; if (n) mpz_import(r.get_mpz_t(), n, -1, 1, 1, 0, p); return r; }
Bytes b_be(const Z &z, size_t n) { Bytes r(n, 0); if (sgn(z) < 0 || mpz_sizeinbase(z.get_mpz_t(), 256) > n + (z == 0 ? 1 : 0)) abort(); size_t c = 0; Bytes t(n + 8); mpz_export(t.data(), &c, 1, 1, 1, 0, z.get_mpz_t()); if (c) memcpy(r.data() + n - c, t.data(), c); return r; }
Bytes b_le(const Z &z, size_t n) { Bytes r = b_be(z, n); return Bytes(r.rbegin(), r.rend()); }
Z zmod(const Z &a, const Z &m) { Z r; mpz_mod(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
Z zinv(const Z &a, const Z &m) { Z r; if (!mpz_invert(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t())) return 0; return r; }
Z zpow(const Z &a, const Z &e, const Z &m) { Z r; mpz_powm(r.get_mpz_t(), a.get_mpz_t(), e.get_mpz_t(), m.get_mpz_t()); return r; }
bool zsqrt(const Z &a0, const Z &p, Z &r) {
  Z a = zmod(a0, p);
  if (a == 0) { r = 0; return true; }
  if (mpz_legendre(a.get_mpz_t(), p.get_mpz_t()) != 1) return false;
  if (zmod(p, 4) == 3) { r = zpow(a, (p + 1) / 4, p); return true; }
  Z q = p - 1, z = 2; unsigned s = 0; while (!zodd(q)) { q /= 2; s++; }
  while (mpz_legendre(z.get_mpz_t(), p.get_mpz_t()) != -1) z++;
  Z c = zpow(z, q, p), t = zpow(a, q, p); unsigned m = s; r = zpow(a, (q + 1) / 2, p);
  while (t != 1) { unsigned i = 0; Z x = t; while (x != 1) { x = x * x % p; i++; } Z b = c; for (unsigned j = 0; j + i + 1 < m; j++) b = b * b % p; m = i; c = b * b % p; t = t * c % p; r = r * b % p; }
  return true;
}

// ---- short Weierstrass
namespace {
struct Jac { Z x, y, z; };           // z == 0: infinity
inline void md(Z &r, const Z &p) { mpz_mod(r.get_mpz_t(), r.get_mpz_t(), p.get_mpz_t()); }
void jdbl(const MWei &c, Jac &P) {
  if (P.z == 0) return;
  if (P.y == 0) { P.z = 0; return; }
  static thread_local Z yy, s, m, zz, t; const Z &p = c.p;
  yy = P.y * P.y; md(yy, p); s = P.x * yy; s *= 4; md(s, p); zz = P.z * P.z; md(zz, p); m = zz * zz; md(m, p); m *= c.a; t = P.x * P.x; t *= 3; m += t; md(m, p);
  P.z *= P.y; P.z *= 2; md(P.z, p); P.x = m * m - 2 * s; md(P.x, p); yy *= yy; yy *= 8; t = s - P.x; P.y = m * t - yy; md(P.y, p);
}
void jadd(const MWei &c, Jac &P, const Pt &Q) {
  if (Q.inf) return;
  if (P.z == 0) { P.x = Q.x; P.y = Q.y; P.z = 1; return; }
  static thread_local Z zz, u, s, h, r, hh, hhh, v; const Z &p = c.p;
  zz = P.z * P.z; md(zz, p); u = Q.x * zz; md(u, p); s = zz * P.z; md(s, p); s *= Q.y; md(s, p); h = u - P.x; md(h, p); r = s - P.y; md(r, p);
  if (h == 0) { if (r == 0) { P.x = Q.x; P.y = Q.y; P.z = 1; jdbl(c, P); } else P.z = 0; return; }
  hh = h * h; md(hh, p); hhh = hh * h; md(hhh, p); v = P.x * hh; md(v, p);
  P.x = r * r - hhh - 2 * v; md(P.x, p); v -= P.x; hhh *= P.y; P.y = r * v - hhh; md(P.y, p); P.z *= h; md(P.z, p);
}
Pt jaff(const MWei &c, const Jac &P) { Pt r; if (P.z == 0) { r.inf = true; return r; } Z i = zinv(P.z, c.p), i2 = zmod(i * i, c.p); r.x = zmod(P.x * i2, c.p); r.y = zmod(P.y * i2 * i, c.p); return r; }
}
Pt MWei::add(const Pt &P, const Pt &Q) const { Jac j; if (P.inf) return Q; j.x = P.x; j.y = P.y; j.z = 1; jadd(*this, j, Q); return jaff(*this, j); }
Pt MWei::mul(const Pt &P, const Z &k0) const {
  Z k = zmod(k0, n); Jac r; r.z = 0; if (P.inf) return P;
  Pt w[16]; w[0] = zero(); w[1] = P; for (int i = 2; i < 16; i++) w[i] = add(w[i - 1], P);
  for (int i = (int)((sb + 3) / 4) - 1; i >= 0; i--) { for (int j = 0; j < 4; j++) jdbl(*this, r); Z t = k >> (4 * i); unsigned d = (unsigned)(mpz_get_ui(t.get_mpz_t()) & 15); if (d) jadd(*this, r, w[d]); }
  return jaff(*this, r);
}
Pt MWei::mulg(const Z &k0) const {
  Z k = zmod(k0, n); Jac r; r.z = 0; size_t w = (sb + 3) / 4;
  for (size_t i = 0; i < w; i++) { unsigned d = (unsigned)(mpz_get_ui(k.get_mpz_t()) & 15); if (d) jadd(*this, r, tab[i * 16 + d]); k >>= 4; }
  return jaff(*this, r);
}
bool MWei::on(const Z &x, const Z &y) const { return zmod(y * y - x * x * x - a * x - b, p) == 0; }
bool MWei::lift(const Z &x, int odd, Pt &r) const {
  Z y; if (!zsqrt(zmod(x * x * x + a * x + b, p), p, y)) return false;
  if (odd == -1) { if (!sq(y)) y = p - y; } else if ((int)zodd(y) != odd && y != 0) y = p - y;
  r.x = x; r.y = y; r.inf = false; return true;
}
bool MWei::decode(const Bytes &raw, Pt &r) const {
  if (raw.empty()) return false;
  if (raw[0] == 2 || raw[0] == 3) { if (raw.size() != 1 + fs) return false; Z x = z_be(&raw[1], fs); return x < p && lift(x, raw[0] & 1, r); }
  if (raw[0] == 4 || raw[0] == 6 || raw[0] == 7) {
    if (raw.size() != 1 + 2 * fs) return false;
    Z x = z_be(&raw[1], fs), y = z_be(&raw[1 + fs], fs); if (x >= p || y >= p || !on(x, y)) return false; if (raw[0] != 4 && (raw[0] & 1) != (int)zodd(y)) return false;
    r.x = x; r.y = y; r.inf = false; return true;
  }
  return false;
}
static void cat(Bytes &a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); }
Bytes MWei::encode(const Pt &P, bool compact) const { Bytes r(1, compact ? 2 + (int)zodd(P.y) : 4); cat(r, b_be(P.x, fs)); if (!compact) cat(r, b_be(P.y, fs)); return r; }
Z MWei::reduce(const Bytes &msg) const { size_t l = std::min(msg.size(), ss); Z r = z_be(msg.data(), l); if (l * 8 > sb) r >>= l * 8 - sb; return zmod(r, n); }
Bytes MWei::unreduce(const Z &m) const { return b_be(m << (ss * 8 - sb), ss); }
bool MWei::ecdsa(const Bytes &msg, const Bytes &sig, const Bytes &pub, const Z *priv) const {
  Z r = z_be(&sig[0], ss), s = z_be(&sig[ss], ss); Pt A, R;
  if (r == 0 || s == 0 || r >= n || s >= n || s > (n - 1) / 2) return false;
  if (!decode(pub, A)) return false;
  Z w = zinv(s, n), u1 = zmod(reduce(msg) * w, n), u2 = zmod(r * w, n);
  R = priv ? mulg(zmod(u1 + u2 * *priv, n)) : add(mulg(u1), mul(A, u2));
  return !R.inf && zmod(R.x, n) == r;
}
bool MWei::recover(const Bytes &msg, const Bytes &sig, unsigned param, Pt &A) const {
  Z r = z_be(&sig[0], ss), s = z_be(&sig[ss], ss); Pt R;
  if (r == 0 || s == 0 || r >= n || s >= n || s > (n - 1) / 2) return false;
  Z x = r; if (param >> 1) x += n;
  if (x >= p || !lift(x, param & 1, R)) return false;
  Z w = zinv(r, n); A = add(mulg(zmod(-reduce(msg) * w, n)), mul(R, zmod(s * w, n))); return !A.inf;
}
static Bytes xofhash(const MSpec &s, const Bytes &m, size_t n) { MSpec t = s; if (t.alg == MH_KECCAK) t.out = n; Bytes r = mhash(t, m); r.resize(n); return r; }
static Z toscalar(const MWei &c, Bytes b) { b[0] &= (u8)((c.sb & 7) ? (1 << (c.sb & 7)) - 1 : 0xff); return zmod(z_be(b), c.n); }
Z MWei::schnorr_e(const Bytes &R, const Pt &A, const Bytes &msg) const { Bytes m = R; cat(m, encode(A, true)); cat(m, msg); return toscalar(*this, xofhash(xof, m, ss)); }
bool MWei::schnorr(const Bytes &msg, const Bytes &sig, const Bytes &pub) const {
  Bytes Rr(sig.begin(), sig.begin() + fs); Z r = z_be(Rr), s = z_be(&sig[fs], ss); Pt A, R;
  if (r >= p || s >= n || !decode(pub, A)) return false;
  Z e = schnorr_e(Rr, A, msg); R = add(mulg(s), mul(A, zmod(-e, n)));
  return !R.inf && R.x == r && sq(R.y);
}
Bytes MWei::tagged(const char *tag, const Bytes &m, size_t out) const {
  // the tag hash is half a block of the hash, repeated to fill one
  Bytes t((const u8 *)tag, (const u8 *)tag + strlen(tag)), h; size_t half = xof.block / 2;
  h = xofhash(xof.out != half ? SPSHAKE : xof, t, half); Bytes in = h; cat(in, h); cat(in, m); return xofhash(xof, in, out);
}
Z MWei::bip340_e(const Bytes &R, const Bytes &A, const Bytes &msg) const { Bytes m = R; cat(m, A); cat(m, msg); return toscalar(*this, tagged("BIP0340/challenge", m, ss)); }
bool MWei::bip340(const Bytes &msg, const Bytes &sig, const Bytes &pub) const {
  Bytes Rr(sig.begin(), sig.begin() + fs); Z r = z_be(Rr), s = z_be(&sig[fs], ss), x = z_be(pub); Pt A, R;
  if (r >= p || s >= n || x >= p || !lift(x, 0, A)) return false;
  Z e = bip340_e(Rr, pub, msg); R = add(mulg(s), mul(A, zmod(-e, n)));
  return !R.inf && R.x == r && !zodd(R.y);
}
const MWei &mwei(int id) {
  static MWei c[6]; static bool done = false;
  if (!done) {
    static const int nid[] = {NID_X9_62_prime192v1, NID_secp224r1, NID_X9_62_prime256v1, NID_secp384r1, NID_secp521r1, NID_secp256k1}; static const char *const nm[] = {"p192", "p224", "p256", "p384", "p521", "secp256k1"};
    auto z = [](const BIGNUM *b) { char *h = BN_bn2hex(b); Z r(h, 16); OPENSSL_free(h); return r; };
    for (int i = 0; i < 6; i++) {
      MWei &m = c[i]; m.id = i; m.name = nm[i]; EC_GROUP *G = EC_GROUP_new_by_curve_name(nid[i]); if (!G) abort();
      BIGNUM *p = BN_new(), *a = BN_new(), *b = BN_new(); EC_GROUP_get_curve(G, p, a, b, nullptr); m.p = z(p); m.a = z(a); m.b = z(b); m.n = z(EC_GROUP_get0_order(G));
      EC_POINT_get_affine_coordinates(G, EC_GROUP_get0_generator(G), a, b, nullptr); m.g.x = z(a); m.g.y = z(b); BN_free(p); BN_free(a); BN_free(b); EC_GROUP_free(G);
      m.fb = (unsigned)mpz_sizeinbase(m.p.get_mpz_t(), 2); m.sb = (unsigned)mpz_sizeinbase(m.n.get_mpz_t(), 2); m.fs = (m.fb + 7) / 8; m.ss = (m.sb + 7) / 8;
      m.hash = i == 3 ? SP384 : i == 4 ? SP512 : SP256; m.xof = i == 3 ? SP384 : i == 4 ? SPSHAKE : SP256;
      size_t w = (m.sb + 3) / 4; m.tab.resize(w * 16); Pt b4 = m.g;
      for (size_t j = 0; j < w; j++) { m.tab[j * 16] = m.zero(); for (int k = 1; k < 16; k++) m.tab[j * 16 + k] = m.add(m.tab[j * 16 + k - 1], b4); b4 = m.add(m.tab[j * 16 + 15], b4); }
      if (!m.add(m.mulg(m.n - 1), m.g).inf) abort();
    }
    done = true;
  }
  return c[id];
}

// ---- Edwards
namespace {
struct Ext { Z x, y, z, t; };
void eadd(const MEd &c, Ext &P, const Ext &Q) {
  static thread_local Z A, B, C, D, E, F, G, H; const Z &p = c.p;
  A = P.x * Q.x; md(A, p); B = P.y * Q.y; md(B, p); C = P.t * Q.t; md(C, p); C *= c.d; md(C, p); D = P.z * Q.z; md(D, p);
  E = P.x + P.y; F = Q.x + Q.y; E *= F; E -= A; E -= B; md(E, p); F = D - C; G = D + C; H = c.a * A; H = B - H; md(H, p);
  P.x = E * F; md(P.x, p); P.y = G * H; md(P.y, p); P.t = E * H; md(P.t, p); P.z = F * G; md(P.z, p);
}
Ext eext(const MEd &c, const Pt &P) { Ext e; e.x = P.x; e.y = P.y; e.z = 1; e.t = P.x * P.y; md(e.t, c.p); return e; }
Pt eaff(const MEd &c, const Ext &P) { Pt r; Z i = zinv(P.z, c.p); r.x = zmod(P.x * i, c.p); r.y = zmod(P.y * i, c.p); return r; }
}
Pt MEd::add(const Pt &P, const Pt &Q) const { Ext e = eext(*this, P); eadd(*this, e, eext(*this, Q)); return eaff(*this, e); }
Pt MEd::mul(const Pt &P, const Z &k) const {
  // k is a plain non-negative integer: the point may have torsion
  Ext r = eext(*this, zero()), w[16]; w[0] = r; Ext b = eext(*this, P); for (int i = 1; i < 16; i++) { w[i] = w[i - 1]; eadd(*this, w[i], b); }
  int nb = (int)(mpz_sizeinbase(k.get_mpz_t(), 2) + 3) / 4;
  for (int i = nb - 1; i >= 0; i--) { for (int j = 0; j < 4; j++) { Ext q = r; eadd(*this, r, q); } Z t = k >> (4 * i); unsigned d = (unsigned)(mpz_get_ui(t.get_mpz_t()) & 15); if (d) eadd(*this, r, w[d]); }
  return eaff(*this, r);
}
Pt MEd::mulg(const Z &k0) const { Z k = zmod(k0, n); Ext r = eext(*this, zero()); size_t w = (sb + 3) / 4; for (size_t i = 0; i < w; i++) { unsigned d = (unsigned)(mpz_get_ui(k.get_mpz_t()) & 15); if (d) eadd(*this, r, eext(*this, tab[i * 16 + d])); k >>= 4; } return eaff(*this, r); }
bool MEd::on(const Z &x, const Z &y) const { return zmod(a * x * x + y * y - 1 - d * x * x % p * y * y, p) == 0; }
bool MEd::lift(const Z &y, int odd, Pt &r) const {
  Z u = zmod(y * y - 1, p), v = zmod(d * y * y - a, p), x; if (v == 0 || !zsqrt(zmod(u * zinv(v, p), p), p, x)) return false;
  if (x == 0 && odd) return false;
  if ((int)zodd(x) != odd) x = p - x;
  r.x = zmod(x, p); r.y = y; r.inf = false; return true;
}
bool MEd::decode(const Bytes &raw, Pt &r) const {
  if (raw.size() != as) return false;
  Bytes t = raw; int sign = t[as - 1] >> 7; t[as - 1] &= 0x7f; Z y = z_le(t.data(), as); return y < p && lift(y, sign, r);
}
Bytes MEd::encode(const Pt &P) const { Bytes r = b_le(P.y, as); if (zodd(P.x)) r[as - 1] |= 0x80; return r; }
Bytes MEd::hash(const Bytes &m, size_t out) const { if (id == 1) { MSpec s = SPSHAKE; s.out = out; return mhash(s, m); } Bytes r = mhash(SP512, m); r.resize(out); return r; }
Z MEd::clamp(Bytes s) const {
  s.resize(ss); unsigned top = fb & 7; if (!top) top = 8; if (ss < fs) top = 8;
  s[0] &= (u8)(0 - h); s[ss - 1] &= (u8)((1 << top) - 1); s[ss - 1] |= (u8)(1 << (top - 1)); return z_le(s.data(), ss);
}
void MEd::expand(const Bytes &priv, Z &sc, Bytes &pre) const { Bytes hsh = hash(priv, 2 * as); sc = clamp(Bytes(hsh.begin(), hsh.begin() + ss)); pre.assign(hsh.begin() + as, hsh.end()); }
Bytes MEd::dom(int ph, const Bytes &ctx) const { Bytes r; if (context || ph != -1 || !ctx.empty()) { r.assign(prefix.begin(), prefix.end()); r.push_back(ph > 0); r.push_back((u8)ctx.size()); cat(r, ctx); } return r; }
Z MEd::e(const Bytes &R, const Bytes &A, const Bytes &msg, int ph, const Bytes &ctx) const { Bytes m = dom(ph, ctx); cat(m, R); cat(m, A); cat(m, msg); Bytes hsh = hash(m, 2 * as); return zmod(z_le(hsh.data(), hsh.size()), n); }
bool MEd::verify(const Bytes &msg, const Bytes &sig, const Bytes &pub, int ph, const Bytes &ctx, bool cof) const {
  Bytes Rr(sig.begin(), sig.begin() + as); Pt R, A; Z s = z_le(&sig[as], as);
  if (!decode(Rr, R) || !decode(pub, A) || s >= n) return false;
  Pt L = mulg(s), Q = add(R, mul(A, e(Rr, pub, msg, ph, ctx)));
  if (cof) { L = mul(L, h); Q = mul(Q, h); }
  return L == Q;
}
Bytes MEd::sign(const Bytes &msg, const Bytes &priv, int ph, const Bytes &ctx) const {
  Z sc; Bytes pre; expand(priv, sc, pre); Bytes m = dom(ph, ctx); cat(m, pre); cat(m, msg); Bytes hh = hash(m, 2 * as); Z k = zmod(z_le(hh.data(), hh.size()), n);
  Bytes R = encode(mulg(k)), A = encode(mulg(sc)); Z s = zmod(k + e(R, A, msg, ph, ctx) * sc, n); cat(R, b_le(s, as)); return R;
}
const MEd &med(int id) {
  static MEd c[3]; static bool done = false;
  if (!done) {
    Z one = 1;
    MEd &m = c[0]; m.p = (one << 255) - 19; m.a = m.p - 1; m.d = zmod(-121665 * zinv(121666, m.p), m.p); m.n = (one << 252) + Z("27742317777372353535851937790883648493"); m.h = 8; m.context = false; m.prefix = "SigEd25519 no Ed25519 collisions"; m.name = "ed25519";
    m.g.y = zmod(4 * zinv(5, m.p), m.p); m.lift(m.g.y, 0, m.g);
    MEd &k = c[1]; k.p = (one << 448) - (one << 224) - 1; k.a = 1; k.d = k.p - 39081; k.n = (one << 446) - Z("13818066809895115352007386748515426880336692474882178609894547503885"); k.h = 4; k.context = true; k.prefix = "SigEd448"; k.name = "ed448";
    k.g.x = Z("224580040295924300187604334099896036246789641632564134246125461686950415467406032909029192869357953282578032075146446173674602635247710"); k.g.y = Z("298819210078481492676017930443930673437544040154080242095928241372331506189835876003536878655418784733982303233503462500531545062832660");
    MEd &q = c[2]; q.p = (one << 251) - 9; q.a = 1; q.d = q.p - 1174; q.n = (one << 249) - Z("11332719920821432534773113288178349711"); q.h = 4; q.context = true; q.prefix = "SigEd1174"; q.name = "ed1174";
    q.g.x = Z("1582619097725911541954547006453739763381091388846394833492296309729998839514"); q.g.y = Z("3037538013604154504764115728651437646519513534305223422754827055689195992590");
    for (int i = 0; i < 3; i++) {
      MEd &e = c[i]; e.id = i; e.fb = (unsigned)mpz_sizeinbase(e.p.get_mpz_t(), 2); e.sb = (unsigned)mpz_sizeinbase(e.n.get_mpz_t(), 2); e.fs = (e.fb + 7) / 8; e.as = (e.fb + 8) / 8; e.ss = (e.sb + 7) / 8;
      size_t w = (e.sb + 3) / 4; e.tab.resize(w * 16); Pt b4 = e.g;
      for (size_t j = 0; j < w; j++) { e.tab[j * 16] = e.zero(); for (int t = 1; t < 16; t++) e.tab[j * 16 + t] = e.add(e.tab[j * 16 + t - 1], b4); b4 = e.add(e.tab[j * 16 + 15], b4); }
      if (!e.on(e.g.x, e.g.y) || !e.iszero(e.add(e.mulg(e.n - 1), e.g))) abort();
      // torsion points: multiply arbitrary points by the prime order until a generator shows
      for (Z y = 2;; y++) { Pt P; if (!e.lift(y, 0, P)) continue; Pt T = e.mul(P, e.n); std::vector<Pt> l; Pt S = e.zero(); do { l.push_back(S); S = e.add(S, T); } while (!e.iszero(S)); if (l.size() == e.h) { e.tor = l; break; } }
    }
    done = true;
  }
  return c[id];
}

// ---- Montgomery
Z MMont::clamp(Bytes s) const { s.resize(ss); if (id == 0) { s[0] &= 248; s[31] &= 127; s[31] |= 64; } else { s[0] &= 252; s[55] |= 128; } return z_le(s.data(), ss); }
Z MMont::ladder(const Z &k, const Z &u, bool *inf) const {
  Z x1 = u, x2 = 1, z2 = 0, x3 = u, z3 = 1, a24 = (A - 2) / 4, a, b, aa, bb, e, cc, dd, da, cb; int sw = 0;
  for (int t = (int)fb; t >= 0; t--) {
    int kt = mpz_tstbit(k.get_mpz_t(), (mp_bitcnt_t)t); if (sw ^ kt) { swap(x2, x3); swap(z2, z3); } sw = kt;
    a = x2 + z2; aa = a * a; md(aa, p); b = x2 - z2; bb = b * b; md(bb, p); e = aa - bb; cc = x3 + z3; dd = x3 - z3; da = dd * a; cb = cc * b; x3 = da + cb; x3 *= x3; md(x3, p); z3 = da - cb; z3 *= z3; md(z3, p); z3 *= x1; md(z3, p);
    x2 = aa * bb; md(x2, p); z2 = a24 * e; z2 += aa; z2 *= e; md(z2, p);
  }
  if (sw) { swap(x2, x3); swap(z2, z3); }
  if (inf) *inf = zmod(z2, p) == 0;
  return zmod(x2 * zpow(z2, p - 2, p), p);
}
bool MMont::on(const Z &x) const { Z v = zmod(x * x * x + A * x * x + x, p); return mpz_legendre(v.get_mpz_t(), p.get_mpz_t()) >= 0; }
const MMont &mmont(int id) {
  static MMont c[2]; static bool done = false;
  if (!done) {
    Z one = 1; c[0].p = (one << 255) - 19; c[0].A = 486662; c[0].n = med(0).n; c[0].h = 8; c[0].gx = 9; c[0].fs = c[0].ss = 32; c[0].fb = 255; c[0].name = "x25519"; c[0].id = 0;
    c[1].p = (one << 448) - (one << 224) - 1; c[1].A = 156326; c[1].n = med(1).n; c[1].h = 4; c[1].gx = 5; c[1].fs = c[1].ss = 56; c[1].fb = 448; c[1].name = "x448"; c[1].id = 1; done = true;
  }
  return c[id];
}
