// C14: RSA and DSA parties over a faulty channel, and a forger who holds the private key.
#include "world.h"
#include "algs.h"
#include "der.h"
#include "groups.h"
extern "C" {
#include <torsion/rsa.h>
#include <torsion/dsa.h>
}
static const size_t ENTROPY_SIZE = 32;
enum { OP_WORLD, OP_KEY, OP_SIGN, OP_CRAFT, OP_SEAL, OP_CRAFTCT, OP_VEIL, OP_BADPRIV, OP_DSIGN, OP_DCRAFT, OP_DERSIG };
static const char *const ops[] = {"world", "key", "sign", "crafted-signature", "encrypt", "crafted-ciphertext", "veil", "damaged-private-key", "dsa-sign", "dsa-crafted", "dsa-der", nullptr};
static const int NS = 3, NFS = 26, NFC = 18, NR = sizeof rprimes / sizeof *rprimes, ND = sizeof fgroups / sizeof *fgroups;

struct RK { bool live = false; Z n, e, d, p, q, dp, dq, qi; Bytes priv, pub; size_t bits() const { return mpz_sizeinbase(n.get_mpz_t(), 2); } size_t k() const { return (bits() + 7) / 8; } };
struct DK { bool live = false; DGroup g; Z x, y; Bytes priv, pub; size_t qs() const { return zbytes(g.q); } };
static RK rk[NS]; static DK dk[NS]; static int K; static DGroup dg[ND]; static Z rp[NR][2];
static void init(const Cfg &) {
  for (int i = 0; i < NR; i++) { rp[i][0] = Z(rprimes[i].p, 16); rp[i][1] = Z(rprimes[i].q, 16); }
  for (int i = 0; i < ND; i++) { dg[i].p = Z(fgroups[i].p, 16); dg[i].q = Z(fgroups[i].q, 16); dg[i].g = Z(fgroups[i].g, 16); }
}
static void rc(int r, bool want, const char *what) { CHECK(r == (int)want, want ? "honest-refused" : "invalid-accepted", "%s returned %d, expected %d", what, r, (int)want); }
static size_t zbits(const Z &z) { return z == 0 ? 0 : mpz_sizeinbase(z.get_mpz_t(), 2); }
static Z zgcd(const Z &a, const Z &b) { Z r; mpz_gcd(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
static Z rndz(u64 seed, const Z &m) { return zmod(z_be(seed_bytes(seed, zbytes(m) + 8)), m); }

// --- models of RFC 8017
static const struct { hash_id_t id; std::vector<u8> oid; } oids[] = {
  {HASH_BLAKE2B_160, {0x2b,6,1,4,1,0x8d,0x3a,0x0c,2,1,5}}, {HASH_BLAKE2B_256, {0x2b,6,1,4,1,0x8d,0x3a,0x0c,2,1,8}}, {HASH_BLAKE2B_384, {0x2b,6,1,4,1,0x8d,0x3a,0x0c,2,1,12}}, {HASH_BLAKE2B_512, {0x2b,6,1,4,1,0x8d,0x3a,0x0c,2,1,16}},
  {HASH_BLAKE2S_128, {0x2b,6,1,4,1,0x8d,0x3a,0x0c,2,2,4}}, {HASH_BLAKE2S_160, {0x2b,6,1,4,1,0x8d,0x3a,0x0c,2,2,5}}, {HASH_BLAKE2S_224, {0x2b,6,1,4,1,0x8d,0x3a,0x0c,2,2,7}}, {HASH_BLAKE2S_256, {0x2b,6,1,4,1,0x8d,0x3a,0x0c,2,2,8}},
  {HASH_GOST94, {0x2a,0x85,3,2,2,0x14}}, {HASH_MD2, {0x2a,0x86,0x48,0x86,0xf7,0x0d,2,2}}, {HASH_MD4, {0x2a,0x86,0x48,0x86,0xf7,0x0d,2,4}}, {HASH_MD5, {0x2a,0x86,0x48,0x86,0xf7,0x0d,2,5}},
  {HASH_RIPEMD160, {0x2b,0x24,3,2,1}}, {HASH_SHA1, {0x2b,0x0e,3,2,0x1a}}, {HASH_SHA224, {0x60,0x86,0x48,1,0x65,3,4,2,4}}, {HASH_SHA256, {0x60,0x86,0x48,1,0x65,3,4,2,1}}, {HASH_SHA384, {0x60,0x86,0x48,1,0x65,3,4,2,2}}, {HASH_SHA512, {0x60,0x86,0x48,1,0x65,3,4,2,3}},
  {HASH_SHA3_224, {0x60,0x86,0x48,1,0x65,3,4,2,7}}, {HASH_SHA3_256, {0x60,0x86,0x48,1,0x65,3,4,2,8}}, {HASH_SHA3_384, {0x60,0x86,0x48,1,0x65,3,4,2,9}}, {HASH_SHA3_512, {0x60,0x86,0x48,1,0x65,3,4,2,10}},
  {HASH_SHAKE128, {0x60,0x86,0x48,1,0x65,3,4,2,11}}, {HASH_SHAKE256, {0x60,0x86,0x48,1,0x65,3,4,2,12}}, {HASH_WHIRLPOOL, {0x28,0xcf,6,3,0,0x37}},
};
// alg: 0..NALG-1 a hash, NALG no hash, above: not a hash identifier
static hash_id_t hid(int alg) { return alg < NALG ? algs[alg].id : alg == NALG ? HASH_NONE : alg == NALG + 1 ? (hash_id_t)33 : (hash_id_t)77; }
static size_t hlen(int alg) { return alg < NALG ? algs[alg].m.out : 0; }
static bool tblock(int alg, const Bytes &msg, Bytes &t) {           // the DigestInfo of a digest
  if (alg > NALG) return false; if (alg < NALG && msg.size() != hlen(alg)) return false;
  if (alg < NALG) for (auto &o : oids) if (o.id == algs[alg].id) { Bytes id{6, (u8)o.oid.size()}; app(id, Bytes(o.oid.begin(), o.oid.end())); app(id, Bytes{5, 0}); Bytes b = der_seq(id); app(b, Bytes{4, (u8)msg.size()}); app(b, msg); t = der_seq(b); return true; }
  t = msg; return true;
}
static bool em15(int alg, const Bytes &msg, size_t k, Bytes &em) { Bytes t; if (!tblock(alg, msg, t) || k < t.size() + 11) return false; em = Bytes{0, 1}; em.resize(k - t.size() - 1, 0xff); em.push_back(0); app(em, t); return true; }
static void mgfx(int alg, u8 *p, size_t n, const Bytes &seed) { for (u32 ctr = 0; n;  ctr++) { Bytes s = seed; for (int i = 3; i >= 0; i--) s.push_back((u8)(ctr >> (8 * i))); Bytes h = mhash(algs[alg].m, s); size_t m = std::min(n, h.size()); for (size_t i = 0; i < m; i++) p[i] ^= h[i]; p += m; n -= m; } }
static Bytes pss_h(int alg, const Bytes &msg, const Bytes &salt, size_t zeros = 8) { Bytes m(zeros, 0); app(m, msg); app(m, salt); return mhash(algs[alg].m, m); }
static const size_t SALT_HASH = (size_t)-1;
static bool pss_ok(int alg, const Bytes &msg, Bytes em, size_t embits, size_t salt, Bytes *out = nullptr) {      // em: ceil(embits/8) bytes
  if (alg >= NALG || msg.size() != hlen(alg)) return false; size_t h = hlen(alg), l = em.size(); if (salt == SALT_HASH) salt = h;
  if (l < h + 2 || (salt && l - h - 2 < salt)) return false; if (em[l - 1] != 0xbc) return false;
  size_t dl = l - h - 1; unsigned spare = (unsigned)(8 * l - embits); if (spare && (em[0] >> (8 - spare))) return false;
  Bytes H(em.begin() + (long)dl, em.end() - 1); mgfx(alg, em.data(), dl, H); if (spare) em[0] &= (u8)(0xff >> spare);
  size_t i = 0; while (i < dl && em[i] == 0) i++; if (i == dl || em[i] != 1) return false; Bytes s(em.begin() + (long)i + 1, em.begin() + (long)dl); if (salt && s.size() != salt) return false;
  if (out) *out = s; return pss_h(alg, msg, s) == H;
}
struct PssD { int defect; u64 seed; };
static Bytes pss_make(int alg, const Bytes &msg, size_t embits, const Bytes &salt, PssD d, const char **what) {
  size_t h = hlen(alg), l = (embits + 7) / 8, dl = l - h - 1; unsigned spare = (unsigned)(8 * l - embits); Bytes em(l, 0); Bytes H = pss_h(alg, msg, salt, d.defect == 7 ? 7 + 2 * (d.seed & 1) : 8); *what = "";
  size_t one = dl - salt.size() - 1; em[one] = 1; std::copy(salt.begin(), salt.end(), em.begin() + (long)one + 1);
  switch (d.defect) { case 3: if (one) { em[d.seed % one] ^= (u8)(1 << (d.seed >> 32 & 7)); *what = "pss padding bit"; } break; case 4: em[one] = (u8)((d.seed & 1) ? 2 : 0x81); *what = "pss separator"; break; case 6: H[d.seed % h] ^= (u8)(1 << (d.seed >> 32 & 7)); *what = "pss hash bit"; break; case 7: *what = "pss message prefix"; break; case 11: std::fill(em.begin(), em.begin() + (long)dl, 0); *what = "pss no separator"; break; case 14: if (one) { em[one - 1] = 1; *what = "pss early separator"; } break; default: break; }
  mgfx(alg, em.data(), dl, H); if (spare) em[0] &= (u8)(0xff >> spare); std::copy(H.begin(), H.end(), em.begin() + (long)dl); em[l - 1] = 0xbc;
  if (d.defect == 1) { static const u8 t[] = {0xcc, 0xbb, 0xbd, 0x3c, 0}; em[l - 1] = t[d.seed % 5]; *what = "pss trailer"; } if (d.defect == 2 && spare) { em[0] |= (u8)(0x80 >> (d.seed % spare)); *what = "pss top bits"; } if (d.defect == 9) { em[d.seed % dl] ^= (u8)(1 << (d.seed >> 32 & 7)); *what = "pss masked block bit"; }
  return em;
}
static bool v15_open(const Bytes &em, Bytes &m) { if (em[0] || em[1] != 2) return false; size_t i = 2; while (i < em.size() && em[i]) i++; if (i == em.size() || i < 10) return false; m = Bytes(em.begin() + (long)i + 1, em.end()); return true; }
static bool oaep_open(int alg, Bytes em, const Bytes &label, Bytes &m) {
  size_t h = hlen(alg), k = em.size(); if (k < 2 * h + 2 || em[0]) return false; Bytes db(em.begin() + 1 + (long)h, em.end()); mgfx(alg, em.data() + 1, h, db); Bytes seed(em.begin() + 1, em.begin() + 1 + (long)h); mgfx(alg, db.data(), db.size(), seed);
  Bytes lh = mhash(algs[alg].m, label); if (!std::equal(lh.begin(), lh.end(), db.begin())) return false; size_t i = h; while (i < db.size() && db[i] == 0) i++; if (i == db.size() || db[i] != 1) return false; m = Bytes(db.begin() + (long)i + 1, db.end()); return true;
}
// --- keys
static bool pub_fine(const Z &n, const Z &e) { return zbits(n) >= 512 && zbits(n) <= 16384 && zodd(n) && zodd(e) && e >= 3 && zbits(e) <= 33; }
static bool pub_parse(const Bytes &b, Z &n, Z &e) { DerIn d(b); d.seq(); n = d.integer(); e = d.integer(); return d.end() && pub_fine(n, e); }
static bool priv_parse(const Bytes &b, RK &k) { DerIn d(b); d.seq(); if (d.ok) d.version(0); k.n = d.integer(); k.e = d.integer(); k.d = d.integer(); k.p = d.integer(); k.q = d.integer(); k.dp = d.integer(); k.dq = d.integer(); k.qi = d.integer(); return d.end(); }
static bool priv_fine(const RK &k) {
  if (!pub_fine(k.n, k.e) || k.p < 3 || k.q < 3 || k.p == k.q || k.p * k.q != k.n) return false; Z a = k.p - 1, b = k.q - 1, phi = a * b, lam = phi / zgcd(a, b);
  return k.d >= 2 && k.d < phi && zmod(k.e * k.d, lam) == 1 && k.dp == zmod(k.d, a) && k.dq == zmod(k.d, b) && k.qi >= 2 && k.qi < k.p && zmod(k.qi * k.q, k.p) == 1;
}
static Bytes rder(std::initializer_list<Z> l, bool version, int pad = -1) { Bytes b; if (version) b = Bytes{2, 1, 0}; int i = 0; for (auto &z : l) app(b, der_int(z, i++ == pad)); return der_seq(b); }
static Bytes priv_der(const RK &k) { return rder({k.n, k.e, k.d, k.p, k.q, k.dp, k.dq, k.qi}, true); }
static void rkey(Ctx &c, RK &k, int src, int pi, u64 seed) {
  k = RK(); static const u64 es[] = {3, 5, 17, 257, 65537, 0x10001, 0x1ffffffffull, 0x1fffffffdull, 0xffffffffull, 0x100000001ull, 7, 11, 0x7fffffff}; Bytes ent = seed_bytes(seed, ENTROPY_SIZE); Guard o(RSA_MAX_PRIV_SIZE, seed); size_t n = 0; int r; const char *what = "the model";
  k.e = Z(std::to_string(es[seed % 13])); k.p = rp[pi][0]; k.q = rp[pi][1]; if (k.p < k.q) std::swap(k.p, k.q); if (zgcd(k.e, (k.p - 1) * (k.q - 1)) != 1) k.e = 65537;
  Z a = k.p - 1, b = k.q - 1, lam = a * b / zgcd(a, b); k.n = k.p * k.q; k.d = zinv(k.e, lam); if (seed >> 20 & 1) k.d = zinv(k.e, a * b);        // both conventions are in use
  if (src == 6) { std::swap(k.p, k.q); a = k.p - 1; b = k.q - 1; }
  k.dp = zmod(k.d, a); k.dq = zmod(k.d, b); k.qi = zinv(k.q, k.p); Bytes in;
  switch (src) {
    case 1: in = dumb({k.n, k.e, k.d, k.p, k.q, k.dp, k.dq, k.qi}); what = "complete parts"; break; case 2: in = dumb({0, k.e, 0, (seed >> 21 & 1) ? k.p : k.q, (seed >> 21 & 1) ? k.q : k.p, 0, 0, 0}); what = "primes and public exponent"; break;
    case 3: in = dumb({0, 0, k.d, k.p, k.q, 0, 0, 0}); what = "primes and private exponent"; break; case 4: in = dumb({k.n, k.e, k.d, 0, 0, 0, 0, 0}); what = "modulus and exponents"; break;
    default: break; }
  if (src >= 1 && src <= 4) { Input im(in, seed % 4); bool none = (seed >> 22 & 3) == 0; r = rsa_privkey_import(o.p(), &n, im.p, im.n, none ? nullptr : ent.data()); std::string w = std::string("assembling a private key from ") + what; rc(r, true, w.c_str()); o.check("key import"); c.probe(src == 4 ? "factored-from-exponents" : "assembled"); RK m; Bytes got = o.get(n);
    CHECK(priv_parse(got, m) && priv_fine(m), "bad-key", "%s produced an inconsistent key", w.c_str()); CHECK(m.n == k.n && m.e == k.e, "bad-key", "%s produced another key", w.c_str()); k = m; }
  if (src == 5) { unsigned bits = 512 + (unsigned)(seed >> 24) % 40; u64 e = es[seed % 13]; bool fine = true; if ((seed >> 32) % 8 == 0) { static const u64 bad[] = {0, 1, 2, 4, 65536, 0x200000001ull, ~0ull}; e = bad[(seed >> 36) % 7]; fine = false; } if ((seed >> 32) % 8 == 1) { bits = (seed >> 40 & 1) ? 511 : (seed >> 41 & 1) ? 16385 : 0; fine = false; }
    r = rsa_privkey_generate(o.p(), &n, bits, e, ent.data()); rc(r, fine, "generating a key"); if (!fine) { c.fault("forbidden key size or exponent"); return; } o.check("key generation"); c.probe("generated"); RK m; CHECK(priv_parse(o.get(n), m) && priv_fine(m), "bad-key", "the generated key is inconsistent"); CHECK(zbits(m.n) == bits && m.e == Z(std::to_string(e)), "bad-key", "the generated key has %zu bits, asked for %u", zbits(m.n), bits);
    CHECK(mpz_probab_prime_p(m.p.get_mpz_t(), 25) && mpz_probab_prime_p(m.q.get_mpz_t(), 25), "bad-key", "the generated key's factors are not prime"); k = m; }
  k.priv = priv_der(k); k.pub = rder({k.n, k.e}, false); k.live = true;
  Input pv(k.priv, seed % 3); Guard q(RSA_MAX_PUB_SIZE, seed + 1); c.eval(4); if (src >= 1 && src <= 5) CHECK(o.get(n) == k.priv, "bad-key", "the private key is not encoded canonically");
  rc(rsa_privkey_verify(pv.p, pv.n), true, "checking an honest private key"); CHECK(rsa_privkey_bits(pv.p, pv.n) == k.bits(), "bad-key", "wrong key size"); r = rsa_pubkey_create(q.p(), &n, pv.p, pv.n); rc(r, true, "deriving the public key"); q.check("deriving the public key"); CHECK(q.get(n) == k.pub, "bad-key", "the public key differs from the model");
  Input pb(k.pub, seed % 3); rc(rsa_pubkey_verify(pb.p, pb.n), true, "checking an honest public key"); CHECK(rsa_pubkey_bits(pb.p, pb.n) == k.bits(), "bad-key", "wrong key size"); pv.check("key checks");
}
static Bytes flip(Bytes b, u64 seed) { if (!b.empty()) b[(seed >> 3) % b.size()] ^= (u8)(1 << (seed & 7)); return b; }
static Bytes edge(Bytes b, u64 seed) { if (!b.empty()) b[(seed & 1) ? 0 : b.size() - 1] ^= (u8)(1 << (seed >> 1 & 7)); return b; }
// damage to a number of klen bytes
static bool numfault(Bytes &s, const RK &k, int f, u64 seed, const char **what) {
  Z z = z_be(s); size_t l = s.size(); auto put = [&](const Z &v) { if (v >= 0 && zbytes(v) <= l) { s = b_be(v, l); return true; } return false; };
  switch (f) {
    case 1: s = flip(s, seed); *what = "bit flip"; return true; case 2: s = edge(s, seed); *what = "edge bit flip"; return true; case 3: s.erase(s.begin()); *what = "leading byte lost"; return true; case 4: s.pop_back(); *what = "last byte lost"; return true;
    case 5: s.insert(s.begin(), 0); *what = "leading zero added"; return true; case 6: s.push_back(0); *what = "trailing byte added"; return true; case 7: *what = "modulus added"; return put(z + k.n * (1 + (int)(seed % 3))); case 8: *what = "negated"; return put(k.n - z);
    case 9: *what = "zero"; return put(0); case 10: *what = "one"; return put(1); case 11: *what = "modulus"; return put(k.n); case 12: *what = "modulus less one"; return put(k.n - 1); case 13: *what = "random value"; return put(rndz(seed, k.n)); case 14: std::swap_ranges(s.begin(), s.begin() + (long)l / 2, s.begin() + (long)(l - l / 2)); *what = "halves swapped"; return true;
    case 15: s.clear(); *what = "empty"; return true; case 16: s = flip(flip(s, seed), seed >> 20); *what = "two bit flips"; return true; default: return false; }
}
static Bytes keyfault(const RK &k, int f, u64 seed, const char **what) {
  switch (f) { case 17: *what = "public key bit flip"; return flip(k.pub, seed); case 18: *what = "other exponent"; return rder({k.n, k.e + 2 * (1 + (int)(seed % 4))}, false); case 19: *what = "padded key encoding"; return rder({k.n, k.e}, false, (int)(seed & 1)); case 20: { *what = "public key cut"; Bytes b = k.pub; b.resize(b.size() - 1 - seed % 4); return b; } case 21: { *what = "public key extended"; Bytes b = k.pub; b.push_back((u8)seed); return b; }
    case 22: { *what = "odd key values"; static const int ev[] = {0, 1, 2, 4}; return (seed & 4) ? rder({k.n, ev[seed & 3]}, false) : (seed & 8) ? rder({k.n + 1, k.e}, false) : (seed & 16) ? rder({k.n >> 40, k.e}, false) : rder({0, k.e}, false); } default: return k.pub; }
}
static size_t msglen(int mode, size_t limit, u64 seed) { switch (mode) { case 0: return seed % (limit + 1); case 1: return limit; case 2: return limit + 1; case 3: return 0; case 4: return limit + 1 + seed % 12; default: return limit ? limit - 1 : 0; } }
static const size_t NEVER = (size_t)-2;
static size_t saltlen(int mode, int alg, const RK &k, u64 seed) { size_t h = hlen(alg), l = (k.bits() + 6) / 8, room = l >= h + 2 ? l - h - 2 : 0; switch (mode) { case 0: return 0; case 1: return SALT_HASH; case 2: return room; case 3: return room + 1; case 4: return 1 + seed % (room + 1); case 5: return 1; case 6: return k.k() + 1; case 7: return NEVER; default: return h; } }
static bool verify_model(int scheme, int alg, const Bytes &msg, const Bytes &sig, const Bytes &pub, size_t salt) {
  Z n, e; if (!pub_parse(pub, n, e)) return false; size_t bits = zbits(n), k = (bits + 7) / 8; if (sig.size() != k) return false; Z s = z_be(sig); if (s >= n) return false; Bytes em = b_be(zpow(s, e, n), k);
  if (scheme == 0) { Bytes w; return em15(alg, msg, k, w) && w == em; }
  if ((bits - 1) % 8 == 0) { if (em[0]) return false; em.erase(em.begin()); } return pss_ok(alg, msg, em, bits - 1, salt);
}
static int verify_lib(int scheme, int alg, const Bytes &msg, const Bytes &sig, const Bytes &pub, size_t salt, u64 seed) {
  Input m(msg, seed % 4), s(sig, seed % 3), p(pub, seed % 5); int r = scheme == 0 ? rsa_verify(hid(alg), m.p, m.n, s.p, s.n, p.p, p.n) : rsa_verify_pss(hid(alg), m.p, m.n, s.p, s.n, p.p, p.n, salt); m.check("verification"); s.check("verification"); p.check("verification"); return r;
}
static const char *const schemes[] = {"pkcs1v15", "pss", "oaep"};
static void judge(Ctx &c, int scheme, int alg, const Bytes &msg, const Bytes &sig, const Bytes &pub, size_t salt, const char *what, u64 seed) {
  bool want = verify_model(scheme, alg, msg, sig, pub, salt); int r = verify_lib(scheme, alg, msg, sig, pub, salt, seed); c.eval(); c.tr((u64)r * 2 + want); c.probe(want ? "accepted" : "rejected");
  CHECK(r == (int)want, want ? "honest-refused" : "invalid-accepted", "%s with %s, %zu-byte signature, salt %zd (%s): verification returned %d, the model says %d; sig=%s msg=%s pub=%s", schemes[scheme], alg < NALG ? algs[alg].name : "no hash", sig.size(), (ssize_t)salt, what, r, (int)want, hex(sig).c_str(), hex(msg).c_str(), hex(pub).c_str());
}
static void sign(Ctx &c, RK &k, const RK &other, int scheme, int alg, int mode, int f, int smode, u64 seed) {
  size_t kl = k.k(), h = hlen(alg); Bytes msg; if (alg == NALG && scheme == 0) msg = seed_bytes(seed, msglen(mode, kl - 11, seed)); else { msg = seed_bytes(seed, h); if (mode == 2) msg.push_back(1); if (mode == 4 && h) msg.pop_back(); if (mode == 3 && (seed & 1)) msg.clear(); }
  size_t salt = saltlen(smode, alg, k, seed >> 8), el = (k.bits() + 6) / 8; Bytes ent = seed_bytes(seed ^ 77, ENTROPY_SIZE), em; bool want; size_t sl = salt == SALT_HASH ? h : salt == 0 ? (el >= h + 2 ? el - h - 2 : 0) : salt;
  if (scheme == 0) want = em15(alg, msg, kl, em); else want = alg < NALG && msg.size() == h && el >= h + 2 && sl <= el - h - 2;
  Input im(msg, seed % 4), pv(k.priv, seed % 3); Guard o(kl, seed); size_t n = 0; int r = scheme == 0 ? rsa_sign(o.p(), &n, hid(alg), im.p, im.n, pv.p, pv.n, ent.data()) : rsa_sign_pss(o.p(), &n, hid(alg), im.p, im.n, pv.p, pv.n, salt, ent.data());
  c.eval(); o.check("signing"); im.check("signing"); pv.check("signing"); std::string w = std::string("signing with ") + schemes[scheme] + " and " + (alg < NALG ? algs[alg].name : "no hash") + ", " + std::to_string(k.bits()) + "-bit key, " + std::to_string(msg.size()) + "-byte digest, salt " + std::to_string((ssize_t)salt); rc(r, want, w.c_str()); c.tr((u64)r);
  if (!want) { c.fault("request the scheme does not allow"); return; }
  CHECK(n == kl, "wrong-output", "signature of %zu bytes", n); Bytes sig = o.get(n); Z s = z_be(sig); CHECK(s < k.n, "wrong-output", "signature not below the modulus"); Bytes got = b_be(zpow(s, k.e, k.n), kl); c.tr(sig); c.probe(schemes[scheme]);
  if (scheme == 0) CHECK(got == em, "wrong-output", "%s: the encoded message differs from the standard: %s", w.c_str(), hex(got).c_str());
  else { if ((k.bits() - 1) % 8 == 0) { CHECK(got[0] == 0, "wrong-output", "encoded message too long"); got.erase(got.begin()); c.probe("short-encoding"); } Bytes st; CHECK(pss_ok(alg, msg, got, k.bits() - 1, 0, &st), "wrong-output", "%s: the signature does not verify under the standard", w.c_str()); CHECK(st.size() == sl, "wrong-output", "%s: salt of %zu bytes, expected %zu", w.c_str(), st.size(), sl);
    if (st.size() >= 16 && (seed >> 9) % 4 == 0) { Bytes e2 = seed_bytes(seed ^ 78, ENTROPY_SIZE); Guard o2(kl, seed); rsa_sign_pss(o2.p(), &n, hid(alg), im.p, im.n, pv.p, pv.n, salt, e2.data()); CHECK(o2.get(n) != sig, "wrong-output", "two signatures made with different entropy share their salt"); } }
  const char *what = "intact"; Bytes pub = k.pub; int valg = alg; size_t vs = salt; if (f >= 1 && f <= 16) { if (numfault(sig, k, f, seed >> 5, &what)) c.fault(what); }
  else if (f >= 17 && f <= 22) { pub = keyfault(k, f, seed >> 5, &what); c.fault(what); } else if (f == 23) { if (!msg.empty()) { msg = (seed & 64) ? flip(msg, seed >> 7) : Bytes(msg.begin(), msg.end() - 1); what = "message damaged"; c.fault(what); } }
  else if (f == 24) { if (other.live) { pub = other.pub; what = "another key"; c.fault(what); } } else if (f == 25) { if (scheme == 1) { vs = saltlen((int)(seed >> 12) % 9, alg, k, seed >> 15); what = "another salt length"; } else if (seed & 32) { Bytes t; tblock(alg, msg, t); msg = t; valg = NALG; what = "digest block as raw message"; } else { valg = (int)((seed >> 12) % (NALG + 3)); what = "another hash"; } c.fault(what); }
  judge(c, scheme, valg, msg, sig, pub, vs, what, seed >> 3);
}
static void craft(Ctx &c, RK &k, int scheme, int alg, int defect, int smode, u64 seed) {
  size_t kl = k.k(), h = hlen(alg); const char *what = ""; Bytes em, msg; size_t salt = 0;
  if (scheme == 0) {
    msg = alg == NALG ? seed_bytes(seed, seed % (kl - 10)) : seed_bytes(seed, h); Bytes t; if (!tblock(alg, msg, t)) return; bool fits = kl >= t.size() + 11;
    if (!fits || defect == 12) { if (alg == NALG) { msg = seed_bytes(seed, kl - 3 - (seed >> 8) % 9); t = msg; } if (kl < t.size() + 3) return; what = "short padding"; }
    em = Bytes{0, 1}; em.resize(kl - t.size() - 1, 0xff); em.push_back(0); app(em, t); size_t sep = kl - t.size() - 1; u64 x = seed >> 10;
    switch (defect) {
      case 1: em[0] = (u8)(1 << (x % 7)); what = "first byte"; break; case 2: { static const u8 v[] = {0, 2, 3, 0x81}; em[1] = v[x & 3]; what = "block type"; break; } case 3: if (sep > 2) { em[x % 3 == 0 ? 2 : x % 3 == 1 ? sep - 1 : 2 + (x >> 2) % (sep - 2)] ^= (u8)(1 << (x >> 40 & 7)); what = "padding byte"; } break; case 4: em[sep] = (u8)(1 << (x & 7)); what = "separator"; break;
      case 5: if (sep > 12) { size_t cut = 1 + x % (sep - 10); em.erase(em.begin() + 2, em.begin() + 2 + (long)cut); app(em, seed_bytes(x, cut)); what = "garbage after the digest"; } break;
      case 6: if (alg < NALG && t.size() > msg.size()) { Bytes id(t.begin() + 4, t.begin() + 4 + 2 + t[5]); Bytes b = der_seq(id); app(b, Bytes{4, (u8)msg.size()}); app(b, msg); t = der_seq(b); em = Bytes{0, 1}; em.resize(kl - t.size() - 1, 0xff); em.push_back(0); app(em, t); what = "parameters left out"; } break;
      case 7: if (t.size() > msg.size()) { em[sep + 1 + x % (t.size() - msg.size())] ^= (u8)(1 << (x >> 40 & 7)); what = "digest identifier"; } break; case 8: if (!t.empty()) { em[kl - 1 - x % (msg.empty() ? 1 : msg.size())] ^= (u8)(1 << (x >> 40 & 7)); what = "digest bit"; } break; case 9: em[sep] = 0xff; if (sep > 2) em[sep - 1] = 0; what = "moved separator"; break; case 10: if (!t.empty()) { std::rotate(em.begin() + 2, em.begin() + 3, em.end()); what = "shifted"; } break; case 11: em.back() ^= 1; what = "last bit"; break; default: break; }
  } else {
    if (alg >= NALG) return; size_t l = (k.bits() + 6) / 8; if (l < h + 2) return; size_t room = l - h - 2; msg = seed_bytes(seed, h); salt = saltlen(smode, alg, k, seed >> 8); size_t sl = salt == 0 ? ((seed >> 50) % 3 == 0 ? 0 : (seed >> 50) % 3 == 1 ? room : (seed >> 40) % (room + 1)) : salt == SALT_HASH ? h : salt;
    if (defect == 5 || sl > room) { sl = (seed >> 30) % (room + 1); what = "other salt size"; } const char *w2; em = pss_make(alg, msg, k.bits() - 1, seed_bytes(seed ^ 5, sl), PssD{defect, seed >> 11}, &w2); if (*w2) what = w2;
    if (em.size() < kl) { em.insert(em.begin(), 0); if (defect == 13) { em[0] = 1; what = "byte before the encoding"; } }
  }
  Z m = z_be(em); if (m >= k.n) { c.probe("too-large-to-craft"); return; } if (*what) c.fault(what); Bytes sig = b_be(zpow(m, k.d, k.n), kl); judge(c, scheme, alg, msg, sig, k.pub, salt, what, seed); c.probe("crafted");
}
static bool open_model(int scheme, int alg, const Bytes &ct, const RK &k, const Bytes &label, Bytes &m) { size_t kl = k.k(); if (ct.size() != kl) return false; Z z = z_be(ct); if (z >= k.n) return false; if (scheme == 2 && (alg >= NALG || kl < 2 * hlen(alg) + 2)) return false; Bytes em = b_be(zpow(z, k.d, k.n), kl); return scheme == 0 ? v15_open(em, m) : oaep_open(alg, em, label, m); }
static void open(Ctx &c, int scheme, int alg, const Bytes &ct, const RK &k, const Bytes &label, const char *what, u64 seed) {
  Bytes m; bool want = open_model(scheme, alg, ct, k, label, m); Input ic(ct, seed % 4), pv(k.priv, 0), il(label, seed % 3); Bytes ent = seed_bytes(seed ^ 3, ENTROPY_SIZE); Guard o(k.k(), seed); size_t n = 0; c.eval(); c.probe(want ? "opened" : "refused");
  int r = scheme == 0 ? rsa_decrypt(o.p(), &n, ic.p, ic.n, pv.p, pv.n, ent.data()) : rsa_decrypt_oaep(o.p(), &n, hid(alg), ic.p, ic.n, pv.p, pv.n, il.p, il.n, ent.data()); o.check("decryption"); ic.check("decryption"); std::string w = std::string("decrypting ") + schemes[scheme] + " (" + what + ") with a " + std::to_string(k.bits()) + "-bit key";
  rc(r, want, w.c_str()); c.tr((u64)r); if (want) { CHECK(n == m.size() && o.get(n) == m, "wrong-plaintext", "%s returned another message", w.c_str()); c.tr(m); }
  if (scheme != 0) return;
  // the implicit-rejection interface: never reveals whether the padding was right
  size_t ol = (seed >> 20) % 3 == 0 && want ? m.size() : (seed >> 20) % 3 == 1 ? 16 + (seed >> 23) % 33 : (seed >> 23) % (k.k() - 9); bool fine = ct.size() == k.k() && ol + 11 <= k.k() && z_be(ct) < k.n; Guard a(ol, seed), b(ol, seed + 1);
  r = rsa_decrypt_key(a.p(), ol, ic.p, ic.n, pv.p, pv.n, ent.data()); a.check("key decryption"); rc(r, fine, "key decryption"); if (!fine) return; bool good = want && m.size() == ol;
  if (good) { CHECK(a.get(ol) == m, "wrong-plaintext", "key decryption returned another key"); c.probe("session-key"); } else { rsa_decrypt_key(b.p(), ol, ic.p, ic.n, pv.p, pv.n, ent.data()); CHECK(a.get(ol) == b.get(ol), "wrong-plaintext", "key decryption is not repeatable"); Bytes em = b_be(zpow(z_be(ct), k.d, k.n), k.k()); if (ol >= 12) CHECK(a.get(ol) != Bytes(em.end() - (long)ol, em.end()), "invalid-accepted", "key decryption of a badly padded message returned its content"); c.probe("substituted-key"); }
}
static void seal(Ctx &c, RK &k, const RK &other, int scheme, int alg, int mode, int f, u64 seed) {
  size_t kl = k.k(), h = hlen(alg); Bytes label = seed_bytes(seed ^ 9, (seed >> 3) % 3 == 0 ? 0 : (seed >> 5) % 70), ent = seed_bytes(seed ^ 77, ENTROPY_SIZE); bool allowed = scheme == 0 || (alg < NALG && kl >= 2 * h + 2); size_t limit = scheme == 0 ? kl - 11 : allowed ? kl - 2 * h - 2 : 8; Bytes msg = seed_bytes(seed, msglen(mode, limit, seed >> 9)); bool want = allowed && msg.size() <= limit;
  Input im(msg, seed % 4), pb(k.pub, seed % 3), il(label, seed % 3); Guard o(kl, seed); size_t n = 0; int r = scheme == 0 ? rsa_encrypt(o.p(), &n, im.p, im.n, pb.p, pb.n, ent.data()) : rsa_encrypt_oaep(o.p(), &n, hid(alg), im.p, im.n, pb.p, pb.n, il.p, il.n, ent.data());
  c.eval(); o.check("encryption"); im.check("encryption"); std::string w = std::string("encrypting ") + std::to_string(msg.size()) + " bytes with " + schemes[scheme] + " and " + (alg < NALG ? algs[alg].name : "no hash") + ", " + std::to_string(k.bits()) + "-bit key"; rc(r, want, w.c_str()); if (!want) { c.fault("request the scheme does not allow"); return; }
  CHECK(n == kl, "wrong-output", "ciphertext of %zu bytes", n); Bytes ct = o.get(n), m; c.tr(ct); CHECK(open_model(scheme, alg, ct, k, label, m) && m == msg, "wrong-output", "%s: the ciphertext does not open under the standard", w.c_str()); c.probe(schemes[scheme]);
  if ((seed >> 40) % 4 == 0) { Bytes e2 = seed_bytes(seed ^ 78, ENTROPY_SIZE); Guard o2(kl, seed); if (scheme == 0) rsa_encrypt(o2.p(), &n, im.p, im.n, pb.p, pb.n, e2.data()); else rsa_encrypt_oaep(o2.p(), &n, hid(alg), im.p, im.n, pb.p, pb.n, il.p, il.n, e2.data()); CHECK(o2.get(n) != ct, "wrong-output", "encryption does not depend on the entropy"); }
  const char *what = "intact"; const RK *rk2 = &k; int valg = alg; if (f >= 1 && f <= 16) { if (numfault(ct, k, f, seed >> 5, &what)) c.fault(what); } else if (f == 17) { if (scheme == 2) { if (seed & 1) { label = (seed & 2) || label.empty() ? seed_bytes(seed ^ 10, 1 + seed % 9) : flip(label, seed >> 4); what = "another label"; } else { valg = (int)((seed >> 6) % (NALG + 2)); what = "another hash"; } c.fault(what); } else if (other.live) { rk2 = &other; what = "another key"; c.fault(what); } }
  open(c, scheme, valg, ct, *rk2, label, what, seed >> 2);
}
static void craftct(Ctx &c, RK &k, int scheme, int alg, int defect, u64 seed) {
  size_t kl = k.k(), h = hlen(alg); const char *what = ""; Bytes em, label; u64 x = seed >> 10;
  if (scheme == 0) {
    size_t ps = 8; switch (seed % 4) { case 0: ps = 8; break; case 1: ps = kl - 3; break; default: ps = 8 + (seed >> 4) % (kl - 10); } if (defect == 4) { ps = x % 8; what = "short padding"; } em = Bytes{0, 2}; Bytes p = seed_bytes(x, ps); for (auto &b : p) if (!b) b = 1; app(em, p); em.push_back(0); app(em, seed_bytes(x ^ 3, kl - 3 - ps));
    switch (defect) { case 1: em[0] = (u8)(1 << (x % 7)); what = "first byte"; break; case 2: { static const u8 v[] = {0, 1, 3, 0x82}; em[1] = v[x & 3]; what = "block type"; break; } case 3: for (auto &b : em) if (!b) b = 5; em[0] = 0; what = "no separator"; break; case 5: em[2 + x % 8] = 0; what = "zero in padding"; break; case 6: std::fill(em.begin() + 2, em.end(), 0); what = "all zero"; break; default: break; }
  } else {
    if (alg >= NALG || kl < 2 * h + 2) return; label = seed_bytes(seed ^ 9, seed % 20); Bytes lh = mhash(algs[alg].m, label), sd = seed_bytes(x, h); size_t dl = kl - h - 1, room = dl - h - 1; size_t ml = x % 3 == 0 ? 0 : x % 3 == 1 ? room : (x >> 4) % (room + 1); Bytes db = lh; db.resize(dl - ml - 1, 0); db.push_back(1); app(db, seed_bytes(x ^ 3, ml)); size_t one = dl - ml - 1;
    switch (defect) { case 2: db[x % h] ^= (u8)(1 << (x >> 40 & 7)); what = "label digest"; break; case 3: if (one > h) { db[h + (x >> 8) % (one - h)] = (u8)((x >> 40 & 1) ? 2 : 0x80); what = "padding byte"; } break; case 4: std::fill(db.begin() + (long)h, db.end(), 0); what = "no separator"; break; case 5: db[one] = (u8)((x & 1) ? 2 : 0x81); what = "separator"; break; case 6: if (one > h) { db[h + (x >> 8) % (one - h)] = 1; what = "early separator"; } break; case 7: std::fill(sd.begin(), sd.end(), 0); break; default: break; }
    mgfx(alg, db.data(), dl, sd); mgfx(alg, sd.data(), h, db); em = Bytes{0}; app(em, sd); app(em, db); if (defect == 1) { em[0] = (u8)(1 << (x % 7)); what = "first byte"; }
  }
  Z m = z_be(em); if (m >= k.n) { c.probe("too-large-to-craft"); return; } if (*what) c.fault(what); open(c, scheme, alg, b_be(zpow(m, k.e, k.n), kl), k, label, *what ? what : "model sender", seed); c.probe("crafted");
}
static void veil(Ctx &c, RK &k, int mode, int f, u64 seed) {
  size_t kl = k.k(), nb = k.bits(); Z z = mode == 1 ? Z(0) : mode == 2 ? Z(k.n - 1) : mode == 3 ? Z(k.n) : rndz(seed, k.n); Bytes ct = b_be(z, kl); if (mode == 4) ct.push_back(0); unsigned bits = (unsigned)nb; switch ((seed >> 7) % 7) { case 0: break; case 1: bits = (unsigned)nb - 1; break; case 2: bits = (unsigned)nb + 1; break; case 3: bits = (unsigned)(nb + 7) / 8 * 8; break; case 4: bits = 16384 + 9; break; case 5: bits = (seed >> 12 & 1) ? 16384 + 8 : 0; break; default: bits = (unsigned)(nb + (seed >> 12) % 200); }
  bool want = z < k.n && ct.size() == kl && bits >= nb && bits <= 16384 + 8; size_t vl = (bits + 7) / 8; Input ic(ct, seed % 3), pb(k.pub, 0); Bytes ent = seed_bytes(seed, ENTROPY_SIZE); Guard o(std::max<size_t>(vl, 1), seed); size_t n = 0; c.eval(); int r = rsa_veil(o.p(), &n, ic.p, ic.n, bits, pb.p, pb.n, ent.data()); o.check("veiling"); rc(r, want, "veiling"); if (!want) { c.fault("request the scheme does not allow"); return; }
  CHECK(n == vl, "wrong-output", "veiled ciphertext of %zu bytes, expected %zu", n, vl); Bytes v = o.get(n); Z vz = z_be(v); c.tr(v); CHECK(zbits(vz) <= bits && zmod(vz, k.n) == z, "wrong-output", "the veiled ciphertext does not represent the original in %u bits", bits); c.probe("veiled");
  unsigned ub = bits; const char *what = "intact"; if (f >= 1 && f <= 6) { if (numfault(v, k, f, seed >> 5, &what)) c.fault(what); } else if (f == 7) { ub = 0; } else if (f == 8) { ub = (unsigned)zbits(vz) - 1; what = "narrower limit"; c.fault(what); } else if (f == 9) { ub = 16384 + 9; what = "limit too wide"; c.fault(what); }
  bool uw = v.size() >= kl && v.size() <= 2049 && ub <= 16384 + 8 && (ub == 0 || zbits(z_be(v)) <= ub); Input iv(v, seed % 4); Guard u(kl, seed); n = 0; r = rsa_unveil(u.p(), &n, iv.p, iv.n, ub, pb.p, pb.n); u.check("unveiling"); rc(r, uw, "unveiling"); if (uw) CHECK(n == kl && u.get(n) == b_be(zmod(z_be(v), k.n), kl), "wrong-output", "unveiling (%s) returned another ciphertext", what);
}
static void badpriv(Ctx &c, RK &k, int f, u64 seed) {
  RK m = k; Bytes b = k.priv; const char *what = "private key bit flip"; Z *part[] = {&m.n, &m.e, &m.d, &m.p, &m.q, &m.dp, &m.dq, &m.qi}; int i = (int)(seed % 8);
  switch (f % 9) { case 0: b = flip(b, seed >> 4); break; case 1: *part[i] += 2; b = priv_der(m); what = "part of the key changed"; break; case 2: *part[i] = (seed >> 4 & 1) ? 0 : 1; b = priv_der(m); what = "part of the key lost"; break; case 3: b.resize(seed % b.size()); what = "private key cut"; break; case 4: std::swap(m.p, m.q); b = priv_der(m); what = "primes swapped"; break; case 5: std::swap(m.p, m.q); std::swap(m.dp, m.dq); b = priv_der(m); what = "primes and exponents swapped"; break;
    case 6: m.d += (m.p - 1) * (m.q - 1) / zgcd(m.p - 1, m.q - 1); b = priv_der(m); what = "private exponent shifted"; break; case 7: m.qi += m.p; b = priv_der(m); what = "coefficient shifted"; break; default: b.push_back(0); what = "private key extended"; }
  c.fault(what); RK t; bool want = priv_parse(b, t) && priv_fine(t); Input pv(b, seed % 3); Bytes ent = seed_bytes(seed, ENTROPY_SIZE); Guard o(2048 + 8, seed), q(RSA_MAX_PUB_SIZE, seed); size_t n = 0; c.eval(3); c.tr(want);
  rc(rsa_privkey_verify(pv.p, pv.n), want, what); CHECK(rsa_privkey_bits(pv.p, pv.n) == (want ? t.bits() : 0), "invalid-accepted", "size of a damaged private key (%s)", what); rc(rsa_pubkey_create(q.p(), &n, pv.p, pv.n), want, what);
  Bytes msg = seed_bytes(seed, 32); int sa = 0; while (algs[sa].id != HASH_SHA256) sa++; bool pri = want && mpz_probab_prime_p(t.p.get_mpz_t(), 20) && mpz_probab_prime_p(t.q.get_mpz_t(), 20); int r = rsa_sign(o.p(), &n, HASH_SHA256, msg.data(), 32, pv.p, pv.n, ent.data()); if (!want) rc(r, false, "signing with a damaged key"); else if (pri) rc(r, true, "signing with an equivalent key"); if (r) judge(c, 0, sa, msg, o.get(n), rder({t.n, t.e}, false), 0, "equivalent key", seed);
}
// --- DSA
static void dkey(Ctx &c, DK &k, int src, int gi, u64 seed) {
  k = DK(); k.g = dg[gi]; Bytes ent = seed_bytes(seed, ENTROPY_SIZE); Guard o(DSA_MAX_PRIV_SIZE, seed); size_t n = 0;
  if (src % 2) { Bytes gp = der_group(k.g); Input ig(gp, seed % 3); int r = dsa_privkey_create(o.p(), &n, ig.p, ig.n, ent.data()); rc(r, true, "creating a key"); o.check("key creation"); DPriv d; CHECK(der_priv(o.get(n), d) && d.g.p == k.g.p && d.g.q == k.g.q && d.g.g == k.g.g && d.x > 0 && d.x < k.g.q && d.y == zpow(k.g.g, d.x, k.g.p), "bad-key", "the created key is inconsistent"); k.x = d.x; k.y = d.y; c.probe("generated"); }
  else { switch (seed % 6) { case 0: k.x = 2; break; case 1: k.x = k.g.q - 2; break; default: k.x = rndz(seed, k.g.q - 3) + 2; } k.y = zpow(k.g.g, k.x, k.g.p); }
  k.priv = der_priv(DPriv{k.g, k.y, k.x}); k.pub = der_pub(k.g, k.y); k.live = true; Input pv(k.priv, 0), pb(k.pub, 0); Guard q(DSA_MAX_PUB_SIZE, seed); rc(dsa_privkey_verify(pv.p, pv.n), true, "checking an honest DSA private key"); rc(dsa_pubkey_verify(pb.p, pb.n), true, "checking an honest DSA public key"); rc(dsa_pubkey_create(q.p(), &n, pv.p, pv.n), true, "deriving a DSA public key"); CHECK(q.get(n) == k.pub, "bad-key", "the DSA public key differs from the model"); c.eval(3);
}
static Z dred(const Bytes &msg, const Z &q) { size_t b = zbits(q), n = std::min(msg.size(), (b + 7) / 8); Z m = z_be(msg.data(), n); if (n * 8 > b) m >>= n * 8 - b; return zmod(m, q); }
static bool dsa_model(const Bytes &msg, const Bytes &sig, const Bytes &pub) {
  DGroup g; Z y; if (!der_pub(pub, g, y) || !group_sane(g) || y < 2 || y >= g.p - 1) return false; size_t qs = zbytes(g.q); if (sig.size() != 2 * qs) return false; Z r = z_be(sig.data(), qs), s = z_be(sig.data() + qs, qs); if (r == 0 || r >= g.q || s == 0 || s >= g.q || zgcd(s, g.q) != 1) return false;
  Z si = zinv(s, g.q), m = dred(msg, g.q); return zmod(zmod(zpow(g.g, zmod(m * si, g.q), g.p) * zpow(y, zmod(r * si, g.q), g.p), g.p), g.q) == r;
}
static void djudge(Ctx &c, const Bytes &msg, const Bytes &sig, const Bytes &pub, const char *what, u64 seed) {
  bool want = dsa_model(msg, sig, pub); Input m(msg, seed % 4), s(sig, seed % 3), p(pub, seed % 5); int r = dsa_verify(m.p, m.n, s.p, s.n, p.p, p.n); c.eval(); c.tr((u64)r * 2 + want); c.probe(want ? "accepted" : "rejected"); s.check("verification");
  CHECK(r == (int)want, want ? "honest-refused" : "invalid-accepted", "DSA (%s): verification returned %d, the model says %d; sig=%s msg=%s pub=%s", what, r, (int)want, hex(sig).c_str(), hex(msg).c_str(), hex(pub).c_str());
}
static Bytes rs(const Z &r, const Z &s, size_t qs) { Bytes o = b_be(r, qs); app(o, b_be(s, qs)); return o; }
static Bytes dmsg(const DK &k, int mode, u64 seed) { size_t qs = k.qs(); switch (mode) { case 0: return seed_bytes(seed, qs); case 1: return Bytes(); case 2: return seed_bytes(seed, seed % qs); case 3: return seed_bytes(seed, qs + 1 + seed % 40); case 4: return Bytes(qs, 0xff); case 5: return b_be(k.g.q + (seed & 1 ? 0 : -1), qs); default: return Bytes(qs, 0); } }
static bool dfault(Bytes &sig, Bytes &msg, Bytes &pub, const DK &k, const DK &other, int f, u64 seed, const char **what) {
  size_t qs = k.qs(); Z r = z_be(sig.data(), qs), s = z_be(sig.data() + qs, qs); const Z &q = k.g.q; auto put = [&](const Z &a, const Z &b) { if (zbytes(a) > qs || zbytes(b) > qs) return false; sig = rs(a, b, qs); return true; };
  switch (f) {
    case 1: sig = flip(sig, seed); *what = "bit flip"; return true; case 2: sig = edge(sig, seed); *what = "edge bit flip"; return true; case 3: sig.erase(sig.begin()); *what = "leading byte lost"; return true; case 4: sig.pop_back(); *what = "last byte lost"; return true; case 5: sig.insert(sig.begin(), 0); *what = "leading zero added"; return true; case 6: sig.push_back(0); *what = "trailing byte added"; return true;
    case 7: *what = "order added"; return (seed & 1) ? put(r + q, s) : put(r, s + q); case 8: *what = "negated"; return (seed & 1) ? put(r, q - s) : put(q - r, s); case 9: *what = "zero"; return (seed & 1) ? put(0, s) : put(r, 0); case 10: *what = "order"; return (seed & 1) ? put(q, s) : put(r, q); case 11: *what = "halves swapped"; return put(s, r); case 12: *what = "widened halves"; sig = b_be(r, qs + 1); app(sig, b_be(s, qs + 1)); return true; case 13: *what = "empty"; sig.clear(); return true;
    case 14: *what = "public key bit flip"; pub = flip(pub, seed); return true; case 15: *what = "negated public key"; pub = der_pub(k.g, k.g.p - k.y); return true; case 16: *what = "degenerate public key"; { Z ys[] = {0, 1, k.g.p - 1, k.g.p, k.y + k.g.p, 2}; pub = der_pub(k.g, ys[seed % 6]); } return true; case 17: *what = "degenerate group"; { DGroup g = k.g; switch (seed % 4) { case 0: g.g = 1; break; case 1: g.g = g.p - 1; break; case 2: g.q += 1; break; default: g.p += 1; } pub = der_pub(g, k.y); } return true; case 18: *what = "padded key encoding"; pub = der_pub(k.g, k.y, 1 + (int)(seed % 5)); return true;
    case 19: *what = "message damaged"; if (msg.empty()) return false; msg = flip(msg, seed); return true; case 20: *what = "message extended"; msg.push_back((u8)seed); return true; case 21: *what = "message cut"; if (msg.empty()) return false; msg.pop_back(); return true; case 22: *what = "another key"; if (!other.live) return false; pub = other.pub; return true; default: return false; }
}
static void dsign(Ctx &c, DK &k, const DK &other, int mode, int f, u64 seed) {
  Bytes msg = dmsg(k, mode, seed), ent = seed_bytes(seed ^ 77, ENTROPY_SIZE); size_t qs = k.qs(), n = 0; Input im(msg, seed % 4), pv(k.priv, seed % 3); Guard o(2 * qs, seed); int r = dsa_sign(o.p(), &n, im.p, im.n, pv.p, pv.n, ent.data()); c.eval(); o.check("signing"); rc(r, true, "DSA signing"); CHECK(n == 2 * qs, "wrong-output", "DSA signature of %zu bytes", n); Bytes sig = o.get(n), pub = k.pub; c.tr(sig); CHECK(dsa_model(msg, sig, pub), "wrong-output", "the DSA signature %s of %s does not verify under the standard", hex(sig).c_str(), hex(msg).c_str()); c.probe("dsa");
  const char *what = "intact"; if (dfault(sig, msg, pub, k, other, f, seed >> 5, &what)) c.fault(what); djudge(c, msg, sig, pub, what, seed >> 3);
}
static void dcraft(Ctx &c, DK &k, const DK &other, int mode, int f, u64 seed) {
  const Z &q = k.g.q; size_t qs = k.qs(); Z kk = (seed & 1) ? Z(1 + (int)(seed >> 1 & 7)) : rndz(seed, q - 1) + 1, r = zmod(zpow(k.g.g, kk, k.g.p), q), s, m; if (r == 0) return; Bytes pub = k.pub, msg;
  switch (mode % 5) { case 0: s = 1; break; case 1: s = q - 1; break; case 2: s = (rndz(seed >> 3, q) >> 24) + 1; break; case 3: m = 0; s = zmod(zinv(kk, q) * (m + k.x * r), q); break; default: s = rndz(seed >> 3, q - 1) + 1; } if (s == 0) return;
  if (mode % 5 != 3) m = zmod(s * kk - k.x * r, q);
  if ((mode / 5 & 1) && zbits(m + q) <= zbits(q)) m += q; size_t b = zbits(q); msg = b_be(m << (qs * 8 - b), qs); if (mode / 10 & 1) app(msg, seed_bytes(seed, seed % 9)); Bytes sig = rs(r, s, qs); c.probe("crafted"); const char *what = "crafted"; if (dfault(sig, msg, pub, k, other, f, seed >> 5, &what)) c.fault(what); djudge(c, msg, sig, pub, what, seed >> 3);
}
static void dersig(Ctx &c, DK &k, int f, u64 seed) {
  size_t qs = k.qs(), n = 0; Z lim = Z(1) << (8 * qs), r = rndz(seed, lim), s = rndz(seed >> 1, lim); if (seed & 1) r >>= 8 * (seed >> 3 & 7); if (seed & 2) s >>= (unsigned)(seed >> 6) % 64; if ((seed >> 12) % 16 == 0) r = 0; if ((seed >> 12) % 16 == 1) s = 1; Bytes sig = rs(r, s, qs); size_t pq = (seed >> 20) % 3 == 0 ? 0 : (seed >> 20) % 9 == 1 ? qs + 1 : qs; Bytes raw = sig; if (f == 1) raw.pop_back(); if (f == 2) raw.resize(66, 1);
  bool want = raw.size() <= 64 && pq <= 32 && raw.size() == 2 * (pq ? pq : raw.size() / 2); Input in(raw, seed % 3); Guard o(DSA_MAX_DER_SIZE, seed); c.eval(2); int rr = dsa_sig_export(o.p(), &n, in.p, in.n, pq); o.check("signature export"); rc(rr, want, "encoding a DSA signature"); if (f == 1 || f == 2) c.fault("signature of the wrong size"); if (!want) return; size_t hq = pq ? pq : raw.size() / 2; r = z_be(raw.data(), hq); s = z_be(raw.data() + hq, hq);
  Bytes body = der_int(r); app(body, der_int(s)); Bytes der = der_seq(body); CHECK(o.get(n) == der, "wrong-output", "encoded signature %s, expected %s", hex(o.get(n)).c_str(), hex(der).c_str()); c.probe("der"); u64 x = seed >> 24;
  const char *what = "intact"; switch (f) { case 3: der = flip(der, x); what = "bit flip"; break; case 4: der.pop_back(); what = "last byte lost"; break; case 5: der.push_back(0); what = "trailing byte added"; break; case 6: body = der_int(r, x & 1); app(body, der_int(s, !(x & 1))); der = der_seq(body); what = "padded integer"; break; case 7: body = der_int(r, false, x & 1); app(body, der_int(s, false, !(x & 1))); der = der_seq(body); what = "long length"; break; case 8: der[1] = (u8)(der[1] + (x & 1 ? 1 : -1)); what = "inconsistent length"; break; case 9: body = Bytes{2, 0}; app(body, der_int(s)); der = der_seq(body); what = "empty integer"; break; case 10: body = der_int(r << 64); app(body, der_int(s)); der = der_seq(body); what = "oversized integer"; break; case 11: body = Bytes{2, 1, 0xff}; app(body, der_int(s)); der = der_seq(body); what = "negative integer"; break; case 12: body = der_int(r); der = der_seq(body); what = "missing integer"; break; default: break; }
  if (f >= 3 && f <= 12) c.fault(what); size_t iq = (seed >> 30) % 5 == 0 ? hq + 1 : (seed >> 30) % 5 == 1 ? hq - 1 : hq; DerIn d(der); d.seq(); Z r2 = d.integer(), s2 = d.integer(); want = d.end() && zbytes(r2) <= std::min<size_t>(iq, 32) && zbytes(s2) <= std::min<size_t>(iq, 32); Input id(der, seed % 3); Guard q(2 * iq, seed); rr = dsa_sig_import(q.p(), &n, id.p, id.n, iq); q.check("signature import"); rc(rr, want, (std::string("decoding a DSA signature (") + what + ")").c_str()); if (want) CHECK(n == 2 * iq && q.get(n) == rs(r2, s2, iq), "wrong-output", "decoding a signature (%s) gave other values", what);
}
static Plan gen(Rng &r, const Cfg &cfg, u64) {
  Plan p; auto sd = [&] { return (i64)(r.next() >> 1); }; bool dsa = r.chance(1, 3); p.add(OP_WORLD, {dsa ? 1 : 0}); int n = (int)r.range(3, cfg.thorough ? 16 : 9); int nk = (int)r.range(1, NS);
  int big = r.chance(1, 6) ? (dsa ? ND : NR) : (dsa ? 4 : 8);
  for (int i = 0; i < nk; i++) p.add(OP_KEY, {i, r.chance(1, 25) ? 5 : dsa ? (i64)r.below(2) : r.chance(1, 2) ? 0 : (i64)r.below(5) + (r.chance(1, 8) ? 2 : 0), (i64)r.below((u64)big), sd()});
  u64 w[11] = {}; if (dsa) { w[OP_DSIGN] = 1 + r.below(4); w[OP_DCRAFT] = 1 + r.below(4); w[OP_DERSIG] = 1 + r.below(3); } else { w[OP_SIGN] = 1 + r.below(5); w[OP_CRAFT] = 1 + r.below(6); w[OP_SEAL] = 1 + r.below(4); w[OP_CRAFTCT] = 1 + r.below(5); w[OP_VEIL] = r.below(3); w[OP_BADPRIV] = r.below(3); } u64 tot = 0; for (u64 x : w) tot += x;
  bool faults = !r.chance(1, 8); int fav = r.chance(1, 3) ? (int)r.below(NALG + 3) : -1;
  auto alg = [&] { return fav >= 0 ? (i64)fav : r.chance(1, 12) ? (i64)r.below(NALG + 3) : (i64)r.below(NALG); };
  for (int i = 0; i < n; i++) { u64 x = r.below(tot); int op = 0; while (x >= w[op]) x -= w[op++]; i64 s = (i64)r.below((u64)nk);
    switch (op) { case OP_SIGN: p.add(op, {s, (i64)r.below(2), r.chance(1, 8) ? NALG : alg(), r.chance(2, 3) ? 0 : (i64)r.below(6), faults ? (i64)r.below(NFS) : 0, (i64)r.below(9), sd()}); break; case OP_CRAFT: p.add(op, {s, (i64)r.below(2), r.chance(1, 8) ? NALG : alg(), (i64)r.below(15), (i64)r.below(9), sd()}); break; case OP_SEAL: p.add(op, {s, (i64)r.below(2) * 2, alg(), (i64)r.below(6), faults ? (i64)r.below(NFC) : 0, sd()}); break; case OP_CRAFTCT: p.add(op, {s, (i64)r.below(2) * 2, alg(), (i64)r.below(8), sd()}); break; case OP_VEIL: p.add(op, {s, (i64)r.below(8), faults ? (i64)r.below(10) : 0, sd()}); break; case OP_BADPRIV: p.add(op, {s, (i64)r.below(9), sd()}); break; case OP_DSIGN: p.add(op, {s, (i64)r.below(7), faults ? (i64)r.below(23) : 0, sd()}); break; case OP_DCRAFT: p.add(op, {s, (i64)r.below(20), faults && r.chance(1, 2) ? (i64)r.below(23) : 0, sd()}); break; default: p.add(op, {s, faults ? (i64)r.below(13) : 0, sd()}); } }
  return p;
}
static void exec(const Plan &pl, Ctx &c) {
  W.reset(); for (auto &k : rk) k = RK(); for (auto &k : dk) k = DK(); K = 0; c.interesting = true; int done = 0;
  for (auto &st : pl.steps) {
    int op = st.op; c.step(); auto A = [&](int i, u64 m) { return (int)((u64)st.arg(i) % m); }; int i = A(0, NS), o = (i + 1) % NS; if (op == OP_WORLD) { K = A(0, 2); c.probe(K ? "dsa-world" : "rsa-world"); continue; }
    u64 sig = (u64)op; for (int j = 1; j < 5 && j < (int)st.a.size() - 1; j++) sig = sig * 64 + (u64)st.arg(j); c.sh(sig);
    if (op == OP_KEY) { if (K) dkey(c, dk[i], A(1, 2), A(2, ND), (u64)st.arg(3)); else rkey(c, rk[i], A(1, 7), A(2, NR), (u64)st.arg(3)); c.log("key %d", i); c.tr(K ? dk[i].pub : rk[i].pub); continue; }
    bool isd = op == OP_DSIGN || op == OP_DCRAFT || op == OP_DERSIG; if (isd ? !dk[i].live : !rk[i].live) continue; done++;
    switch (op) {
      case OP_SIGN: sign(c, rk[i], rk[o], A(1, 2), A(2, NALG + 3), A(3, 6), A(4, NFS), A(5, 9), (u64)st.arg(6)); break; case OP_CRAFT: craft(c, rk[i], A(1, 2), A(2, NALG + 3), A(3, 15), A(4, 9), (u64)st.arg(5)); break;
      case OP_SEAL: seal(c, rk[i], rk[o], A(1, 3) ? 2 : 0, A(2, NALG + 3), A(3, 6), A(4, NFC), (u64)st.arg(5)); break; case OP_CRAFTCT: craftct(c, rk[i], A(1, 3) ? 2 : 0, A(2, NALG + 3), A(3, 8), (u64)st.arg(4)); break;
      case OP_VEIL: veil(c, rk[i], A(1, 8), A(2, 10), (u64)st.arg(3)); break; case OP_BADPRIV: badpriv(c, rk[i], A(1, 9), (u64)st.arg(2)); break; case OP_DSIGN: dsign(c, dk[i], dk[o], A(1, 7), A(2, 23), (u64)st.arg(3)); break; case OP_DCRAFT: dcraft(c, dk[i], dk[o], A(1, 20), A(2, 23), (u64)st.arg(3)); break; case OP_DERSIG: dersig(c, dk[i], A(1, 13), (u64)st.arg(2)); break; }
    c.log("%s %d", ops[op], i);
  }
  c.state(hash2((u64)K, (u64)done));
}
const Scenario scenario = {"C14", ops, gen, exec, init, "distinct (sequence of operations with scheme, hash, length class and fault)", 120};
