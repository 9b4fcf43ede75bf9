#include "catalog.h"
#include "groups.h"
#include <cstdlib>
#include <string>
#define virtual virtual_
extern "C" {
#include <torsion/aead.h>
#include <torsion/cipher.h>
#include <torsion/drbg.h>
#include <torsion/dsa.h>
#include <torsion/ecc.h>
#include <torsion/encoding.h>
#include <torsion/hash.h>
#include <torsion/ies.h>
#include <torsion/kdf.h>
#include <torsion/mac.h>
#include <torsion/mpi.h>
#include <torsion/rsa.h>
#include <torsion/stream.h>
#include <torsion/util.h>
}
#undef virtual
thread_local bool cat_dead;
void cat_free(void *);
namespace {
// self-contained, so that a copy can live in each separately loaded build
void cfill(u64 seed, void *p, size_t n) { Rng r(seed ^ 0xca7a106ull); u8 *b = (u8 *)p; while (n) { u64 w = r.next(); size_t k = n < 8 ? n : 8; memcpy(b, &w, k); b += k; n -= k; } }
enum { NW = 6, NM = 2, NE = 3, NR = 5, ND = 4 };
struct Key { Bytes priv, pub, params; size_t size; };
struct Shared { wei_curve_t *w[NW]; mont_curve_t *m[NM]; edwards_curve_t *e[NE]; Key rsa[NR], dsa[ND]; bool ready; } S;

// ---- inputs: ordinary, patterned, and next to the moduli in use
const char *const moduli[] = {
  "fffffffffffffffffffffffffffffffeffffffffffffffff", "ffffffffffffffffffffffff99def836146bc9b1b4d22831",
  "ffffffffffffffffffffffffffffffff000000000000000000000001", "ffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d",
  "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
  "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff", "ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973",
  "01ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409",
  "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141",
  "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", "1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed",
  "fffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "3fffffffffffffffffffffffffffffffffffffffffffffffffffffff7cca23e9c44edb49aed63690216cc2728dc58f552378c292ab5844f3",
  "07fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7", "01fffffffffffffffffffffffffffffff77965c4dfd307348944d45fd166c971",
};
Bytes unhex(const char *s) { Bytes r; size_t n = strlen(s); int v = 0; for (size_t i = 0; i < n; i++) { char c = s[i]; v = v * 16 + (c <= '9' ? c - '0' : c - 'a' + 10); if ((n - i) % 2 == 1) { r.push_back((u8)v); v = 0; } } return r; }
void addsmall(Bytes &b, i64 d) { i64 c = d; for (size_t i = b.size(); i-- && c;) { i64 v = b[i] + c; b[i] = (u8)(v & 255); c = v >> 8; } }
struct In : Rng {
  explicit In(u64 s) : Rng(s) {}
  Bytes runs(size_t n) { Bytes b(n, 0); size_t i = 0; bool on = chance(1, 2); while (i < 8 * n) { size_t l = 1 + below(chance(1, 3) ? 8 : 80); for (size_t j = 0; j < l && i < 8 * n; j++, i++) if (on) b[i / 8] |= (u8)(0x80 >> (i % 8)); on = !on; } return b; }
  Bytes raw(size_t n) { Bytes b(n); cfill(next(), b.data(), n); return b; }
  Bytes bytes(size_t n) { switch (below(9)) { case 0: return Bytes(n, 0); case 1: return Bytes(n, 0xff); case 2: case 3: return runs(n); case 4: { Bytes b(n, 0); if (n) b[below(n)] = (u8)(1u << below(8)); return b; } default: return raw(n); } }
  // big endian value of n bytes near modulus k (or patterned)
  Bytes near(size_t n, int k) { Bytes m = unhex(moduli[k]), b(n, 0); switch (below(10)) { case 0: case 1: case 2: break; case 3: { int c = 0; for (size_t i = 0; i < m.size(); i++) { int v = m[i] | c << 8; m[i] = (u8)(v / 2); c = v & 1; } break; } case 4: m.assign(m.size(), 0); break; case 5: case 6: m = runs(m.size()); break; default: m = raw(m.size()); } if (chance(1, 2)) addsmall(m, range(-40, 40)); else if (chance(1, 4)) { size_t bit = below(m.size() * 8); m[bit / 8] ^= (u8)(1u << (bit % 8)); }
    for (size_t i = 0; i < n && i < m.size(); i++) b[n - 1 - i] = m[m.size() - 1 - i]; return b; }
  Bytes nearle(size_t n, int k) { Bytes b = near(n, k); return Bytes(b.rbegin(), b.rend()); }
  size_t len(size_t max) { switch (below(4)) { case 0: return below(8) % (max + 1); case 1: { static const size_t e[] = {15, 16, 17, 31, 32, 33, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 135, 136, 137, 255, 256}; size_t v = e[below(21)]; return v > max ? max : v; } default: return below(max + 1); } }
};
struct Out { Bytes v; explicit Out(size_t n) : v(n + 16, 0xa7) {} u8 *p() { return v.data(); } char *s() { return (char *)v.data(); } };

struct Cat {
  In r; const CatHooks *h; CatResult &R; bool armed = false;
  Cat(u64 seed, const CatHooks *hk, CatResult &res) : r(seed), h(hk), R(res) {}
  void pre() { if (h && h->mark) h->mark(R.calls); if (h && h->target == R.calls) { armed = true; h->arm(); } R.calls++; }
  i64 post(i64 v) { if (armed) { armed = false; if (h->disarm() && v == 0) throw CatFailed{R.calls - 1}; } num(v); return v; }
  void postv() { if (armed) { armed = false; h->disarm(); } }
  template <class T> T *postp(T *p) { if (armed) { armed = false; h->disarm(); } return p; }
  void num(i64 v) { for (int i = 0; i < 4; i++) R.out.push_back((u8)(v >> (8 * i))); }
  void num64(u64 v) { num((i64)(v & 0xffffffff)); num((i64)(v >> 32)); }
  void put(const void *p, size_t n) { num((i64)n); R.out.insert(R.out.end(), (const u8 *)p, (const u8 *)p + n); }
  void putr(const Out &o, size_t n) { R.smp.push_back((u8)n); R.smp.push_back((u8)(n >> 8)); R.smp.insert(R.smp.end(), o.v.begin(), o.v.begin() + (long)n); }
  void put(const Out &o, size_t n) { put(o.v.data(), n); }
};
#define C1(e) (K.pre(), K.post((i64)(e)))
#define CV(e) (K.pre(), (void)(e), K.postv())
#define CP(e) (K.pre(), K.postp(e))
template <class F> struct Defer { F f; bool off = false; ~Defer() { if (!cat_dead) f(); } };
template <class F> Defer<F> defer(F f) { return Defer<F>{f}; }

const hash_id_t hids[] = {HASH_BLAKE2B_160, HASH_BLAKE2B_256, HASH_BLAKE2B_384, HASH_BLAKE2B_512, HASH_BLAKE2S_128, HASH_BLAKE2S_160, HASH_BLAKE2S_224, HASH_BLAKE2S_256, HASH_GOST94, HASH_HASH160, HASH_HASH256, HASH_KECCAK224, HASH_KECCAK256, HASH_KECCAK384, HASH_KECCAK512, HASH_MD2, HASH_MD4, HASH_MD5, HASH_MD5SHA1, HASH_RIPEMD160, HASH_SHA1, HASH_SHA224, HASH_SHA256, HASH_SHA384, HASH_SHA512, HASH_SHA3_224, HASH_SHA3_256, HASH_SHA3_384, HASH_SHA3_512, HASH_SHAKE128, HASH_SHAKE256, HASH_WHIRLPOOL};
hash_id_t anyhash(In &r) { return hids[r.below(sizeof hids / sizeof *hids)]; }
const cipher_id_t cids[] = {CIPHER_AES128, CIPHER_AES192, CIPHER_AES256, CIPHER_ARC2, CIPHER_ARC2_GUTMANN, CIPHER_ARC2_40, CIPHER_ARC2_64, CIPHER_ARC2_128, CIPHER_ARC2_128_GUTMANN, CIPHER_BLOWFISH, CIPHER_CAMELLIA128, CIPHER_CAMELLIA192, CIPHER_CAMELLIA256, CIPHER_CAST5, CIPHER_DES, CIPHER_DES_EDE, CIPHER_DES_EDE3, CIPHER_IDEA, CIPHER_SERPENT128, CIPHER_SERPENT192, CIPHER_SERPENT256, CIPHER_TWOFISH128, CIPHER_TWOFISH192, CIPHER_TWOFISH256};
template <class F> void chunks(In &r, const Bytes &d, F f) { size_t i = 0; while (i < d.size()) { size_t n = r.chance(1, 3) ? d.size() - i : 1 + r.below(d.size() - i); f(d.data() + i, n); i += n; } if (r.chance(1, 4)) f(d.data(), 0); }

void op_hash(Cat &K) { hash_t h; hash_id_t id = anyhash(K.r); Bytes d = K.r.bytes(K.r.len(400)); Out o(64); hash_init(&h, id); chunks(K.r, d, [&](const u8 *p, size_t n) { CV(hash_update(&h, p, n)); }); size_t n = hash_output_size(id); CV(hash_final(&h, o.p(), n)); K.put(o, n);
  if (K.r.chance(1, 4)) { Bytes k = K.r.bytes(K.r.below(65)); size_t l = 1 + K.r.below(64); blake2b_t b; CV(blake2b_init(&b, l, k.data(), k.size())); CV(blake2b_update(&b, d.data(), d.size())); CV(blake2b_final(&b, o.p())); K.put(o, l); Bytes k2 = K.r.bytes(K.r.below(33)); l = 1 + K.r.below(32); blake2s_t s; CV(blake2s_init(&s, l, k2.data(), k2.size())); CV(blake2s_update(&s, d.data(), d.size())); CV(blake2s_final(&s, o.p())); K.put(o, l); } }
void op_hmac(Cat &K) { hmac_t h; hash_id_t id = anyhash(K.r); Bytes k = K.r.bytes(K.r.len(200)), d = K.r.bytes(K.r.len(300)); Out o(64); CV(hmac_init(&h, id, k.data(), k.size())); chunks(K.r, d, [&](const u8 *p, size_t n) { CV(hmac_update(&h, p, n)); }); CV(hmac_final(&h, o.p())); K.put(o, hash_output_size(id)); }
void op_poly(Cat &K) { poly1305_t c; Bytes k = K.r.bytes(32), d = K.r.chance(1, 2) ? Bytes(K.r.len(120), 0xff) : K.r.bytes(K.r.len(120)); if (K.r.chance(1, 3)) { // accumulator next to the modulus
    k = Bytes(32, 0); k[0] = (u8)(1 + K.r.below(4)); d = Bytes(32, 0xff); addsmall(d, -(i64)K.r.below(12)); d[0] = (u8)(0xff - K.r.below(12)); for (int i = 16; i < 32; i++) k[(size_t)i] = K.r.chance(1, 2) ? 0xff : (u8)K.r.next(); } Out o(16); CV(poly1305_init(&c, k.data())); chunks(K.r, d, [&](const u8 *p, size_t n) { CV(poly1305_update(&c, p, n)); }); if (K.r.chance(1, 4)) CV(poly1305_pad(&c)); CV(poly1305_final(&c, o.p())); K.put(o, 16); }
void op_sums(Cat &K) { Bytes k = K.r.bytes(32), d = K.r.bytes(K.r.len(100)); u64 m = K.r.chance(1, 2) ? K.r.next() : ~0ull - K.r.below(5); K.num64(siphash_sum(d.data(), d.size(), k.data())); K.num64(siphash_mod(d.data(), d.size(), k.data(), m)); K.num64(siphash128_sum(m, k.data())); K.num64(siphash256_sum(m, k.data())); K.num64(murmur3_sum(d.data(), d.size(), (u32)m)); K.num64(murmur3_tweak(d.data(), d.size(), (u32)(m >> 32), (u32)m));
  Bytes e = d; if (!e.empty() && K.r.chance(2, 3)) e[K.r.below(e.size())] ^= (u8)(1u << K.r.below(8)); auto sg = [](int v) { return (v > 0) - (v < 0); }; K.num(sg(torsion_memcmp(d.data(), e.data(), d.size()))); K.num(sg(torsion_memcmp_var(d.data(), e.data(), d.size()))); K.num(torsion_memequal(d.data(), e.data(), d.size())); Bytes x = d; torsion_memxor(x.data(), e.data(), x.size()); K.put(x.data(), x.size()); torsion_memxor3(x.data(), d.data(), k.data(), std::min<size_t>(32, x.size())); K.put(x.data(), x.size()); }
void op_stream(Cat &K) { Bytes d = K.r.bytes(K.r.len(400)); Out o(d.size()); size_t at = 0; int w = (int)K.r.below(3); static const size_t nls[] = {8, 12, 16, 24, 28}; if (w == 0) { arc4_t a; Bytes k = K.r.bytes(1 + K.r.below(256)); CV(arc4_init(&a, k.data(), k.size())); chunks(K.r, d, [&](const u8 *p, size_t n) { if (n) { CV(arc4_crypt(&a, o.p() + at, p, n)); at += n; } }); }
  else { size_t kl = K.r.chance(1, 2) ? 32 : 16, nl = nls[K.r.below(w == 1 ? 5 : 4)]; if (w == 2 && nl == 12) nl = 8; if (nl > 12) kl = 32; Bytes k = K.r.bytes(kl), nn = K.r.bytes(nl); u64 ctr = K.r.chance(1, 3) ? 0xffffffffull - K.r.below(4) : K.r.chance(1, 3) ? ~0ull - K.r.below(4) : K.r.below(100);
    if (w == 1) { chacha20_t c; CV(chacha20_init(&c, k.data(), kl, nn.data(), nl, ctr)); chunks(K.r, d, [&](const u8 *p, size_t n) { if (n) { CV(chacha20_crypt(&c, o.p() + at, p, n)); at += n; } }); } else { salsa20_t c; CV(salsa20_init(&c, k.data(), kl, nn.data(), nl, ctr)); chunks(K.r, d, [&](const u8 *p, size_t n) { if (n) { CV(salsa20_crypt(&c, o.p() + at, p, n)); at += n; } }); }
    Bytes n16 = K.r.bytes(16); Out dk(32); if (w == 1) CV(chacha20_derive(dk.p(), k.data(), kl, n16.data())); else CV(salsa20_derive(dk.p(), k.data(), kl, n16.data())); K.put(dk, 32); }
  K.put(o, d.size()); }
void op_aead(Cat &K) { chachapoly_t c; Bytes k = K.r.bytes(32), a = K.r.bytes(K.r.len(60)), d = K.r.bytes(K.r.len(200)); static const size_t il[] = {8, 12, 16, 24, 28}; Bytes iv = K.r.bytes(il[K.r.below(5)]); Out o(d.size()), p2(d.size()), t(16); CV(chachapoly_init(&c, k.data(), iv.data(), iv.size())); chunks(K.r, a, [&](const u8 *p, size_t n) { CV(chachapoly_aad(&c, p, n)); }); size_t at = 0; chunks(K.r, d, [&](const u8 *p, size_t n) { if (n) { CV(chachapoly_encrypt(&c, o.p() + at, p, n)); at += n; } }); CV(chachapoly_final(&c, t.p())); K.put(o, d.size()); K.put(t, 16);
  Bytes n24 = K.r.raw(24); Out s(d.size() + 16); CV(secretbox_seal(s.p(), d.data(), d.size(), k.data(), n24.data())); K.put(s, d.size() + 16); if (K.r.chance(1, 2)) s.p()[K.r.below(d.size() + 16)] ^= 4; if (C1(secretbox_open(p2.p(), s.p(), d.size() + 16, k.data(), n24.data()))) K.put(p2, d.size()); CV(secretbox_derive(p2.v.size() >= 32 ? p2.p() : t.v.size() >= 32 ? t.p() : p2.p(), k.data())); }
void op_cipher(Cat &K) { cipher_id_t id = cids[K.r.below(sizeof cids / sizeof *cids)]; size_t kl = cipher_key_size(id), bs = cipher_block_size(id); if (K.r.chance(1, 8)) kl = 1 + K.r.below(64); Bytes k = K.r.bytes(kl), b = K.r.bytes(bs); cipher_t c; Out o(16), q(16); if (!C1(cipher_init(&c, id, k.data(), kl))) return; for (int i = 0; i < 3; i++) { CV(cipher_encrypt(&c, o.p(), b.data())); K.put(o, bs); CV(cipher_decrypt(&c, q.p(), b.data())); K.put(q, bs); b = Bytes(o.v.begin(), o.v.begin() + (long)bs); } }
void op_modes(Cat &K) { cipher_id_t id = cids[K.r.below(sizeof cids / sizeof *cids)]; size_t kl = cipher_key_size(id), bs = cipher_block_size(id); mode_id_t m = (mode_id_t)K.r.below(11); if (m == CIPHER_MODE_XTS) kl *= 2; size_t ivl = m == CIPHER_MODE_RAW || m == CIPHER_MODE_ECB ? 0 : m == CIPHER_MODE_GCM || m == CIPHER_MODE_CCM ? 12 : bs; if (m == CIPHER_MODE_EAX || m == CIPHER_MODE_GCM) ivl = 1 + K.r.below(30);
  Bytes k = K.r.bytes(kl), iv = K.r.bytes(ivl), d = K.r.bytes(K.r.len(150)), a = K.r.bytes(K.r.len(50)); if (m <= CIPHER_MODE_RAW) d.resize(d.size() / bs * bs); cipher_stream_t c; int enc = (int)K.r.below(2); if (!C1(cipher_stream_init(&c, id, m, enc, k.data(), kl, iv.data(), ivl))) return; if (m == CIPHER_MODE_GCM || m == CIPHER_MODE_EAX) C1(cipher_stream_set_aad(&c, a.data(), a.size())); if (m == CIPHER_MODE_CCM && !C1(cipher_stream_set_ccm(&c, d.size(), 16, a.data(), a.size()))) return; if (!enc && m >= CIPHER_MODE_GCM) { Bytes t = K.r.raw(16); C1(cipher_stream_set_tag(&c, t.data(), 16)); } if (m == CIPHER_MODE_CBC || m == CIPHER_MODE_ECB) C1(cipher_stream_set_padding(&c, (int)K.r.below(2)));
  Out o(d.size() * 2 + 400); size_t at = 0; chunks(K.r, d, [&](const u8 *p, size_t n) { size_t l = 0; CV(cipher_stream_update(&c, o.p() + at, &l, p, n)); at += l; }); size_t l = 0; if (C1(cipher_stream_final(&c, o.p() + at, &l))) at += l; K.put(o, at); if (enc && m >= CIPHER_MODE_GCM) { Out t(16); size_t tl = 16; if (C1(cipher_stream_get_tag(&c, t.p(), &tl))) K.put(t, tl); } }
void op_drbg(Cat &K) { Bytes s = K.r.bytes(32 + K.r.below(64)); Out o(256); int w = (int)K.r.below(3); static const hash_id_t hs[] = {HASH_SHA1, HASH_SHA224, HASH_SHA256, HASH_SHA384, HASH_SHA512, HASH_SHA3_256}; hash_id_t h = hs[K.r.below(6)]; size_t n = K.r.len(256); Bytes add = K.r.bytes(K.r.len(60)); hmac_drbg_t a; hash_drbg_t b; ctr_drbg_t c; unsigned bits = 128 + 64 * (unsigned)K.r.below(3); int der = (int)K.r.below(2);
  if (w == 0) CV(hmac_drbg_init(&a, h, s.data(), s.size())); else if (w == 1) CV(hash_drbg_init(&b, h, s.data(), s.size())); else CV(ctr_drbg_init(&c, bits, der, s.data(), s.size(), add.data(), der ? add.size() : 0));
  for (int i = 0; i < 4; i++) { if (w == 0) CV(hmac_drbg_generate(&a, o.p(), n, add.data(), i & 1 ? add.size() : 0)); else if (w == 1) CV(hash_drbg_generate(&b, o.p(), n, add.data(), i & 1 ? add.size() : 0)); else CV(ctr_drbg_generate(&c, o.p(), n, add.data(), i & 1 ? add.size() : 0)); K.put(o, n); if (i == 1) { if (w == 0) CV(hmac_drbg_reseed(&a, s.data(), s.size())); else if (w == 1) CV(hash_drbg_reseed(&b, s.data(), s.size())); else CV(ctr_drbg_reseed(&c, s.data(), s.size(), add.data(), der ? add.size() : 0)); } } }
void op_kdf(Cat &K) { hash_id_t h = anyhash(K.r); Bytes p = K.r.bytes(K.r.len(100)), s = K.r.bytes(K.r.len(60)), prk = K.r.bytes(64); Out o(400), iv(64); size_t n = K.r.len(300); switch (K.r.below(7)) { case 0: if (C1(hkdf_extract(o.p(), h, p.data(), p.size(), s.data(), s.size()))) K.put(o, hash_output_size(h)); break; case 1: if (C1(hkdf_expand(o.p(), h, prk.data(), s.data(), s.size(), n))) K.put(o, n); break; case 2: if (C1(pbkdf2_derive(o.p(), h, p.data(), p.size(), s.data(), s.size(), (u32)(1 + K.r.below(5)), n))) K.put(o, n); break; case 3: s.resize(8); if (C1(eb2k_derive(o.p(), iv.p(), h, p.data(), p.size(), s.data(), K.r.below(2) * 8, n % 80, K.r.below(40)))) K.put(o, n % 80); break; case 4: if (C1(pgpdf_derive_simple(o.p(), h, p.data(), p.size(), n))) K.put(o, n); break; case 5: if (C1(pgpdf_derive_salted(o.p(), h, p.data(), p.size(), s.data(), s.size(), n))) K.put(o, n); break; default: if (C1(pgpdf_derive_iterated(o.p(), h, p.data(), p.size(), s.data(), s.size(), K.r.below(3000), n))) K.put(o, n); } }
void op_bcrypt(Cat &K) { Bytes p = K.r.bytes(K.r.len(100)), s = K.r.bytes(16); Out o(80); if (K.r.chance(1, 2)) { if (C1(bcrypt_generate(o.s(), p.data(), p.size(), s.data(), 4, K.r.chance(1, 2) ? 'a' : 'b'))) { K.put(o.s(), strlen(o.s())); if (K.r.chance(1, 2)) { size_t at = K.r.below(60); o.s()[at == 4 || at == 5 ? 0 : at] ^= 1; } C1(bcrypt_verify(p.data(), p.size(), o.s())); } } else { Out q(200); size_t n = 1 + K.r.below(150); if (C1(bcrypt_pbkdf(q.p(), p.data(), p.size(), s.data(), 16, 1, n))) K.put(q, n); } }
void op_scrypt(Cat &K) { Bytes p = K.r.bytes(K.r.len(60)), s = K.r.bytes(K.r.len(40)); Out o(200); size_t n = K.r.len(150); u64 N = 1ull << K.r.below(6); if (K.r.chance(1, 10)) N += 3; if (C1(scrypt_derive(o.p(), p.data(), p.size(), s.data(), s.size(), N, (u32)(1 + K.r.below(3)), (u32)(1 + K.r.below(3)), n))) K.put(o, n); }
void op_base(Cat &K) { Bytes d = K.r.bytes(K.r.len(80)); Out o(400), q(400); size_t n = 400, m = 400; int pad = (int)K.r.below(2); int w = (int)K.r.below(6); static const char *const al = "0123456789abcdefABCDEFGHXYZ+/=-_z"; auto dmg = [&] { if (n && K.r.chance(1, 2)) o.s()[K.r.below(n)] = al[K.r.below(33)]; };
  switch (w) { case 0: base16_encode(o.s(), &n, d.data(), d.size()); K.put(o, n); dmg(); if (C1(base16_decode(q.p(), &m, o.s(), n))) K.put(q, m); break; case 1: base16le_encode(o.s(), &n, d.data(), d.size()); K.put(o, n); dmg(); if (C1(base16le_decode(q.p(), &m, o.s(), n))) K.put(q, m); break; case 2: base32_encode(o.s(), &n, d.data(), d.size(), pad); K.put(o, n); dmg(); if (C1(base32_decode(q.p(), &m, o.s(), n, pad))) K.put(q, m); break; case 3: base32hex_encode(o.s(), &n, d.data(), d.size(), pad); K.put(o, n); dmg(); if (C1(base32hex_decode(q.p(), &m, o.s(), n, pad))) K.put(q, m); break; case 4: base64_encode(o.s(), &n, d.data(), d.size()); K.put(o, n); dmg(); if (C1(base64_decode(q.p(), &m, o.s(), n))) K.put(q, m); break; default: base64url_encode(o.s(), &n, d.data(), d.size()); K.put(o, n); dmg(); if (C1(base64url_decode(q.p(), &m, o.s(), n))) K.put(q, m); } }
void op_base58(Cat &K) { Bytes d = K.r.bytes(K.r.len(90)); if (K.r.chance(1, 3)) for (size_t i = 0; i < d.size() && i < 3; i++) d[i] = 0; Out o(400), q(400); size_t n = 0, m = 0; if (!C1(base58_encode(o.s(), &n, d.data(), d.size()))) return; K.put(o, n); if (n && K.r.chance(1, 2)) o.s()[K.r.below(n)] = "0OIl1zZ9"[K.r.below(8)]; if (C1(base58_decode(q.p(), &m, o.s(), n))) K.put(q, m); }
void op_addr(Cat &K) { Bytes d = K.r.bytes(2 + K.r.below(39)); Out o(200), hrp(200), q(200); unsigned v = 0; size_t n = 0; u32 chk = K.r.chance(1, 2) ? 1 : 0x2bc830a3; if (K.r.chance(1, 2)) { if (!C1(bech32_encode(o.s(), "bc", (unsigned)K.r.below(17), d.data(), d.size(), chk))) return; K.put(o.s(), strlen(o.s())); if (K.r.chance(1, 2)) o.s()[3 + K.r.below(8)] ^= 1; if (C1(bech32_decode(hrp.s(), &v, q.p(), &n, o.s(), chk))) { K.num(v); K.put(q, n); } } else { static const size_t sz[] = {20, 24, 28, 32, 40, 48, 56, 64}; d = K.r.bytes(sz[K.r.below(8)]); if (!C1(cash32_encode(o.s(), "bitcoincash", (unsigned)K.r.below(16), d.data(), d.size()))) return; K.put(o.s(), strlen(o.s())); if (K.r.chance(1, 2)) o.s()[12 + K.r.below(20)] ^= 1; if (C1(cash32_decode(&v, q.p(), &n, o.s(), "bitcoincash"))) { K.num(v); K.put(q, n); } } }

// ---- curves
Bytes wscalar(In &r, int c, size_t n) { return r.near(n, 2 * c + 1); }
int ecm(int e) { static const int t[] = {6, 7, 8}; return t[e]; }
void op_ecdsa(Cat &K) { int c = (int)K.r.below(NW); const wei_curve_t *w = S.w[c]; size_t ss = wei_curve_scalar_size(w), fs = wei_curve_field_size(w); Bytes k = wscalar(K.r, c, ss), m = K.r.bytes(K.r.len(80)), t = wscalar(K.r, c, ss); Out pub(2 * fs + 1), sg(2 * ss), o(2 * fs + 80), p2(2 * fs + 1); size_t n = 0, l = 0; unsigned pr = 0; int cmp = (int)K.r.below(2); if (!C1(ecdsa_pubkey_create(w, pub.p(), &n, k.data(), cmp))) return; K.put(pub, n);
  if (!C1(ecdsa_sign(w, sg.p(), &pr, m.data(), m.size(), k.data()))) return; K.num(pr); K.put(sg, 2 * ss); switch (K.r.below(6)) { case 0: sg.p()[K.r.below(2 * ss)] ^= (u8)(1u << K.r.below(8)); break; case 1: { Bytes e = wscalar(K.r, c, ss); memcpy(sg.p() + (K.r.chance(1, 2) ? ss : 0), e.data(), ss); break; } case 2: if (!m.empty()) m[K.r.below(m.size())] ^= 1; break; default: break; }
  C1(ecdsa_verify(w, m.data(), m.size(), sg.p(), pub.p(), n)); if (C1(ecdsa_recover(w, p2.p(), &l, m.data(), m.size(), sg.p(), pr, cmp))) K.put(p2, l); C1(ecdsa_is_low_s(w, sg.p())); if (C1(ecdsa_sig_normalize(w, o.p(), sg.p()))) K.put(o, 2 * ss); if (C1(ecdsa_sig_export(w, o.p(), &l, sg.p()))) { K.put(o, l); if (K.r.chance(1, 3)) o.p()[K.r.below(l)] ^= 1; if (C1(ecdsa_sig_import(w, p2.p(), o.p(), l))) K.put(p2, 2 * ss); if (C1(ecdsa_sig_import_lax(w, p2.p(), o.p(), l))) K.put(p2, 2 * ss); } }
void op_eckeys(Cat &K) { int c = (int)K.r.below(NW); const wei_curve_t *w = S.w[c]; size_t ss = wei_curve_scalar_size(w), fs = wei_curve_field_size(w), n = 0, n2 = 0, l = 0; Bytes k = wscalar(K.r, c, ss), t = wscalar(K.r, c, ss), x = K.r.near(fs, 2 * c); Out a(2 * fs + 1), b(2 * fs + 1), o(2 * fs + 1), y(2 * fs + 1); int cmp = (int)K.r.below(2);
  if (C1(ecdsa_privkey_tweak_add(w, o.p(), k.data(), t.data()))) K.put(o, ss); if (C1(ecdsa_privkey_tweak_mul(w, o.p(), k.data(), t.data()))) K.put(o, ss); if (C1(ecdsa_privkey_invert(w, o.p(), k.data()))) K.put(o, ss); if (C1(ecdsa_privkey_negate(w, o.p(), k.data()))) K.put(o, ss);
  if (C1(ecdsa_pubkey_import(w, a.p(), &n, x.data(), fs, nullptr, 0, cmp, 1))) K.put(a, n); else if (!C1(ecdsa_pubkey_create(w, a.p(), &n, k.data(), cmp))) return; if (C1(ecdsa_pubkey_create(w, b.p(), &n2, t.data(), 1))) { if (C1(ecdsa_pubkey_add(w, o.p(), &l, a.p(), n, b.p(), n2, cmp))) K.put(o, l); if (C1(ecdsa_derive(w, o.p(), &l, b.p(), n2, k.data(), cmp))) K.put(o, l); const u8 *ps[] = {a.p(), b.p(), a.p()}; size_t ls[] = {n, n2, n}; if (C1(ecdsa_pubkey_combine(w, o.p(), &l, ps, ls, 1 + K.r.below(3), cmp))) K.put(o, l); }
  if (C1(ecdsa_pubkey_tweak_add(w, o.p(), &l, a.p(), n, t.data(), cmp))) K.put(o, l); if (C1(ecdsa_pubkey_tweak_mul(w, o.p(), &l, a.p(), n, t.data(), cmp))) K.put(o, l); if (C1(ecdsa_pubkey_negate(w, o.p(), &l, a.p(), n, cmp))) K.put(o, l); if (C1(ecdsa_pubkey_export(w, o.p(), y.p(), a.p(), n))) { K.put(o, fs); K.put(y, fs); } }
void op_ecmap(Cat &K) { int c = (int)K.r.below(NW); const wei_curve_t *w = S.w[c]; size_t fs = wei_curve_field_size(w), n = 0; Bytes u = K.r.near(fs, 2 * c), h = u, ent = K.r.raw(32); Bytes v = K.r.near(fs, 2 * c); h.insert(h.end(), v.begin(), v.end()); Out a(2 * fs + 1), o(2 * fs + 1); CV(ecdsa_pubkey_from_uniform(w, a.p(), &n, u.data(), 1)); K.put(a, n); if (C1(ecdsa_pubkey_to_uniform(w, o.p(), a.p(), n, (unsigned)K.r.below(16)))) K.put(o, fs); if (C1(ecdsa_pubkey_from_hash(w, a.p(), &n, h.data(), 1))) { K.put(a, n); if (K.r.chance(1, 3) && C1(ecdsa_pubkey_to_hash(w, o.p(), a.p(), n, 0, ent.data()))) K.put(o, 2 * fs); }
  if (C1(bip340_pubkey_from_hash(w, a.p(), h.data()))) K.put(a, fs); CV(bip340_pubkey_from_uniform(w, a.p(), u.data())); K.put(a, fs); if (C1(bip340_pubkey_to_uniform(w, o.p(), a.p(), (unsigned)K.r.below(16)))) K.put(o, fs); }
void op_schnorr(Cat &K) { int c = (int)K.r.below(NW); const wei_curve_t *w = S.w[c]; size_t ss = wei_curve_scalar_size(w), fs = wei_curve_field_size(w), n = 0; Bytes k = wscalar(K.r, c, ss), t = wscalar(K.r, c, ss), m = K.r.bytes(K.r.len(80)), aux = K.r.raw(32); Out a(2 * fs + 1), b(2 * fs + 1), s(fs + ss), o(2 * fs + 1); int neg = 0;
  if (!C1(bip340_pubkey_create(w, a.p(), k.data()))) return; K.put(a, fs); if (C1(bip340_sign(w, s.p(), m.data(), m.size(), k.data(), K.r.chance(1, 2) ? aux.data() : nullptr))) { K.put(s, fs + ss); switch (K.r.below(4)) { case 0: s.p()[K.r.below(fs + ss)] ^= 1; break; case 1: { Bytes e = K.r.near(fs, 2 * c); memcpy(s.p(), e.data(), fs); break; } default: break; } C1(bip340_verify(w, m.data(), m.size(), s.p(), a.p())); }
  if (C1(bip340_pubkey_tweak_add(w, o.p(), &neg, a.p(), t.data()))) { K.num(neg); K.put(o, fs); C1(bip340_pubkey_tweak_add_check(w, a.p(), t.data(), o.p(), neg)); } if (C1(bip340_privkey_tweak_add(w, o.p(), k.data(), t.data()))) K.put(o, ss); if (C1(bip340_pubkey_create(w, b.p(), t.data()))) { if (C1(bip340_derive(w, o.p(), b.p(), k.data()))) K.put(o, fs); if (C1(bip340_pubkey_add(w, o.p(), a.p(), b.p()))) K.put(o, fs); }
  Bytes x = K.r.near(fs, 2 * c); C1(bip340_pubkey_verify(w, x.data())); if (bipschnorr_support(w)) { if (C1(bipschnorr_sign(w, s.p(), m.data(), m.size(), k.data()))) { K.put(s, fs + ss); if (K.r.chance(1, 3)) s.p()[K.r.below(fs + ss)] ^= 1; if (C1(ecdsa_pubkey_create(w, o.p(), &n, k.data(), 1))) C1(bipschnorr_verify(w, m.data(), m.size(), s.p(), o.p(), n)); } } }
void op_batch(Cat &K) { bool ed = K.r.chance(1, 2); size_t cnt = 1 + K.r.below(4), cap = 2 + K.r.below(4); std::vector<Bytes> ms, ss, ps; std::vector<const u8 *> mp, sp, pp; std::vector<size_t> ml, pl; bool bad = K.r.chance(1, 3); size_t which = K.r.below(cnt);
  if (ed) { const edwards_curve_t *e = S.e[K.r.below(NE)]; size_t as = eddsa_pubkey_size(e); for (size_t i = 0; i < cnt; i++) { Bytes m = K.r.raw(20), k = K.r.raw(as); Out p(as), s(2 * as); eddsa_pubkey_create(e, p.p(), k.data()); eddsa_sign(e, s.p(), m.data(), 20, k.data(), -1, nullptr, 0); if (bad && i == which) s.p()[as] ^= 1; ms.push_back(m); ss.push_back(s.v); ps.push_back(p.v); } for (size_t i = 0; i < cnt; i++) { mp.push_back(ms[i].data()); sp.push_back(ss[i].data()); pp.push_back(ps[i].data()); ml.push_back(20); }
    edwards_scratch_t *sc = CP(edwards_scratch_create(e, cap)); auto d = defer([&] { edwards_scratch_destroy(e, sc); }); C1(eddsa_verify_batch(e, mp.data(), ml.data(), sp.data(), pp.data(), cnt, -1, nullptr, 0, sc)); return; }
  int c = (int)K.r.below(NW); const wei_curve_t *w = S.w[c]; size_t sz = wei_curve_scalar_size(w), fs = wei_curve_field_size(w); bool old = bipschnorr_support(w) && K.r.chance(1, 2); for (size_t i = 0; i < cnt; i++) { Bytes m = K.r.raw(32), k = K.r.raw(sz), aux(32, 1); k[0] = 0; k[1] = (u8)(k[1] | 1); Out p(fs + 1), s(fs + sz); size_t n = fs; if (old) { ecdsa_pubkey_create(w, p.p(), &n, k.data(), 1); bipschnorr_sign(w, s.p(), m.data(), 32, k.data()); } else { bip340_pubkey_create(w, p.p(), k.data()); bip340_sign(w, s.p(), m.data(), 32, k.data(), aux.data()); } if (bad && i == which) s.p()[fs + sz - 1] ^= 1; ms.push_back(m); ss.push_back(s.v); ps.push_back(p.v); pl.push_back(n); }
  for (size_t i = 0; i < cnt; i++) { mp.push_back(ms[i].data()); sp.push_back(ss[i].data()); pp.push_back(ps[i].data()); ml.push_back(32); } wei_scratch_t *sc = CP(wei_scratch_create(w, cap)); auto d = defer([&] { wei_scratch_destroy(w, sc); }); if (old) C1(bipschnorr_verify_batch(w, mp.data(), ml.data(), sp.data(), pp.data(), pl.data(), cnt, sc)); else C1(bip340_verify_batch(w, mp.data(), ml.data(), sp.data(), pp.data(), cnt, sc)); }
void op_ecdh(Cat &K) { int c = (int)K.r.below(NM); const mont_curve_t *m = S.m[c]; size_t fs = mont_curve_field_size(m), ss = ecdh_privkey_size(m); Bytes k = K.r.bytes(ss), u = K.r.nearle(fs, 12 + 2 * c); Out a(fs), o(fs), x(fs + 8), y(fs + 8), h(2 * fs); CV(ecdh_pubkey_create(m, a.p(), k.data())); K.put(a, fs); int r = (int)C1(ecdh_derive(m, o.p(), u.data(), k.data())); K.num(r); K.put(o, fs); if (C1(ecdh_pubkey_export(m, x.p(), y.p(), u.data(), (int)K.r.below(2)))) { K.put(x, fs); K.put(y, fs); } C1(ecdh_pubkey_verify(m, u.data())); C1(ecdh_pubkey_is_small(m, u.data())); C1(ecdh_pubkey_has_torsion(m, u.data()));
  CV(ecdh_pubkey_from_uniform(m, o.p(), u.data())); K.put(o, fs); if (C1(ecdh_pubkey_to_uniform(m, x.p(), o.p(), (unsigned)K.r.below(16)))) K.put(x, fs); if (C1(ecdh_pubkey_convert(m, h.p(), a.p(), (int)K.r.below(2)))) K.put(h, eddsa_pubkey_size(S.e[c])); Bytes hh = u, v = K.r.nearle(fs, 12 + 2 * c); hh.insert(hh.end(), v.begin(), v.end()); if (C1(ecdh_pubkey_from_hash(m, o.p(), hh.data(), (int)K.r.below(2)))) K.put(o, fs); }
void op_eddsa(Cat &K) { int c = (int)K.r.below(NE); const edwards_curve_t *e = S.e[c]; size_t as = eddsa_pubkey_size(e), ss = edwards_curve_scalar_size(e); Bytes k = K.r.bytes(as), m = K.r.bytes(K.r.len(100)), cx = K.r.bytes(K.r.below(10)), t = K.r.nearle(ss, 2 * ecm(c) + 1), t2 = K.r.nearle(ss, 2 * ecm(c) + 1), pre = K.r.raw(as); int ph = (int)K.r.below(3) - 1; Out a(as), s(2 * as), o(2 * as), sc(2 * as);
  CV(eddsa_pubkey_create(e, a.p(), k.data())); K.put(a, as); CV(eddsa_sign(e, s.p(), m.data(), m.size(), k.data(), ph, cx.data(), cx.size())); K.put(s, 2 * as); switch (K.r.below(5)) { case 0: s.p()[K.r.below(2 * as)] ^= 1; break; case 1: { Bytes v = K.r.nearle(ss, 2 * ecm(c) + 1); memcpy(s.p() + as, v.data(), ss); break; } case 2: { Bytes v = K.r.nearle(as, 2 * ecm(c)); memcpy(s.p(), v.data(), as); break; } default: break; } C1(eddsa_verify(e, m.data(), m.size(), s.p(), a.p(), ph, cx.data(), cx.size())); C1(eddsa_verify_single(e, m.data(), m.size(), s.p(), a.p(), ph, cx.data(), cx.size()));
  CV(eddsa_sign_with_scalar(e, s.p(), m.data(), m.size(), t.data(), pre.data(), ph, cx.data(), cx.size())); K.put(s, 2 * as); CV(eddsa_sign_tweak_add(e, s.p(), m.data(), m.size(), k.data(), t.data(), ph, cx.data(), cx.size())); K.put(s, 2 * as); CV(eddsa_scalar_tweak_add(e, o.p(), t.data(), t2.data())); K.put(o, ss); CV(eddsa_scalar_tweak_mul(e, o.p(), t.data(), t2.data())); K.put(o, ss); CV(eddsa_scalar_reduce(e, o.p(), t.data())); K.put(o, ss); CV(eddsa_scalar_negate(e, o.p(), t.data())); K.put(o, ss); CV(eddsa_scalar_invert(e, o.p(), t.data())); K.put(o, ss); }
void op_edkeys(Cat &K) { int c = (int)K.r.below(NE); const edwards_curve_t *e = S.e[c]; size_t as = eddsa_pubkey_size(e), ss = edwards_curve_scalar_size(e), fs = edwards_curve_field_size(e); Bytes t = K.r.nearle(ss, 2 * ecm(c) + 1), t2 = K.r.nearle(ss, 2 * ecm(c) + 1), y = K.r.nearle(as, 2 * ecm(c)), u = K.r.nearle(fs, 2 * ecm(c)), k = K.r.bytes(as), ent = K.r.raw(32); Out a(as), b(as), o(2 * as), p(2 * as); if (K.r.chance(1, 3)) y[as - 1] ^= 0x80;
  CV(eddsa_pubkey_from_scalar(e, a.p(), t.data())); K.put(a, as); if (C1(eddsa_pubkey_verify(e, y.data()))) memcpy(b.p(), y.data(), as); else CV(eddsa_pubkey_from_scalar(e, b.p(), t2.data())); C1(eddsa_pubkey_is_small(e, b.p())); C1(eddsa_pubkey_has_torsion(e, b.p())); if (C1(eddsa_pubkey_add(e, o.p(), a.p(), b.p()))) K.put(o, as); if (C1(eddsa_pubkey_tweak_add(e, o.p(), b.p(), t.data()))) K.put(o, as); if (C1(eddsa_pubkey_tweak_mul(e, o.p(), b.p(), t.data()))) K.put(o, as); if (C1(eddsa_pubkey_negate(e, o.p(), b.p()))) K.put(o, as); if (C1(eddsa_derive(e, o.p(), b.p(), k.data()))) K.put(o, as); if (C1(eddsa_pubkey_export(e, o.p(), p.p(), b.p()))) { K.put(o, fs); K.put(p, fs); } if (c < 2 && C1(eddsa_pubkey_convert(e, o.p(), b.p()))) K.put(o, fs);
  CV(eddsa_pubkey_from_uniform(e, o.p(), u.data())); K.put(o, as); if (C1(eddsa_pubkey_to_uniform(e, p.p(), o.p(), (unsigned)K.r.below(16)))) K.put(p, fs); Bytes h = u, v = K.r.nearle(fs, 2 * ecm(c)); h.insert(h.end(), v.begin(), v.end()); CV(eddsa_pubkey_from_hash(e, o.p(), h.data(), (int)K.r.below(2))); K.put(o, as); if (K.r.chance(1, 4) && C1(eddsa_pubkey_to_hash(e, p.p(), o.p(), 0, ent.data()))) K.put(p, 2 * fs); }
void op_rist(Cat &K) { int c = (int)K.r.below(NE); const edwards_curve_t *e = S.e[c]; size_t fs = ristretto_pubkey_size(e), ss = ristretto_privkey_size(e); Bytes t = K.r.nearle(ss, 2 * ecm(c) + 1), t2 = K.r.nearle(ss, 2 * ecm(c) + 1), x = K.r.nearle(fs, 2 * ecm(c)), ent = K.r.raw(32); Out a(fs), b(fs), o(2 * fs); if (C1(ristretto_pubkey_verify(e, x.data()))) memcpy(b.p(), x.data(), fs); else CV(ristretto_pubkey_from_uniform(e, b.p(), x.data())); K.put(b, fs); if (!C1(ristretto_pubkey_create(e, a.p(), t.data()))) return; K.put(a, fs); if (C1(ristretto_pubkey_add(e, o.p(), a.p(), b.p()))) K.put(o, fs); if (C1(ristretto_pubkey_tweak_add(e, o.p(), b.p(), t2.data()))) K.put(o, fs); if (C1(ristretto_pubkey_tweak_mul(e, o.p(), b.p(), t2.data()))) K.put(o, fs); if (C1(ristretto_pubkey_negate(e, o.p(), b.p()))) K.put(o, fs); if (C1(ristretto_derive(e, o.p(), b.p(), t.data()))) K.put(o, fs); if (C1(ristretto_pubkey_to_uniform(e, o.p(), a.p(), (unsigned)K.r.below(16)))) K.put(o, fs); Bytes h = x, v = K.r.nearle(fs, 2 * ecm(c)); h.insert(h.end(), v.begin(), v.end()); CV(ristretto_pubkey_from_hash(e, o.p(), h.data())); K.put(o, fs); if (C1(ristretto_privkey_tweak_add(e, o.p(), t.data(), t2.data()))) K.put(o, ss); if (C1(ristretto_privkey_invert(e, o.p(), t.data()))) K.put(o, ss); }
void op_ctx(Cat &K) { Bytes ent = K.r.bytes(32); int c = (int)K.r.below(NW + NM + NE); if (c < NW) { wei_curve_t *w = CP(wei_curve_create((wei_curve_id_t)c)); auto d = defer([&] { wei_curve_destroy(w); }); size_t ss = wei_curve_scalar_size(w), fs = wei_curve_field_size(w), n = 0; CV(wei_curve_randomize(w, ent.data())); Bytes k = wscalar(K.r, c, ss); Out a(2 * fs + 1); if (C1(ecdsa_pubkey_create(w, a.p(), &n, k.data(), 1))) K.put(a, n); wei_scratch_t *sc = CP(wei_scratch_create(w, 1 + K.r.below(20))); CV(wei_scratch_destroy(w, sc)); }
  else if (c < NW + NM) { c -= NW; mont_curve_t *m = CP(mont_curve_create((mont_curve_id_t)c)); auto d = defer([&] { mont_curve_destroy(m); }); Bytes k = K.r.bytes(ecdh_privkey_size(m)); Out a(80); CV(ecdh_pubkey_create(m, a.p(), k.data())); K.put(a, ecdh_pubkey_size(m)); }
  else { c -= NW + NM; edwards_curve_t *e = CP(edwards_curve_create((edwards_curve_id_t)c)); auto d = defer([&] { edwards_curve_destroy(e); }); CV(edwards_curve_randomize(e, ent.data())); Bytes k = K.r.bytes(eddsa_privkey_size(e)); Out a(80); CV(eddsa_pubkey_create(e, a.p(), k.data())); K.put(a, eddsa_pubkey_size(e)); edwards_scratch_t *sc = CP(edwards_scratch_create(e, 1 + K.r.below(20))); CV(edwards_scratch_destroy(e, sc)); } }

// ---- RSA, DSA
void op_rsasig(Cat &K) { const Key &k = S.rsa[K.r.below(NR)]; static const hash_id_t hs[] = {HASH_SHA1, HASH_SHA256, HASH_MD5, HASH_RIPEMD160, HASH_SHA224}; hash_id_t h = hs[K.r.below(5)]; Bytes m = K.r.bytes(hash_output_size(h)), ent = K.r.bytes(32); Out s(300); size_t n = 0; bool pss = K.r.chance(1, 2); size_t salt = K.r.below(3) == 0 ? (size_t)RSA_SALT_LENGTH_AUTO : K.r.chance(1, 2) ? (size_t)RSA_SALT_LENGTH_HASH : K.r.below(20);
  if (!C1(pss ? rsa_sign_pss(s.p(), &n, h, m.data(), m.size(), k.priv.data(), k.priv.size(), salt, ent.data()) : rsa_sign(s.p(), &n, h, m.data(), m.size(), k.priv.data(), k.priv.size(), ent.data()))) return; K.put(s, n); switch (K.r.below(4)) { case 0: s.p()[K.r.below(n)] ^= (u8)(1u << K.r.below(8)); break; case 1: m[0] ^= 1; break; default: break; } C1(pss ? rsa_verify_pss(h, m.data(), m.size(), s.p(), n, k.pub.data(), k.pub.size(), salt) : rsa_verify(h, m.data(), m.size(), s.p(), n, k.pub.data(), k.pub.size())); }
void op_rsaenc(Cat &K) { const Key &k = S.rsa[K.r.below(NR)]; Bytes m = K.r.bytes(K.r.below(k.size - 10)), ent = K.r.bytes(32), ent2 = K.r.bytes(32), lab = K.r.bytes(K.r.below(20)); Out c(300), o(300), v(300); size_t n = 0, l = 0; bool oaep = K.r.chance(1, 2); hash_id_t h = K.r.chance(1, 2) ? HASH_SHA1 : HASH_MD5; if (oaep && m.size() > k.size - 2 * hash_output_size(h) - 2) m.resize(k.size - 2 * hash_output_size(h) - 2);
  if (!C1(oaep ? rsa_encrypt_oaep(c.p(), &n, h, m.data(), m.size(), k.pub.data(), k.pub.size(), lab.data(), lab.size(), ent.data()) : rsa_encrypt(c.p(), &n, m.data(), m.size(), k.pub.data(), k.pub.size(), ent.data()))) return; K.put(c, n); if (C1(rsa_veil(v.p(), &l, c.p(), n, (unsigned)(k.size * 8 + 64), k.pub.data(), k.pub.size(), ent2.data()))) { K.putr(v, l); if (C1(rsa_unveil(o.p(), &l, v.p(), l, (unsigned)(k.size * 8 + 64), k.pub.data(), k.pub.size()))) K.put(o, l); }
  if (K.r.chance(1, 3)) c.p()[K.r.below(n)] ^= 1; if (C1(oaep ? rsa_decrypt_oaep(o.p(), &l, h, c.p(), n, k.priv.data(), k.priv.size(), lab.data(), lab.size(), ent2.data()) : rsa_decrypt(o.p(), &l, c.p(), n, k.priv.data(), k.priv.size(), ent2.data()))) K.put(o, l); if (!oaep && C1(rsa_decrypt_key(o.p(), m.size(), c.p(), n, k.priv.data(), k.priv.size(), ent2.data()))) K.put(o, m.size()); }
void op_rsakey(Cat &K) { Bytes ent = K.r.bytes(32); Out o(4000), q(4000); size_t n = 0, l = 0; const Key &k = S.rsa[K.r.below(NR)]; Bytes p = k.priv, u = k.pub; if (K.r.chance(1, 3)) p[K.r.below(p.size())] ^= (u8)(1u << K.r.below(8)); C1(rsa_privkey_verify(p.data(), p.size())); K.num(rsa_privkey_bits(p.data(), p.size())); if (C1(rsa_privkey_export(o.p(), &n, p.data(), p.size()))) { K.put(o, n); if (K.r.chance(1, 3)) o.p()[K.r.below(n)] ^= 1; if (C1(rsa_privkey_import(q.p(), &l, o.p(), n, ent.data()))) K.put(q, l); } if (C1(rsa_pubkey_create(o.p(), &n, p.data(), p.size()))) K.put(o, n); C1(rsa_pubkey_verify(u.data(), u.size())); if (C1(rsa_pubkey_export(o.p(), &n, u.data(), u.size())) && C1(rsa_pubkey_import(q.p(), &l, o.p(), n))) K.put(q, l); }
void op_rsagen(Cat &K) { Bytes ent = K.r.bytes(32); Out o(4000); size_t n = 0; static const u64 es[] = {3, 65537, 17, 0x1ffffffffull}; u64 e = es[K.r.below(4)]; if (C1(rsa_privkey_generate(o.p(), &n, (unsigned)(512 + K.r.below(20)), e, ent.data()))) { K.putr(o, n);
  // the public half of what was generated must carry the exponent asked for, and work
  Out q(4000), s(600); size_t l = 0, sl = 0; C1(rsa_privkey_verify(o.p(), n)); if (C1(rsa_pubkey_create(q.p(), &l, o.p(), n))) { Out x(4000); size_t xl = 0; if (C1(rsa_pubkey_export(x.p(), &xl, q.p(), l))) { size_t nl = (size_t)x.p()[0] << 8 | x.p()[1]; if (nl + 2 < xl) K.put(x.p() + nl + 2, xl - nl - 2); } C1(rsa_sign(s.p(), &sl, HASH_SHA256, ent.data(), 32, o.p(), n, ent.data())); C1(rsa_verify(HASH_SHA256, ent.data(), 32, s.p(), sl, q.p(), l)); } } }
void op_dsa(Cat &K) { const Key &k = S.dsa[K.r.below(ND)]; size_t qs = k.size; Bytes m = K.r.bytes(K.r.len(70)), ent = K.r.bytes(32); Out s(300), o(4000), q(4000); size_t n = 0, l = 0; if (!C1(dsa_sign(s.p(), &n, m.data(), m.size(), k.priv.data(), k.priv.size(), ent.data()))) return; K.put(s, n); if (K.r.chance(1, 3)) s.p()[K.r.below(n)] ^= (u8)(1u << K.r.below(8)); C1(dsa_verify(m.data(), m.size(), s.p(), n, k.pub.data(), k.pub.size())); if (C1(dsa_sig_export(o.p(), &l, s.p(), n, qs))) { K.put(o, l); if (K.r.chance(1, 3)) o.p()[K.r.below(l)] ^= 1; size_t l2 = 0; if (C1(dsa_sig_import(q.p(), &l2, o.p(), l, qs))) K.put(q, l2); }
  if (C1(dsa_privkey_create(o.p(), &n, k.params.data(), k.params.size(), ent.data()))) { K.putr(o, n); C1(dsa_privkey_verify(o.p(), n)); if (C1(dsa_derive(q.p(), &l, k.pub.data(), k.pub.size(), o.p(), n))) K.putr(q, l); if (C1(dsa_pubkey_create(q.p(), &l, o.p(), n))) { K.putr(q, l); C1(dsa_pubkey_verify(q.p(), l)); } } Bytes pp = k.params; if (K.r.chance(1, 2)) pp[K.r.below(pp.size())] ^= 1; C1(dsa_params_verify(pp.data(), pp.size())); }

// ---- integers: a program over six registers
struct Regs { mpz_t z[6]; int live = 0; ~Regs() { if (!cat_dead) for (int i = 0; i < live; i++) mpz_clear(z[i]); } };
void rngf(void *out, size_t n, void *arg) { In *r = (In *)arg; cfill(r->next(), out, n); }
void op_mpz(Cat &K) { Regs g; for (int i = 0; i < 6; i++) { CV(mpz_init(g.z[i])); g.live = i + 1; Bytes b = K.r.chance(1, 5) ? K.r.near(66, (int)K.r.below(18)) : K.r.bytes(K.r.len(90)); CV(mpz_import(g.z[i], b.data(), b.size(), K.r.chance(1, 2) ? 1 : -1)); if (K.r.chance(1, 4)) CV(mpz_neg(g.z[i], g.z[i])); }
  int n = 3 + (int)K.r.below(8); for (int i = 0; i < n; i++) { mpz_ptr a = g.z[K.r.below(6)], b = g.z[K.r.below(6)], x = g.z[K.r.below(6)], y = g.z[K.r.below(6)], m = g.z[K.r.below(6)]; mp_limb_t w = (mp_limb_t)(u32)(K.r.chance(1, 3) ? ~0ull : K.r.next()); mp_bits_t sh = (mp_bits_t)K.r.below(200); if (mpz_bitlen(a) > 6000 || mpz_bitlen(x) > 3000) { CV(mpz_quo_2exp(a, a, 2000)); CV(mpz_quo_2exp(x, x, 2500)); }
    switch (K.r.below(48)) { case 0: CV(mpz_add(a, x, y)); break; case 1: CV(mpz_sub(a, x, y)); break; case 2: CV(mpz_mul(a, x, y)); break; case 3: CV(mpz_sqr(a, x)); break; case 4: if (mpz_sgn(y) && a != b) CV(mpz_quorem(a, b, x, y)); break; case 5: if (mpz_sgn(y) && a != b) CV(mpz_divmod(a, b, x, y)); break; case 6: if (mpz_sgn(y)) CV(mpz_mod(a, x, y)); break; case 7: if (mpz_sgn(y)) CV(mpz_divround(a, x, y)); break; case 8: CV(mpz_gcd(a, x, y)); break; case 9: if (mpz_sgn(y) > 0) { if (C1(mpz_invert(a, x, y)) == 0) CV(mpz_set_ui(a, 7)); } break; case 10: if (mpz_sgn(m) && mpz_sgn(y) >= 0 && mpz_bitlen(y) < 300 && mpz_bitlen(m) < 1200) CV(mpz_powm(a, x, y, m)); break; case 11: if (mpz_sgn(m) > 0 && mpz_odd_p(m) && mpz_sgn(y) > 0 && mpz_bitlen(y) < 300 && mpz_bitlen(m) < 1200) CV(mpz_powm_sec(a, x, y, m)); break; case 12: CV(mpz_mul_2exp(a, x, sh)); break; case 13: CV(mpz_quo_2exp(a, x, sh)); break; case 14: CV(mpz_div_2exp(a, x, sh)); break; case 15: CV(mpz_and(a, x, y)); break; case 16: CV(mpz_ior(a, x, y)); break; case 17: CV(mpz_xor(a, x, y)); break; case 18: CV(mpz_com(a, x)); break; case 19: CV(mpz_mul_ui(a, x, w)); break; case 20: CV(mpz_add_ui(a, x, w)); break; case 21: CV(mpz_sub_ui(a, x, w)); break; case 22: if (w) { K.num64(mpz_rem_ui(x, w)); CV(mpz_quo_ui(a, x, w)); } break; case 23: if (mpz_sgn(x) >= 0) CV(mpz_sqrt(a, x)); break; case 24: K.num(mpz_perfect_square_p(x)); break; case 25: CV(mpz_addmul(a, x, y)); break; case 26: CV(mpz_submul(a, x, y)); break; case 27: if (mpz_odd_p(y) && mpz_sgn(y) > 0) K.num(mpz_jacobi(x, y)); break; case 28: { int cmp = mpz_cmp(x, y); K.num((cmp > 0) - (cmp < 0)); break; } case 29: if (a != b && a != x && b != x && mpz_sgn(x) && mpz_sgn(y)) CV(mpz_gcdext(a, b, nullptr, x, y)); break; case 30: if (mpz_bitlen(x) < 700) { int base = 2 + (int)K.r.below(61); char *s = CP(mpz_get_str(x, base)); K.put(s, strlen(s)); mpz_ptr t = a; std::string st = s; C1(mpz_set_str(t, st.c_str(), base) == 1 ? 1 : 2); torsion_memzero(s, strlen(s)); cat_free(s); } break; case 31: if (mpz_bitlen(x) < 200) { In rr(K.r.next()); K.num(mpz_probab_prime_p(x, 10, rngf, &rr)); } break; case 32: if (mpz_bitlen(x) < 90) { In rr(K.r.next()); CV(mpz_nextprime(a, x, rngf, &rr)); } break; case 33: if (mpz_sgn(y)) { CV(mpz_mul(a, x, y)); if (a != y && mpz_sgn(y)) CV(mpz_divexact(b, a, y)); } break; case 34: CV(mpz_lcm(a, x, y)); break;
      case 35: K.num64((u64)mpz_popcount(x)); if (mpz_sgn(x) * mpz_sgn(y) > 0) K.num64((u64)mpz_hamdist(x, y)); break; case 36: if (mpz_sgn(x)) K.num64((u64)mpz_ctz(x)); K.num64((u64)mpz_bitlen(x)); K.num64((u64)mpz_sizeinbase(x, 2 << K.r.below(5))); break; case 37: K.num(mpz_tstbit(x, (mp_bits_t)K.r.below(800))); break; case 38: K.num(mpz_perfect_power_p(x)); break; case 39: if (mpz_sgn(x) >= 0) { if (C1(mpz_root(a, x, (mp_limb_t)(2 + K.r.below(7))))) K.num(1); } break; case 40: K.num(mpz_kronecker(x, y)); break; case 41: CV(mpz_fac_ui(a, (mp_limb_t)K.r.below(90))); break; case 42: CV(mpz_set_compact(a, (mp_limb_t)(u32)((K.r.next() & 0xffffff) | K.r.below(34) << 24))); K.num64(mpz_get_compact(x) & 0xffffffffull); break;
      // small numbers: tables and trial division
      case 43: case 44: { CV(mpz_set_ui(a, (mp_limb_t)K.r.below(1 << (4 + K.r.below(11))))); In rr(K.r.next()); K.num(mpz_probab_prime_p(a, 5, rngf, &rr)); break; } case 45: if (mpz_sgn(m)) CV(mpz_mulshift(a, x, y, (mp_bits_t)(1 + K.r.below(200)))); break; case 46: if (mpz_sgn(x) && mpz_sgn(y) && mpz_bitlen(y) > 1) { mp_bits_t k = mpz_remove(a, x, y); K.num64((u64)k); } break;
      default: CV(mpz_swap(a, x)); } }
  for (int i = 0; i < 6; i++) { size_t l = mpz_bytelen(g.z[i]); Out o(l); CV(mpz_export(o.p(), g.z[i], l, 1)); K.num(mpz_sgn(g.z[i])); K.put(o, l); } }
// ---- what the generic interfaces above do not reach
struct Grind { int left; Bytes pub; size_t n; };
int ground(const unsigned char *pub, void *arg) { Grind *g = (Grind *)arg; g->pub.insert(g->pub.end(), pub, pub + g->n); return --g->left < 0; }
template <class T, class E, class D> void direct(Cat &K, T &x, size_t bs, E enc, D dec) { Bytes b = K.r.bytes(bs); Out o(16), q(16); bool in = K.r.chance(1, 3); if (in) { memcpy(o.p(), b.data(), bs); CV(enc(&x, o.p(), o.p())); } else CV(enc(&x, o.p(), b.data())); K.put(o, bs); CV(dec(&x, q.p(), b.data())); K.put(q, bs); CV(dec(&x, o.p(), o.p())); K.put(o, bs); }
void op_blocks(Cat &K) { static const unsigned bits[] = {128, 192, 256}; unsigned b = bits[K.r.below(3)]; Bytes k = K.r.bytes(128);
  switch (K.r.below(12)) {
    case 0: { aes_t x; if (K.r.chance(1, 2)) CV(aes_init(&x, b, k.data())); else { CV(aes_init_encrypt(&x, b, k.data())); Bytes m = K.r.bytes(16); Out o(16); CV(aes_encrypt(&x, o.p(), m.data())); K.put(o, 16); CV(aes_init_decrypt(&x)); } direct(K, x, 16, aes_encrypt, aes_decrypt); break; }
    case 1: { arc2_t x; CV(arc2_init(&x, k.data(), 1 + K.r.below(128), (unsigned)(K.r.chance(1, 3) ? 1024 - K.r.below(3) : K.r.below(1025)))); direct(K, x, 8, arc2_encrypt, arc2_decrypt); break; }
    case 2: { blowfish_t x; Bytes s = K.r.bytes(16 * K.r.below(2)); CV(blowfish_init(&x, k.data(), 1 + K.r.below(72), s.data(), s.size())); direct(K, x, 8, blowfish_encrypt, blowfish_decrypt); break; }
    case 3: { camellia_t x; CV(camellia_init(&x, b, k.data())); direct(K, x, 16, camellia_encrypt, camellia_decrypt); break; }
    case 4: { cast5_t x; CV(cast5_init(&x, k.data())); direct(K, x, 8, cast5_encrypt, cast5_decrypt); break; }
    case 5: { des_t x; CV(des_init(&x, k.data())); direct(K, x, 8, des_encrypt, des_decrypt); break; }
    case 6: { des_ede_t x; CV(des_ede_init(&x, k.data())); direct(K, x, 8, des_ede_encrypt, des_ede_decrypt); break; }
    case 7: { des_ede3_t x; CV(des_ede3_init(&x, k.data())); direct(K, x, 8, des_ede3_encrypt, des_ede3_decrypt); break; }
    case 8: { idea_t x; if (K.r.chance(1, 2)) CV(idea_init(&x, k.data())); else { CV(idea_init_encrypt(&x, k.data())); Bytes m = K.r.bytes(8); Out o(8); CV(idea_encrypt(&x, o.p(), m.data())); K.put(o, 8); CV(idea_init_decrypt(&x)); } direct(K, x, 8, idea_encrypt, idea_decrypt); break; }
    case 9: { serpent_t x; CV(serpent_init(&x, b, k.data())); direct(K, x, 16, serpent_encrypt, serpent_decrypt); break; }
    case 10: { twofish_t x; CV(twofish_init(&x, b, k.data())); direct(K, x, 16, twofish_encrypt, twofish_decrypt); break; }
    default: { size_t n = 1 + K.r.below(40), l = K.r.below(n), g = 0; Bytes d = K.r.bytes(l); Out o(n), q(n); CV(pkcs7_pad(o.p(), d.data(), l, n)); K.put(o, n); if (K.r.chance(1, 2)) o.p()[K.r.chance(1, 2) ? n - 1 : K.r.below(n)] = (u8)(K.r.chance(1, 2) ? K.r.below(n + 2) : K.r.next()); if (C1(pkcs7_unpad(q.p(), &g, o.p(), n))) K.put(q, g); K.num((i64)g); } } }
void op_grind(Cat &K) { Bytes ent = K.r.bytes(32); Out o(80), a(80); Grind g; g.left = (int)K.r.below(3);
  if (K.r.chance(1, 2)) { const mont_curve_t *m = S.m[K.r.below(NM)]; size_t ss = ecdh_privkey_size(m); g.n = ecdh_pubkey_size(m); CV(ecdh_privkey_grind(m, o.p(), ent.data(), ground, &g)); K.put(o, ss); CV(ecdh_pubkey_create(m, a.p(), o.p())); K.put(a, g.n); C1(ecdh_privkey_verify(m, o.p())); CV(ecdh_privkey_generate(m, o.p(), ent.data())); K.put(o, ss); C1(ecdh_privkey_verify(m, K.r.bytes(ss).data())); }
  else { const edwards_curve_t *e = S.e[K.r.below(NE)]; size_t as = eddsa_pubkey_size(e), ps = eddsa_privkey_size(e), ss = edwards_curve_scalar_size(e); g.n = as; if (K.r.chance(1, 2)) { CV(eddsa_privkey_grind(e, o.p(), ent.data(), ground, &g)); K.put(o, ps); CV(eddsa_pubkey_create(e, a.p(), o.p())); K.put(a, as); } else { CV(eddsa_scalar_grind(e, o.p(), ent.data(), ground, &g)); K.put(o, ss); CV(eddsa_pubkey_from_scalar(e, a.p(), o.p())); K.put(a, as); }
    Bytes t = K.r.bytes(ss); C1(eddsa_privkey_verify(e, K.r.bytes(ps).data())); C1(eddsa_scalar_verify(e, t.data())); C1(eddsa_scalar_is_zero(e, t.data())); CV(eddsa_scalar_clamp(e, o.p(), t.data())); K.put(o, ss); C1(eddsa_scalar_verify(e, o.p())); CV(eddsa_scalar_clamp(e, a.p(), o.p())); K.put(a, ss); }
  K.put(g.pub.data(), g.pub.size()); }
typedef void (*opf)(Cat &);
const opf fns[] = {op_hash, op_hmac, op_poly, op_sums, op_stream, op_aead, op_cipher, op_modes, op_drbg, op_kdf, op_bcrypt, op_scrypt, op_base, op_base58, op_addr, op_ecdsa, op_eckeys, op_ecmap, op_schnorr, op_batch, op_ecdh, op_eddsa, op_edkeys, op_rist, op_ctx, op_rsasig, op_rsaenc, op_rsakey, op_rsagen, op_dsa, op_mpz, op_blocks, op_grind};
Bytes dumb(std::initializer_list<Bytes> l) { Bytes r; for (auto &b : l) { r.push_back((u8)(b.size() >> 8)); r.push_back((u8)b.size()); r.insert(r.end(), b.begin(), b.end()); } return r; }
}
// strings returned by the integer code come from the library's allocator
#ifdef CAT_SIM_HEAP
extern "C" void sim_free(void *);
void cat_free(void *p) { sim_free(p); }
#else
void cat_free(void *p) { ::free(p); }
#endif
const CatInfo cat_ops[] = {{"hash", 10, false}, {"hmac", 20, false}, {"poly1305", 5, false}, {"sums", 5, false}, {"stream cipher", 10, false}, {"aead", 15, false}, {"block cipher", 30, false}, {"cipher modes", 30, false}, {"drbg", 60, false}, {"kdf", 60, false}, {"bcrypt", 3000, false}, {"scrypt", 400, true}, {"base16-64", 5, false}, {"base58", 10, true}, {"addresses", 10, false}, {"ecdsa", 1500, false}, {"ec keys", 2500, false}, {"ec maps", 1500, false}, {"schnorr", 2000, false}, {"batch", 3000, true}, {"ecdh", 700, false}, {"eddsa", 1500, false}, {"ed keys", 2000, false}, {"ristretto", 1500, false}, {"contexts", 3000, true}, {"rsa signatures", 800, true}, {"rsa encryption", 1500, true}, {"rsa keys", 600, true}, {"rsa generation", 20000, true}, {"dsa", 2500, true}, {"integers", 60, true}, {"single blocks", 20, false}, {"key search", 1500, false}};
int cat_count() { return (int)(sizeof fns / sizeof *fns); }
void cat_init() {
  if (S.ready) return;
  for (int i = 0; i < NW; i++) S.w[i] = wei_curve_create((wei_curve_id_t)i);
  for (int i = 0; i < NM; i++) S.m[i] = mont_curve_create((mont_curve_id_t)i);
  for (int i = 0; i < NE; i++) S.e[i] = edwards_curve_create((edwards_curve_id_t)i);
  // imported rather than generated: generation samples in words
  static const struct { int i; u32 e; } rk[NR] = {{0, 65537}, {3, 3}, {5, 17}, {4, 65537}, {7, 65537}};
  for (int i = 0; i < NR; i++) { const RPrimes &f = rprimes[rk[i].i]; Bytes o(4000), ent(32, (u8)(i + 1)), z(1, 0); size_t n = 0; bool ok = false;
    for (u32 e = rk[i].e; !ok && e < rk[i].e + 40; e += 2) { Bytes d = dumb({z, Bytes{(u8)(e >> 16), (u8)(e >> 8), (u8)e}, z, unhex(f.p), unhex(f.q), z, z, z}); ok = rsa_privkey_import(o.data(), &n, d.data(), d.size(), ent.data()); }
    if (!ok) abort(); S.rsa[i].priv.assign(o.begin(), o.begin() + (long)n); if (!rsa_pubkey_create(o.data(), &n, S.rsa[i].priv.data(), S.rsa[i].priv.size())) abort(); S.rsa[i].pub.assign(o.begin(), o.begin() + (long)n); S.rsa[i].size = ((size_t)f.bits + 7) / 8; }
  static const int dk[ND] = {0, 2, 3, 5};
  for (int i = 0; i < ND; i++) { const FGroup &f = fgroups[dk[i]]; Bytes o(6000), ent(32, (u8)(i + 1)), d = dumb({unhex(f.p), unhex(f.q), unhex(f.g)}); size_t n = 0; if (!dsa_params_import(o.data(), &n, d.data(), d.size())) abort(); S.dsa[i].params.assign(o.begin(), o.begin() + (long)n); Bytes x(20, (u8)(0x31 + i)); d = dumb({unhex(f.p), unhex(f.q), unhex(f.g), Bytes(1, 0), x}); if (!dsa_privkey_import(o.data(), &n, d.data(), d.size())) abort(); S.dsa[i].priv.assign(o.begin(), o.begin() + (long)n); if (!dsa_pubkey_create(o.data(), &n, S.dsa[i].priv.data(), S.dsa[i].priv.size())) abort(); S.dsa[i].pub.assign(o.begin(), o.begin() + (long)n); S.dsa[i].size = (size_t)f.qbits / 8; }
  S.ready = true;
}
void cat_run(int op, u64 seed, const CatHooks *h, CatResult &r) { r.out.clear(); r.smp.clear(); r.calls = 0; Cat K(seed, h, r); fns[op](K); }
extern "C" void cat_start(void) { cat_init(); }
extern "C" size_t cat_eval(int op, u64 seed, u8 *out, size_t cap) { CatResult r; cat_run(op, seed, nullptr, r); Bytes b; for (int i = 0; i < 4; i++) b.push_back((u8)(r.out.size() >> (8 * i))); b.insert(b.end(), r.out.begin(), r.out.end()); b.insert(b.end(), r.smp.begin(), r.smp.end()); size_t n = b.size() < cap ? b.size() : cap; memcpy(out, b.data(), n); return n; }
