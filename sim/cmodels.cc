#define OPENSSL_SUPPRESS_DEPRECATED
#include "cmodels.h"
#include "models.h"
#include <openssl/aes.h>
#include <openssl/camellia.h>
#include <openssl/des.h>
#include <openssl/blowfish.h>
#include <openssl/cast.h>
#include <openssl/rc2.h>

namespace {
struct BAes : Block { AES_KEY e, d; BAes(const Bytes &k) { bs = 16; AES_set_encrypt_key(k.data(), (int)k.size() * 8, &e); AES_set_decrypt_key(k.data(), (int)k.size() * 8, &d); }
  void enc(const u8 *i, u8 *o) const override { AES_encrypt(i, o, &e); } void dec(const u8 *i, u8 *o) const override { AES_decrypt(i, o, &d); } };
struct BCam : Block { CAMELLIA_KEY k; BCam(const Bytes &key) { bs = 16; Camellia_set_key(key.data(), (int)key.size() * 8, &k); }
  void enc(const u8 *i, u8 *o) const override { Camellia_encrypt(i, o, &k); } void dec(const u8 *i, u8 *o) const override { Camellia_decrypt(i, o, &k); } };
struct BDes : Block { DES_key_schedule k[3]; int n; BDes(const Bytes &key) { bs = 8; n = (int)key.size() / 8; for (int i = 0; i < n; i++) { DES_cblock c; memcpy(c, &key[8 * i], 8); DES_set_key_unchecked(&c, &k[i]); } if (n == 2) k[2] = k[0]; }
  void run(const u8 *i, u8 *o, int e) const { DES_cblock a, b; memcpy(a, i, 8); DES_key_schedule *s = const_cast<DES_key_schedule *>(k); if (n == 1) DES_ecb_encrypt(&a, &b, s, e); else DES_ecb3_encrypt(&a, &b, s, s + 1, s + 2, e); memcpy(o, b, 8); }
  void enc(const u8 *i, u8 *o) const override { run(i, o, DES_ENCRYPT); } void dec(const u8 *i, u8 *o) const override { run(i, o, DES_DECRYPT); } };
struct BBf : Block { BF_KEY k; BBf(const Bytes &key) { bs = 8; BF_set_key(&k, (int)key.size(), key.data()); }
  void enc(const u8 *i, u8 *o) const override { BF_ecb_encrypt(i, o, &k, BF_ENCRYPT); } void dec(const u8 *i, u8 *o) const override { BF_ecb_encrypt(i, o, &k, BF_DECRYPT); } };
struct BCast : Block { CAST_KEY k; BCast(const Bytes &key) { bs = 8; CAST_set_key(&k, (int)key.size(), key.data()); }
  void enc(const u8 *i, u8 *o) const override { CAST_ecb_encrypt(i, o, &k, CAST_ENCRYPT); } void dec(const u8 *i, u8 *o) const override { CAST_ecb_encrypt(i, o, &k, CAST_DECRYPT); } };
struct BRc2 : Block { mutable RC2_KEY k; BRc2(const Bytes &key, int bits) { bs = 8; RC2_set_key(&k, (int)key.size(), key.data(), bits); }
  void enc(const u8 *i, u8 *o) const override { RC2_ecb_encrypt(i, o, &k, RC2_ENCRYPT); } void dec(const u8 *i, u8 *o) const override { RC2_ecb_encrypt(i, o, &k, RC2_DECRYPT); } };
struct BIdea : Block {
  u16 ek[52], dk[52];
  static u16 mul(u32 a, u32 b) { if (!a) a = 65536; if (!b) b = 65536; return (u16)((u64)a * b % 65537); }
  static u16 inv(u16 x) { u64 b = x ? x : 65536, r = 1, e = 65535; while (e) { if (e & 1) r = r * b % 65537; b = b * b % 65537; e >>= 1; } return (u16)r; }
  BIdea(const Bytes &key) {
    bs = 8; auto bit = [&](size_t i) { i %= 128; return (key[i / 8] >> (7 - i % 8)) & 1; };
    for (size_t i = 0; i < 52; i++) { u16 v = 0; for (size_t j = 0; j < 16; j++) v = (u16)(v << 1 | bit((i % 8) * 16 + j + 25 * (i / 8))); ek[i] = v; }
    for (int r = 0; r <= 8; r++) { const u16 *e = ek + (8 - r) * 6; u16 *d = dk + r * 6; bool edge = r == 0 || r == 8;
      d[0] = inv(e[0]); d[1] = (u16)-(edge ? e[1] : e[2]); d[2] = (u16)-(edge ? e[2] : e[1]); d[3] = inv(e[3]);
      if (r < 8) { const u16 *f = ek + (7 - r) * 6; d[4] = f[4]; d[5] = f[5]; } }
  }
  static void run(const u16 *k, const u8 *in, u8 *out) {
    u16 x[4]; for (int i = 0; i < 4; i++) x[i] = (u16)(in[2 * i] << 8 | in[2 * i + 1]);
    for (int r = 0; r < 8; r++, k += 6) {
      x[0] = mul(x[0], k[0]); x[1] = (u16)(x[1] + k[1]); x[2] = (u16)(x[2] + k[2]); x[3] = mul(x[3], k[3]);
      u16 t = mul(x[0] ^ x[2], k[4]), u = mul((u16)((x[1] ^ x[3]) + t), k[5]); t = (u16)(t + u);
      u16 a = x[1]; x[0] ^= u; x[3] ^= t; x[1] = x[2] ^ u; x[2] = a ^ t;
    }
    u16 y[4] = {mul(x[0], k[0]), (u16)(x[2] + k[1]), (u16)(x[1] + k[2]), mul(x[3], k[3])};
    for (int i = 0; i < 4; i++) { out[2 * i] = (u8)(y[i] >> 8); out[2 * i + 1] = (u8)y[i]; }
  }
  void enc(const u8 *i, u8 *o) const override { run(ek, i, o); } void dec(const u8 *i, u8 *o) const override { run(dk, i, o); }
};
struct BLib : Block { cipher_t c; BLib(cipher_id_t id, const Bytes &k) { memset(&c, 0, sizeof c); cipher_init(&c, id, k.data(), k.size()); bs = cipher_block_size(id); }
  void enc(const u8 *i, u8 *o) const override { cipher_encrypt(&c, o, i); } void dec(const u8 *i, u8 *o) const override { cipher_decrypt(&c, o, i); } };
}
bool key_ok(cipher_id_t id, size_t n) {
  switch (id) {
    case CIPHER_ARC2: case CIPHER_ARC2_GUTMANN: return n >= 1 && n <= 128;
    case CIPHER_BLOWFISH: return n >= 1 && n <= 72;
    case CIPHER_ARC2_40: return n == 5;
    case CIPHER_ARC2_64: case CIPHER_DES: return n == 8;
    case CIPHER_AES192: case CIPHER_CAMELLIA192: case CIPHER_SERPENT192: case CIPHER_TWOFISH192: case CIPHER_DES_EDE3: return n == 24;
    case CIPHER_AES256: case CIPHER_CAMELLIA256: case CIPHER_SERPENT256: case CIPHER_TWOFISH256: return n == 32;
    default: return n == 16;
  }
}
std::unique_ptr<Block> mblock(cipher_id_t id, const Bytes &k, bool *ind) {
  if (!key_ok(id, k.size())) return nullptr;
  if (ind) *ind = true;
  typedef std::unique_ptr<Block> P;
  switch (id) {
    case CIPHER_AES128: case CIPHER_AES192: case CIPHER_AES256: return P(new BAes(k));
    case CIPHER_CAMELLIA128: case CIPHER_CAMELLIA192: case CIPHER_CAMELLIA256: return P(new BCam(k));
    case CIPHER_DES: case CIPHER_DES_EDE: case CIPHER_DES_EDE3: return P(new BDes(k));
    case CIPHER_BLOWFISH: return P(new BBf(k));
    case CIPHER_CAST5: return P(new BCast(k));
    case CIPHER_IDEA: return P(new BIdea(k));
    case CIPHER_ARC2: return P(new BRc2(k, (int)k.size() * 8));
    case CIPHER_ARC2_GUTMANN: case CIPHER_ARC2_128_GUTMANN: return P(new BRc2(k, 1024));
    case CIPHER_ARC2_40: return P(new BRc2(k, 40));
    case CIPHER_ARC2_64: return P(new BRc2(k, 64));
    case CIPHER_ARC2_128: return P(new BRc2(k, 128));
    default: if (ind) *ind = false; return P(new BLib(id, k));
  }
}
static void inc(u8 *p, size_t n) { while (n-- > 0) if (++p[n]) break; }
static void dbl_le(u8 *t, size_t n) { u8 c = t[n - 1] >> 7; for (size_t i = n; i-- > 1;) t[i] = (u8)(t[i] << 1 | t[i - 1] >> 7); t[0] = (u8)(t[0] << 1); if (c) t[0] ^= n == 16 ? 0x87 : 0x1b; }
static void dbl_be(u8 *t, size_t n) { u8 c = t[0] >> 7; for (size_t i = 0; i + 1 < n; i++) t[i] = (u8)(t[i] << 1 | t[i + 1] >> 7); t[n - 1] = (u8)(t[n - 1] << 1); if (c) t[n - 1] ^= n == 16 ? 0x87 : 0x1b; }

MResult mmode(cipher_id_t id, mode_id_t mode, bool encrypt, bool padding, const Bytes &key0, const Bytes &iv, const Bytes &in) {
  MResult r{true, {}};
  Bytes key = key0, key2;
  if (mode == CIPHER_MODE_XTS) { key2.assign(key.begin() + key.size() / 2, key.end()); key.resize(key.size() / 2); }
  auto b = mblock(id, key);
  size_t bs = b->bs, n = in.size();
  Bytes x = in, chain = iv;
  auto bad = [] { return MResult{false, {}}; };
  switch (mode) {
    case CIPHER_MODE_RAW: if (n % bs) return bad(); padding = false; /* fallthrough */
    case CIPHER_MODE_ECB: case CIPHER_MODE_CBC: {
      if (!padding && n % bs) return bad();
      if (encrypt && padding) { size_t l = bs - n % bs; x.insert(x.end(), l, (u8)l); }
      if (!encrypt && (n % bs || (padding && n == 0))) return bad();
      r.out.resize(x.size());
      for (size_t i = 0; i < x.size(); i += bs) {
        u8 t[16];
        if (encrypt) { for (size_t j = 0; j < bs; j++) t[j] = x[i + j] ^ (mode == CIPHER_MODE_CBC ? chain[j] : 0); b->enc(t, &r.out[i]); if (mode == CIPHER_MODE_CBC) chain.assign(&r.out[i], &r.out[i] + bs); }
        else { b->dec(&x[i], t); for (size_t j = 0; j < bs; j++) r.out[i + j] = t[j] ^ (mode == CIPHER_MODE_CBC ? chain[j] : 0); if (mode == CIPHER_MODE_CBC) chain.assign(&x[i], &x[i] + bs); }
      }
      if (!encrypt && padding) { size_t l = r.out.back(); if (l == 0 || l > bs) return bad(); for (size_t i = 0; i < l; i++) if (r.out[r.out.size() - 1 - i] != l) return bad(); r.out.resize(r.out.size() - l); }
      return r;
    }
    case CIPHER_MODE_CTS: {
      if (!padding) return mmode(id, CIPHER_MODE_CBC, encrypt, false, key0, iv, in);
      if (n < bs) return bad();
      // whole blocks by CBC, the rest (possibly nothing) zero-extended as one more block, last two swapped, the shorter cut
      size_t full = n / bs * bs, tail = n - full;
      if (encrypt) {
        Bytes z = x; z.resize(full + bs);
        Bytes c = mmode(id, CIPHER_MODE_CBC, true, false, key0, iv, z).out;
        r.out.assign(c.begin(), c.begin() + (full - bs)); r.out.insert(r.out.end(), c.begin() + full, c.end()); r.out.insert(r.out.end(), c.begin() + (full - bs), c.begin() + (full - bs) + tail);
      } else {
        u8 d[16]; b->dec(&x[full - bs], d);                         // last ciphertext, comes one before the tail
        Bytes c(x.begin(), x.begin() + (full - bs)); Bytes prev(x.begin() + full, x.end()); for (size_t i = tail; i < bs; i++) prev.push_back(d[i]);
        c.insert(c.end(), prev.begin(), prev.end()); c.insert(c.end(), &x[full - bs], &x[full - bs] + bs);
        r.out = mmode(id, CIPHER_MODE_CBC, false, false, key0, iv, c).out; r.out.resize(n);
      }
      return r;
    }
    case CIPHER_MODE_XTS: {
      if (padding ? n < bs : n % bs) return bad();
      u8 t[16]; auto b2 = mblock(id, key2); b2->enc(iv.data(), t);
      size_t full = n / bs, tail = n % bs; r.out = x;
      auto one = [&](u8 *p, const u8 *tw) { for (size_t j = 0; j < bs; j++) p[j] ^= tw[j]; if (encrypt) b->enc(p, p); else b->dec(p, p); for (size_t j = 0; j < bs; j++) p[j] ^= tw[j]; };
      for (size_t i = 0; i < full; i++) {
        u8 *p = &r.out[i * bs];
        if (!encrypt && tail && i + 1 == full) { u8 t2[16]; memcpy(t2, t, 16); dbl_le(t2, bs); one(p, t2); for (size_t j = 0; j < tail; j++) std::swap(p[j], p[bs + j]); one(p, t); return r; }
        one(p, t); dbl_le(t, bs);
      }
      if (tail) { u8 *p = &r.out[(full - 1) * bs]; for (size_t j = 0; j < tail; j++) std::swap(p[j], p[bs + j]); one(p, t); }
      return r;
    }
    case CIPHER_MODE_CTR: { r.out = x; u8 s[16]; for (size_t i = 0; i < n; i++) { if (i % bs == 0) { b->enc(chain.data(), s); inc(chain.data(), bs); } r.out[i] ^= s[i % bs]; } return r; }
    case CIPHER_MODE_OFB: { r.out = x; for (size_t i = 0; i < n; i++) { if (i % bs == 0) b->enc(chain.data(), chain.data()); r.out[i] ^= chain[i % bs]; } return r; }
    case CIPHER_MODE_CFB: { r.out = x; u8 s[16]; for (size_t i = 0; i < n; i++) { if (i % bs == 0) b->enc(chain.data(), s); r.out[i] ^= s[i % bs]; chain[i % bs] = encrypt ? r.out[i] : x[i]; } return r; }
    default: return bad();
  }
}
// ---------------------------------------------------------------- GF(2^128), bit by bit
struct G { u64 hi, lo; };       // hi: first eight bytes
static G gl(const u8 *p) { G g{0, 0}; for (int i = 0; i < 8; i++) { g.hi = g.hi << 8 | p[i]; g.lo = g.lo << 8 | p[8 + i]; } return g; }
static void gs(G g, u8 *p) { for (int i = 0; i < 8; i++) { p[i] = (u8)(g.hi >> (56 - 8 * i)); p[8 + i] = (u8)(g.lo >> (56 - 8 * i)); } }
static G gmul(G x, G y) {
  G z{0, 0};
  for (int i = 0; i < 128; i++) {
    u64 bit = i < 64 ? x.hi >> (63 - i) & 1 : x.lo >> (127 - i) & 1;
    if (bit) { z.hi ^= y.hi; z.lo ^= y.lo; }
    u64 c = y.lo & 1; y.lo = y.lo >> 1 | y.hi << 63; y.hi >>= 1; if (c) y.hi ^= 0xe100000000000000ull;
  }
  return z;
}
static G ginv(G x) { G r{1ull << 63, 0}, b = x; for (int i = 0; i < 127; i++) { b = gmul(b, b); r = gmul(r, b); } return r; }   // x^(2^128-2)
static G ghash(G h, const Bytes &a, const Bytes &c) {
  G s{0, 0};
  for (const Bytes *d : {&a, &c}) for (size_t i = 0; i < d->size(); i += 16) { u8 t[16] = {0}; memcpy(t, d->data() + i, std::min<size_t>(16, d->size() - i)); G g = gl(t); s.hi ^= g.hi; s.lo ^= g.lo; s = gmul(s, h); }
  s.hi ^= (u64)a.size() * 8; s.lo ^= (u64)c.size() * 8;
  return gmul(s, h);
}
static G gcm_h(const Block &b) { u8 z[16] = {0}, h[16]; b.enc(z, h); return gl(h); }
void mgcm(const Block &b, const Bytes &iv, const Bytes &aad, const Bytes &in, bool encrypt, Bytes &out, u8 tag[16]) {
  G h = gcm_h(b); u8 j[16], ej[16];
  if (iv.size() == 12) { memcpy(j, iv.data(), 12); j[12] = j[13] = j[14] = 0; j[15] = 1; } else gs(ghash(h, {}, iv), j);
  b.enc(j, ej); out = in; u8 s[16];
  for (size_t i = 0; i < in.size(); i++) { if (i % 16 == 0) { inc(j + 12, 4); b.enc(j, s); } out[i] ^= s[i % 16]; }
  gs(ghash(h, aad, encrypt ? out : in), tag); for (int i = 0; i < 16; i++) tag[i] ^= ej[i];
}
Bytes gcm_iv_for(const Block &b, const u8 j0[16]) { G h = gcm_h(b), hi = ginv(h), x = gmul(gl(j0), hi); x.lo ^= 128; x = gmul(x, hi); Bytes iv(16); gs(x, iv.data()); return iv; }

void mccm(const Block &b, const Bytes &iv, const Bytes &aad, size_t M, const Bytes &in, bool encrypt, Bytes &out, u8 tag[16]) {
  size_t L = 15 - iv.size(); u8 a[16] = {0}, s[16];
  a[0] = (u8)(L - 1); memcpy(a + 1, iv.data(), iv.size());
  u8 a0[16]; memcpy(a0, a, 16);
  out = in; for (size_t i = 0; i < in.size(); i++) { if (i % 16 == 0) { inc(a + 16 - L, L); b.enc(a, s); } out[i] ^= s[i % 16]; }
  const Bytes &pt = encrypt ? in : out;
  Bytes m; m.push_back((u8)(64 * !aad.empty() + 8 * ((M - 2) / 2) + (L - 1))); m.insert(m.end(), iv.begin(), iv.end());
  for (size_t i = L; i-- > 0;) m.push_back(i < 8 ? (u8)((u64)in.size() >> (8 * i)) : 0);
  if (!aad.empty()) {
    u64 n = aad.size();
    if (n < 0xff00) { m.push_back((u8)(n >> 8)); m.push_back((u8)n); } else { m.push_back(0xff); m.push_back(0xfe); for (int i = 3; i >= 0; i--) m.push_back((u8)(n >> (8 * i))); }
    m.insert(m.end(), aad.begin(), aad.end()); while (m.size() % 16) m.push_back(0);
  }
  m.insert(m.end(), pt.begin(), pt.end()); while (m.size() % 16) m.push_back(0);
  u8 x[16] = {0}; for (size_t i = 0; i < m.size(); i += 16) { for (int j = 0; j < 16; j++) x[j] ^= m[i + j]; b.enc(x, x); }
  b.enc(a0, s); for (int i = 0; i < 16; i++) tag[i] = x[i] ^ s[i];
}
static Bytes omac(const Block &b, u8 t, const Bytes &m) {
  size_t bs = b.bs; Bytes d(bs, 0); d[bs - 1] = t; d.insert(d.end(), m.begin(), m.end());
  Bytes k(bs, 0); b.enc(k.data(), k.data()); dbl_be(k.data(), bs);
  if (d.size() % bs) { d.push_back(0x80); while (d.size() % bs) d.push_back(0); dbl_be(k.data(), bs); }
  for (size_t i = 0; i < bs; i++) d[d.size() - bs + i] ^= k[i];
  Bytes x(bs, 0); for (size_t i = 0; i < d.size(); i += bs) { for (size_t j = 0; j < bs; j++) x[j] ^= d[i + j]; b.enc(x.data(), x.data()); }
  return x;
}
void meax(const Block &b, const Bytes &iv, const Bytes &aad, const Bytes &in, bool encrypt, Bytes &out, Bytes &tag) {
  Bytes n = omac(b, 0, iv), h = omac(b, 1, aad), c = n; out = in; u8 s[16];
  for (size_t i = 0; i < in.size(); i++) { if (i % b.bs == 0) { b.enc(c.data(), s); inc(c.data(), b.bs); } out[i] ^= s[i % b.bs]; }
  tag = omac(b, 2, encrypt ? out : in); for (size_t i = 0; i < b.bs; i++) tag[i] ^= n[i] ^ h[i];
}
Bytes eax_iv_for(const Block &b, const Bytes &start) {
  size_t bs = b.bs; Bytes k(bs, 0), z(bs, 0), iv(bs); b.enc(k.data(), k.data()); b.enc(z.data(), z.data()); dbl_be(k.data(), bs);
  b.dec(start.data(), iv.data()); for (size_t i = 0; i < bs; i++) iv[i] ^= z[i] ^ k[i];
  return iv;
}
// ---------------------------------------------------------------- ChaCha20-Poly1305, secret boxes
static u32 r32(const u8 *p) { return p[0] | p[1] << 8 | p[2] << 16 | (u32)p[3] << 24; }
static const u32 K32[4] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574};
static Bytes ser(const u32 *w, std::initializer_list<int> l) { Bytes r; for (int i : l) for (int j = 0; j < 4; j++) r.push_back((u8)(w[i] >> (8 * j))); return r; }
Bytes mhsalsa(const Bytes &key, const u8 *n) {
  u32 s[16], o[16]; s[0] = K32[0]; s[5] = K32[1]; s[10] = K32[2]; s[15] = K32[3];
  for (int i = 0; i < 4; i++) { s[1 + i] = r32(&key[4 * i]); s[11 + i] = r32(&key[16 + 4 * i]); s[6 + i] = r32(n + 4 * i); }
  msalsa_block(s, o); return ser(o, {0, 5, 10, 15, 6, 7, 8, 9});
}
void mchachapoly(const Bytes &key0, const Bytes &iv, const Bytes &aad, const Bytes &in, bool encrypt, Bytes &out, u8 tag[16]) {
  Bytes key = key0; const u8 *n = iv.data(); size_t nl = iv.size();
  u32 s[16], o[16];
  if (nl >= 24) { memcpy(s, K32, 16); for (int i = 0; i < 8; i++) s[4 + i] = r32(&key[4 * i]); for (int i = 0; i < 4; i++) s[12 + i] = r32(n + 4 * i); mchacha_block(s, o); key = ser(o, {0, 1, 2, 3, 12, 13, 14, 15}); n += 16; nl -= 16; }
  memcpy(s, K32, 16); for (int i = 0; i < 8; i++) s[4 + i] = r32(&key[4 * i]);
  s[12] = s[13] = 0;
  if (nl == 8) { s[14] = r32(n); s[15] = r32(n + 4); } else if (nl == 12) { for (int i = 0; i < 3; i++) s[13 + i] = r32(n + 4 * i); } else for (int i = 0; i < 4; i++) s[12 + i] = r32(n + 4 * i);
  Bytes ks; auto block = [&] { mchacha_block(s, o); for (int i = 0; i < 16; i++) o[i] += s[i]; if (!++s[12]) s[13]++; ks.resize(64); for (int i = 0; i < 64; i++) ks[i] = (u8)(o[i / 4] >> (8 * (i % 4))); };
  block(); Bytes pk(ks.begin(), ks.begin() + 32);
  out = in; for (size_t i = 0; i < in.size(); i++) { if (i % 64 == 0) block(); out[i] ^= ks[i % 64]; }
  const Bytes &ct = encrypt ? out : in;
  Bytes m = aad; while (m.size() % 16) m.push_back(0); m.insert(m.end(), ct.begin(), ct.end()); while (m.size() % 16) m.push_back(0);
  for (u64 v : {(u64)aad.size(), (u64)ct.size()}) for (int i = 0; i < 8; i++) m.push_back((u8)(v >> (8 * i)));
  Bytes t = mpoly1305(pk.data(), m); memcpy(tag, t.data(), 16);
}
void msecretbox(const Bytes &key0, const Bytes &iv, const Bytes &in, bool encrypt, Bytes &out, u8 tag[16]) {
  Bytes key = mhsalsa(key0, iv.data()); u32 s[16], o[16]; s[0] = K32[0]; s[5] = K32[1]; s[10] = K32[2]; s[15] = K32[3];
  for (int i = 0; i < 4; i++) { s[1 + i] = r32(&key[4 * i]); s[11 + i] = r32(&key[16 + 4 * i]); }
  s[6] = r32(&iv[16]); s[7] = r32(&iv[20]); s[8] = s[9] = 0;
  Bytes ks; for (size_t i = 0; i < in.size() + 32; i += 64) { msalsa_block(s, o); for (int j = 0; j < 64; j++) ks.push_back((u8)((o[j / 4] + s[j / 4]) >> (8 * (j % 4)))); s[8]++; }
  out = in; for (size_t i = 0; i < in.size(); i++) out[i] ^= ks[32 + i];
  Bytes t = mpoly1305(ks.data(), encrypt ? out : in); memcpy(tag, t.data(), 16);
}
