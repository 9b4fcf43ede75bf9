// Independent reference models. OpenSSL's low-level functions where it has the algorithm, own straightforward code elsewhere.
#define OPENSSL_SUPPRESS_DEPRECATED
#include "models.h"
#include <openssl/md4.h>
#include <openssl/md5.h>
#include <openssl/ripemd.h>
#include <openssl/sha.h>
#include <openssl/whrlpool.h>
#include <boost/multiprecision/cpp_int.hpp>

template <class C, int (*I)(C *), int (*U)(C *, const void *, size_t), int (*F)(unsigned char *, C *), int N>
struct OHash : MHash {
  C c; OHash() { I(&c); }
  void update(const u8 *p, size_t n) override { while (n > (1u << 30)) { U(&c, p, 1u << 30); p += 1u << 30; n -= 1u << 30; } U(&c, p, n); }
  Bytes final() override { Bytes o(64); F(o.data(), &c); o.resize(N); return o; }
};

// ---- block buffering helper: keeps the last full block when lazy
struct Blk : MHash {
  Bytes buf; size_t bs; bool lazy; Blk(size_t b, bool l) : bs(b), lazy(l) {}
  virtual void block(const u8 *p) = 0;
  void update(const u8 *p, size_t n) override {
    if (!buf.empty()) { size_t t = std::min(n, bs - buf.size()); buf.insert(buf.end(), p, p + t); p += t; n -= t;
      if (buf.size() == bs && (!lazy || n)) { block(buf.data()); buf.clear(); } }
    while (lazy ? n > bs : n >= bs) { block(p); p += bs; n -= bs; }
    if (n) buf.insert(buf.end(), p, p + n);
  }
};

// ---- BLAKE2
static const u8 SIG[10][16] = {
  {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},
  {7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},
  {12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},
  {10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
template <class W, int ROUNDS, int R1, int R2, int R3, int R4> struct Blake2 : Blk {
  W h[8]; unsigned __int128 t = 0; size_t out;
  static W rot(W x, int n) { return (x >> n) | (x << (sizeof(W) * 8 - n)); }
  static W iv(int i) {
    static const u64 b[8] = {0x6a09e667f3bcc908ull,0xbb67ae8584caa73bull,0x3c6ef372fe94f82bull,0xa54ff53a5f1d36f1ull,0x510e527fade682d1ull,0x9b05688c2b3e6c1full,0x1f83d9abfb41bd6bull,0x5be0cd19137e2179ull};
    return sizeof(W) == 8 ? (W)b[i] : (W)(b[i] >> 32);
  }
  Blake2(size_t o, const Bytes &key) : Blk(16 * sizeof(W), true), out(o) {
    for (int i = 0; i < 8; i++) h[i] = iv(i);
    h[0] ^= (W)(0x01010000u ^ ((u32)key.size() << 8) ^ (u32)o);
    if (!key.empty()) { Bytes k(key); k.resize(bs); update(k.data(), bs); }
  }
  void comp(const u8 *p, bool last) {
    W m[16], v[16];
    for (int i = 0; i < 16; i++) { m[i] = 0; for (size_t k = 0; k < sizeof(W); k++) m[i] |= (W)p[i * sizeof(W) + k] << (8 * k); }
    for (int i = 0; i < 8; i++) { v[i] = h[i]; v[8 + i] = iv(i); }
    v[12] ^= (W)t; v[13] ^= (W)(t >> (8 * sizeof(W)));
    if (last) v[14] = ~v[14];
    static const int q[8][4] = {{0,4,8,12},{1,5,9,13},{2,6,10,14},{3,7,11,15},{0,5,10,15},{1,6,11,12},{2,7,8,13},{3,4,9,14}};
    for (int r = 0; r < ROUNDS; r++) for (int g = 0; g < 8; g++) {
      W &a = v[q[g][0]], &b = v[q[g][1]], &c = v[q[g][2]], &d = v[q[g][3]];
      a += b + m[SIG[r % 10][2 * g]]; d = rot(d ^ a, R1); c += d; b = rot(b ^ c, R2);
      a += b + m[SIG[r % 10][2 * g + 1]]; d = rot(d ^ a, R3); c += d; b = rot(b ^ c, R4);
    }
    for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[8 + i];
  }
  void block(const u8 *p) override { t += bs; comp(p, false); }
  Bytes final() override {
    t += buf.size(); Bytes b(buf); b.resize(bs); comp(b.data(), true);
    Bytes o; for (int i = 0; i < 8; i++) for (size_t k = 0; k < sizeof(W); k++) o.push_back((u8)(h[i] >> (8 * k)));
    o.resize(out); return o;
  }
};

// ---- Keccak sponge
static u64 rotl64(u64 x, int n) { return n ? (x << n) | (x >> (64 - n)) : x; }
static void keccakf(u64 *a) {
  u8 lfsr = 1;
  for (int r = 0; r < 24; r++) {
    u64 c[5], b[25];
    for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
    for (int x = 0; x < 5; x++) { u64 d = c[(x + 4) % 5] ^ rotl64(c[(x + 1) % 5], 1); for (int y = 0; y < 5; y++) a[x + 5 * y] ^= d; }
    int x = 1, y = 0; b[0] = a[0];
    for (int t = 0; t < 24; t++) { int nx = y, ny = (2 * x + 3 * y) % 5; b[nx + 5 * ny] = rotl64(a[x + 5 * y], ((t + 1) * (t + 2) / 2) % 64); x = nx; y = ny; }
    for (int yy = 0; yy < 5; yy++) for (int xx = 0; xx < 5; xx++) a[xx + 5 * yy] = b[xx + 5 * yy] ^ (~b[(xx + 1) % 5 + 5 * yy] & b[(xx + 2) % 5 + 5 * yy]);
    for (int j = 0; j < 7; j++) { int bit = (1 << j) - 1; if (lfsr & 1) a[0] ^= 1ull << bit; lfsr = (u8)((lfsr << 1) ^ ((lfsr >> 7) * 0x71)); }
  }
}
struct Keccak : Blk {
  u64 a[25]; unsigned pad; size_t out;
  Keccak(unsigned bits, unsigned p, size_t o) : Blk((1600 - 2 * bits) / 8, false), pad(p), out(o) { memset(a, 0, sizeof a); }
  void block(const u8 *p) override { for (size_t i = 0; i < bs; i++) a[i / 8] ^= (u64)p[i] << (8 * (i % 8)); keccakf(a); }
  Bytes final() override {
    Bytes b(buf); b.push_back((u8)pad); b.resize(bs); b[bs - 1] |= 0x80; block(b.data());
    Bytes o; while (true) { for (size_t i = 0; i < bs && o.size() < out; i++) o.push_back((u8)(a[i / 8] >> (8 * (i % 8)))); if (o.size() == out) break; keccakf(a); }
    return o;
  }
};

// ---- MD2: the substitution is the digits-of-pi permutation, generated as in RFC 1319's description
static const u8 *md2_pi() {
  static u8 S[256]; static bool done;
  if (done) return S;
  // digits of pi by a spigot
  static std::vector<int> dig; 
  { int n = 800; std::vector<int> a(n * 10 / 3 + 1, 2); int nines = 0, pre = 0; bool first = true;
    for (int j = 0; j < n; j++) { int q = 0; for (int i = (int)a.size() - 1; i >= 0; i--) { int x = 10 * a[i] + q * (i + 1); if (i) { a[i] = x % (2 * i + 1); q = x / (2 * i + 1); } else { a[0] = x % 10; q = x / 10; } }
      if (q == 9) nines++; else if (q == 10) { dig.push_back(pre + 1); for (int k = 0; k < nines; k++) dig.push_back(0); pre = 0; nines = 0; }
      else { if (!first) dig.push_back(pre); first = false; pre = q; for (int k = 0; k < nines; k++) dig.push_back(9); nines = 0; } } }
  size_t pos = 1;   // rand() of Knuth's shuffle uses successive digits: 3, 14, 159 ...
  auto digit = [&] { return dig[pos++]; };
  pos = 0;
  auto rnd = [&](int n) -> int {
    while (true) {
      int x = digit(), y = 10;
      if (n > 10) { x = x * 10 + digit(); y = 100; }
      if (n > 100) { x = x * 10 + digit(); y = 1000; }
      if (x < n * (y / n)) return x % n;
    }
  };
  for (int i = 0; i < 256; i++) S[i] = (u8)i;
  for (int i = 2; i <= 256; i++) { int j = rnd(i); std::swap(S[j], S[i - 1]); }
  done = true;
  return S;
}
struct Md2 : Blk {
  u8 x[48], c[16]; 
  Md2() : Blk(16, false) { memset(x, 0, 48); memset(c, 0, 16); }
  void mix(const u8 *p) { const u8 *S = md2_pi(); for (int i = 0; i < 16; i++) { x[16 + i] = p[i]; x[32 + i] = x[i] ^ p[i]; } unsigned t = 0; for (int j = 0; j < 18; j++) { for (int k = 0; k < 48; k++) t = x[k] ^= S[t]; t = (t + (unsigned)j) & 255; } }
  void block(const u8 *p) override { const u8 *S = md2_pi(); u8 l = c[15]; for (int i = 0; i < 16; i++) l = c[i] ^= S[p[i] ^ l]; mix(p); }
  Bytes final() override { Bytes b(buf); u8 n = (u8)(16 - b.size()); b.resize(16, n); block(b.data()); mix(c); return Bytes(x, x + 16); }
};

// ---- GOST R 34.11-94, RFC 5831 in 256-bit words, CryptoPro S-box
struct Gost94 : Blk {
  typedef std::array<u8, 32> B;
  B h, sum; unsigned __int128 len = 0;
  Gost94() : Blk(32, false) { h.fill(0); sum.fill(0); }
  static u32 f(u32 x) {
    static const char *S[8] = {"A4568137DCE092BF", "5F402DB91763CEA8", "7FCE94103B526A8D", "4A7C0F28E165DB93", "764B9C2A180EFD35", "7624D9F0A15B8EC3", "DE41705A3C8F629B", "13A95B4F867ED02C"};
    u32 r = 0;
    for (int i = 0; i < 8; i++) { char ch = S[i][(x >> (4 * i)) & 15]; u32 v = ch <= '9' ? (u32)(ch - '0') : (u32)(ch - 'A' + 10); r |= v << (4 * i); }
    return (r << 11) | (r >> 21);
  }
  static void enc(const B &k, u8 *blk) {
    u32 n1, n2, key[8]; memcpy(&n1, blk, 4); memcpy(&n2, blk + 4, 4); memcpy(key, k.data(), 32);
    for (int i = 0; i < 32; i++) { u32 kk = i < 24 ? key[i % 8] : key[7 - i % 8]; u32 t = n2 ^ f(n1 + kk); if (i < 31) { n2 = n1; n1 = t; } else n2 = t; }
    memcpy(blk, &n1, 4); memcpy(blk + 4, &n2, 4);
  }
  static B A(const B &y) { B r; for (int i = 0; i < 24; i++) r[i] = y[i + 8]; for (int i = 0; i < 8; i++) r[24 + i] = y[i] ^ y[8 + i]; return r; }
  static B P(const B &y) { B r; for (int i = 0; i < 4; i++) for (int k = 0; k < 8; k++) r[i + 4 * k] = y[8 * i + k]; return r; }
  static B X(const B &a, const B &b) { B r; for (int i = 0; i < 32; i++) r[i] = a[i] ^ b[i]; return r; }
  static B psi(B y, int n) { while (n--) { u8 a = y[0] ^ y[2] ^ y[4] ^ y[6] ^ y[24] ^ y[30], b = y[1] ^ y[3] ^ y[5] ^ y[7] ^ y[25] ^ y[31]; memmove(y.data(), y.data() + 2, 30); y[30] = a; y[31] = b; } return y; }
  void chi(const B &m) {
    B c3; static const u8 c[32] = {0,255,0,255,0,255,0,255,255,0,255,0,255,0,255,0,0,255,255,0,255,0,0,255,255,0,0,0,255,255,0,255}; memcpy(c3.data(), c, 32);
    B U = h, V = m, s = h;
    for (int i = 0; i < 4; i++) {
      if (i) { U = A(U); if (i == 2) U = X(U, c3); V = A(A(V)); }
      enc(P(X(U, V)), s.data() + 8 * i);
    }
    h = psi(X(h, psi(X(m, psi(s, 12)), 1)), 61);
  }
  void block(const u8 *p) override { B m; memcpy(m.data(), p, 32); chi(m); unsigned c = 0; for (int i = 0; i < 32; i++) { c += sum[i] + m[i]; sum[i] = (u8)c; c >>= 8; } len += 256; }
  Bytes final() override {
    if (!buf.empty()) { unsigned __int128 l = len + buf.size() * 8; Bytes b(buf); b.resize(32); block(b.data()); len = l; }
    B L; L.fill(0); for (int i = 0; i < 16; i++) L[i] = (u8)(len >> (8 * i));
    chi(L); chi(sum); return Bytes(h.begin(), h.end());
  }
};

struct Hash2 : MHash {     // double hashes and concatenations
  std::unique_ptr<MHash> a, b; MH kind;
  Hash2(MH k) : kind(k) {
    if (k == MH_MD5SHA1) { a = mhash(MSpec{MH_MD5, 0, 0, 16, 64, {}}); b = mhash(MSpec{MH_SHA1, 0, 0, 20, 64, {}}); }
    else a = mhash(MSpec{MH_SHA256, 0, 0, 32, 64, {}});
  }
  void update(const u8 *p, size_t n) override { a->update(p, n); if (b) b->update(p, n); }
  Bytes final() override {
    Bytes x = a->final();
    if (b) { Bytes y = b->final(); x.insert(x.end(), y.begin(), y.end()); return x; }
    return mhash(MSpec{kind == MH_HASH160 ? MH_RIPEMD160 : MH_SHA256, 0, 0, kind == MH_HASH160 ? 20u : 32u, 64, {}}, x);
  }
};

std::unique_ptr<MHash> mhash(const MSpec &s) {
  typedef std::unique_ptr<MHash> P;
  switch (s.alg) {
    case MH_BLAKE2B: return P(new Blake2<u64, 12, 32, 24, 16, 63>(s.out, s.key));
    case MH_BLAKE2S: return P(new Blake2<u32, 10, 16, 12, 8, 7>(s.out, s.key));
    case MH_GOST94: return P(new Gost94());
    case MH_HASH160: case MH_HASH256: case MH_MD5SHA1: return P(new Hash2(s.alg));
    case MH_KECCAK: return P(new Keccak(s.bits, s.pad, s.out));
    case MH_MD2: return P(new Md2());
    case MH_MD4: return P(new OHash<MD4_CTX, MD4_Init, MD4_Update, MD4_Final, 16>());
    case MH_MD5: return P(new OHash<MD5_CTX, MD5_Init, MD5_Update, MD5_Final, 16>());
    case MH_RIPEMD160: return P(new OHash<RIPEMD160_CTX, RIPEMD160_Init, RIPEMD160_Update, RIPEMD160_Final, 20>());
    case MH_SHA1: return P(new OHash<SHA_CTX, SHA1_Init, SHA1_Update, SHA1_Final, 20>());
    case MH_SHA224: return P(new OHash<SHA256_CTX, SHA224_Init, SHA224_Update, SHA224_Final, 28>());
    case MH_SHA256: return P(new OHash<SHA256_CTX, SHA256_Init, SHA256_Update, SHA256_Final, 32>());
    case MH_SHA384: return P(new OHash<SHA512_CTX, SHA384_Init, SHA384_Update, SHA384_Final, 48>());
    case MH_SHA512: return P(new OHash<SHA512_CTX, SHA512_Init, SHA512_Update, SHA512_Final, 64>());
    case MH_WHIRLPOOL: return P(new OHash<WHIRLPOOL_CTX, WHIRLPOOL_Init, WHIRLPOOL_Update, WHIRLPOOL_Final, 64>());
    default: return P();
  }
}
Bytes mhash(const MSpec &s, const Bytes &m) { auto h = mhash(s); h->update(m.data(), m.size()); return h->final(); }
Bytes mhmac(const MSpec &s, const Bytes &key, const Bytes &m) {
  Bytes k = key.size() > s.block ? mhash(s, key) : key;
  k.resize(s.block);
  Bytes i(k), o(k);
  for (auto &b : i) b ^= 0x36;
  for (auto &b : o) b ^= 0x5c;
  i.insert(i.end(), m.begin(), m.end());
  Bytes t = mhash(s, i);
  o.insert(o.end(), t.begin(), t.end());
  return mhash(s, o);
}

using boost::multiprecision::cpp_int;
static cpp_int le(const u8 *p, size_t n) { cpp_int r = 0; for (size_t i = n; i-- > 0;) { r <<= 8; r |= p[i]; } return r; }
Bytes mpoly1305(const u8 *key, const Bytes &m) {
  static const cpp_int P = (cpp_int(1) << 130) - 5;
  u8 rk[16]; memcpy(rk, key, 16);
  for (int i : {3, 7, 11, 15}) rk[i] &= 15;
  for (int i : {4, 8, 12}) rk[i] &= 252;
  cpp_int r = le(rk, 16), s = le(key + 16, 16), a = 0;
  for (size_t i = 0; i < m.size(); i += 16) { size_t n = std::min<size_t>(16, m.size() - i); a = (a + le(&m[i], n) + (cpp_int(1) << (8 * n))) * r % P; }
  a += s;
  Bytes o(16); for (int i = 0; i < 16; i++) { o[i] = (u8)(a & 255); a >>= 8; }
  return o;
}
u64 msiphash24(const u8 *key, const u8 *p, size_t n) {
  u64 k0, k1; memcpy(&k0, key, 8); memcpy(&k1, key + 8, 8);
  u64 v0 = k0 ^ 0x736f6d6570736575ull, v1 = k1 ^ 0x646f72616e646f6dull, v2 = k0 ^ 0x6c7967656e657261ull, v3 = k1 ^ 0x7465646279746573ull;
  auto rnd = [&] { v0 += v1; v1 = rotl64(v1, 13) ^ v0; v0 = rotl64(v0, 32); v2 += v3; v3 = rotl64(v3, 16) ^ v2; v0 += v3; v3 = rotl64(v3, 21) ^ v0; v2 += v1; v1 = rotl64(v1, 17) ^ v2; v2 = rotl64(v2, 32); };
  for (size_t i = 0; i <= n / 8; i++) {
    u64 m = 0;
    if (i < n / 8) memcpy(&m, p + 8 * i, 8); else { memcpy(&m, p + 8 * i, n % 8); m |= (u64)n << 56; }
    v3 ^= m; rnd(); rnd(); v0 ^= m;
  }
  v2 ^= 0xff; rnd(); rnd(); rnd(); rnd();
  return v0 ^ v1 ^ v2 ^ v3;
}
static u32 rotl(u32 x, int n) { return (x << n) | (x >> (32 - n)); }
void mchacha_block(const u32 in[16], u32 out[16], int rounds) {
  u32 x[16]; memcpy(x, in, 64);
  auto q = [&](int a, int b, int c, int d) { x[a] += x[b]; x[d] = rotl(x[d] ^ x[a], 16); x[c] += x[d]; x[b] = rotl(x[b] ^ x[c], 12); x[a] += x[b]; x[d] = rotl(x[d] ^ x[a], 8); x[c] += x[d]; x[b] = rotl(x[b] ^ x[c], 7); };
  for (int i = 0; i < rounds; i += 2) { for (int k = 0; k < 4; k++) q(k, k + 4, k + 8, k + 12); for (int k = 0; k < 4; k++) q(k, (k + 1) % 4 + 4, (k + 2) % 4 + 8, (k + 3) % 4 + 12); }
  for (int i = 0; i < 16; i++) out[i] = x[i];
}
void msalsa_block(const u32 in[16], u32 out[16], int rounds) {
  u32 x[16]; memcpy(x, in, 64);
  auto q = [&](int a, int b, int c, int d) { x[b] ^= rotl(x[a] + x[d], 7); x[c] ^= rotl(x[b] + x[a], 9); x[d] ^= rotl(x[c] + x[b], 13); x[a] ^= rotl(x[d] + x[c], 18); };
  for (int i = 0; i < rounds; i += 2) { q(0, 4, 8, 12); q(5, 9, 13, 1); q(10, 14, 2, 6); q(15, 3, 7, 11); q(0, 1, 2, 3); q(5, 6, 7, 4); q(10, 11, 8, 9); q(15, 12, 13, 14); }
  for (int i = 0; i < 16; i++) out[i] = x[i];
}
