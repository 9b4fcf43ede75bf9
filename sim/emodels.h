// Independent elliptic-curve models on GMP: group arithmetic, encodings, signature schemes.
#pragma once
#include "models.h"
#include <gmpxx.h>

typedef mpz_class Z;
Z z_be(const u8 *p, size_t n);
Z z_le(const u8 *p, size_t n);
static inline Z z_be(const Bytes &b) { return z_be(b.data(), b.size()); }
Bytes b_be(const Z &z, size_t n);      // n bytes, must fit
Bytes b_le(const Z &z, size_t n);
Z zmod(const Z &a, const Z &m);
Z zinv(const Z &a, const Z &m);
Z zpow(const Z &a, const Z &e, const Z &m);
bool zsqrt(const Z &a, const Z &p, Z &r);
static inline bool zodd(const Z &z) { return mpz_odd_p(z.get_mpz_t()); }

struct Pt { Z x, y; bool inf = false; bool operator==(const Pt &o) const { return inf == o.inf && (inf || (x == o.x && y == o.y)); } };

// Short Weierstrass curve of prime order.
struct MWei {
  int id; Z p, a, b, n; Pt g; size_t fs, ss; unsigned fb, sb; MSpec hash, xof; std::string name;
  std::vector<Pt> tab;                       // 16 multiples per 4-bit window of the generator
  Pt zero() const { Pt r; r.inf = true; return r; }
  Pt add(const Pt &P, const Pt &Q) const;
  Pt neg(const Pt &P) const { Pt r = P; if (!r.inf) r.y = zmod(-r.y, p); return r; }
  Pt mul(const Pt &P, const Z &k) const;
  Pt mulg(const Z &k) const;
  bool on(const Z &x, const Z &y) const;
  bool lift(const Z &x, int odd, Pt &r) const;      // odd -1: the root that is a square
  bool decode(const Bytes &raw, Pt &r) const;
  Bytes encode(const Pt &P, bool compact) const;
  Bytes scalar(const Z &k) const { return b_be(k, ss); }
  Z reduce(const Bytes &msg) const;                 // message to integer
  Bytes unreduce(const Z &m) const;                 // a message that reduces to m < n
  bool ecdsa(const Bytes &msg, const Bytes &sig, const Bytes &pub, const Z *priv = nullptr) const;
  bool recover(const Bytes &msg, const Bytes &sig, unsigned param, Pt &A) const;
  Z schnorr_e(const Bytes &R, const Pt &A, const Bytes &msg) const;
  bool schnorr(const Bytes &msg, const Bytes &sig, const Bytes &pub) const;
  Bytes tagged(const char *tag, const Bytes &m, size_t out) const;
  Z bip340_e(const Bytes &R, const Bytes &A, const Bytes &msg) const;
  bool bip340(const Bytes &msg, const Bytes &sig, const Bytes &pub) const;
  bool sq(const Z &y) const { return mpz_legendre(y.get_mpz_t(), p.get_mpz_t()) >= 0; }
};
const MWei &mwei(int id);        // 0..5: P192 P224 P256 P384 P521 secp256k1

// Twisted Edwards curve with complete addition.
struct MEd {
  int id; Z p, a, d, n; unsigned h; Pt g; size_t fs, as, ss; unsigned fb, sb; bool context; std::string prefix, name;
  std::vector<Pt> tab, tor;                  // tor: the torsion subgroup
  Pt zero() const { Pt r; r.x = 0; r.y = 1; return r; }
  Pt add(const Pt &P, const Pt &Q) const;
  Pt neg(const Pt &P) const { Pt r = P; r.x = zmod(-r.x, p); return r; }
  Pt mul(const Pt &P, const Z &k) const;
  Pt mulg(const Z &k) const;
  bool on(const Z &x, const Z &y) const;
  bool lift(const Z &y, int odd, Pt &r) const;
  bool decode(const Bytes &raw, Pt &r) const;
  Bytes encode(const Pt &P) const;
  bool iszero(const Pt &P) const { return P.x == 0 && P.y == 1; }
  Bytes hash(const Bytes &m, size_t out) const;
  Z clamp(Bytes s) const;
  void expand(const Bytes &priv, Z &a, Bytes &prefix) const;   // secret scalar (not reduced) and prefix
  Bytes dom(int ph, const Bytes &ctx) const;
  Z e(const Bytes &R, const Bytes &A, const Bytes &msg, int ph, const Bytes &ctx) const;
  bool verify(const Bytes &msg, const Bytes &sig, const Bytes &pub, int ph, const Bytes &ctx, bool cofactor) const;
  Bytes sign(const Bytes &msg, const Bytes &priv, int ph, const Bytes &ctx) const;
};
const MEd &med(int id);          // 0..2: Ed25519 Ed448 Ed1174

// Montgomery curve, x-only.
struct MMont {
  int id; Z p, A, n; unsigned h; Z gx; size_t fs, ss; unsigned fb; std::string name;
  Z clamp(Bytes s) const;
  Z ladder(const Z &k, const Z &u, bool *inf = nullptr) const;
  bool on(const Z &x) const;      // on the curve itself rather than the twist
};
const MMont &mmont(int id);      // 0..1: X25519 X448
