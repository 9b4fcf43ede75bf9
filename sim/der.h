// Strict DER for finite-field keys, and the prime-order quotient group of an Edwards curve: independent models.
#pragma once
#include "emodels.h"
#include <initializer_list>

static inline Bytes der_len(size_t n, bool longform = false) { if (n < 128 && !longform) return Bytes{(u8)n}; if (n < 256 && !(longform && n >= 128)) return Bytes{0x81, (u8)n}; if (!longform || n < 128) return Bytes{0x82, (u8)(n >> 8), (u8)n}; return Bytes{0x83, 0, (u8)(n >> 8), (u8)n}; }
static inline void app(Bytes &a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); }
static inline size_t zbytes(const Z &z) { return z == 0 ? 0 : (mpz_sizeinbase(z.get_mpz_t(), 2) + 7) / 8; }
static inline Bytes der_int(const Z &z, bool pad = false, bool longform = false) { Bytes v = b_be(z, zbytes(z)); if (v.empty() || (v[0] & 0x80)) v.insert(v.begin(), 0); if (pad) v.insert(v.begin(), 0); Bytes o{2}; app(o, der_len(v.size(), longform)); app(o, v); return o; }
static inline Bytes der_seq(const Bytes &body) { Bytes o{0x30}; app(o, der_len(body.size())); app(o, body); return o; }
static inline Bytes dumb(std::initializer_list<Z> l) { Bytes o; for (auto &z : l) { Bytes v = b_be(z, zbytes(z)); o.push_back((u8)(v.size() >> 8)); o.push_back((u8)v.size()); app(o, v); } return o; }
struct DerIn { const Bytes &b; size_t i = 0; bool ok = true;
  explicit DerIn(const Bytes &x) : b(x) {}
  size_t len() { if (i >= b.size()) { ok = false; return 0; } u8 c = b[i++]; if (c < 128) return c; size_t k = c & 127, n = 0; if (k == 0 || k > 4 || i + k > b.size() || b[i] == 0) { ok = false; return 0; } while (k--) n = n << 8 | b[i++]; if (n < 128) ok = false; return n; }
  bool seq() { if (i >= b.size() || b[i++] != 0x30) return ok = false; size_t n = len(); if (!ok || n != b.size() - i) ok = false; return ok; }
  Z integer() { if (!ok || i >= b.size() || b[i++] != 2) { ok = false; return 0; } size_t n = len(); if (!ok || n == 0 || n > b.size() - i || (b[i] & 0x80) || (n > 1 && b[i] == 0 && !(b[i + 1] & 0x80)) || n > 2049 || (n == 2049 && b[i])) { ok = false; return 0; } Z r = z_be(b.data() + i, n); i += n; return r; }
  bool version(u8 v) { if (!ok || b.size() - i < 3 || b[i] != 2 || b[i + 1] != 1 || b[i + 2] != v) return ok = false; i += 3; return true; }
  bool end() { return ok = ok && i == b.size(); } };

struct DGroup { Z p, q, g; };
struct DPriv { DGroup g; Z y, x; };
static inline bool group_sane(const DGroup &g) { size_t pb = mpz_sizeinbase(g.p.get_mpz_t(), 2), qb = mpz_sizeinbase(g.q.get_mpz_t(), 2); return pb >= 512 && pb <= 10000 && (qb == 160 || qb == 224 || qb == 256) && g.g >= 2 && g.g < g.p - 1 && zodd(g.p) && zodd(g.q); }
static inline Bytes der_group(const DGroup &g) { Bytes b; app(b, der_int(g.p)); app(b, der_int(g.q)); app(b, der_int(g.g)); return der_seq(b); }
static inline Bytes der_pub(const DGroup &g, const Z &y, int bad = 0) { Bytes b; app(b, der_int(y, bad == 1, bad == 5)); app(b, der_int(g.p, bad == 2)); app(b, der_int(g.q, bad == 3)); app(b, der_int(g.g, bad == 4)); return der_seq(b); }
static inline Bytes der_priv(const DPriv &d) { Bytes b{2, 1, 0}; app(b, der_int(d.g.p)); app(b, der_int(d.g.q)); app(b, der_int(d.g.g)); app(b, der_int(d.y)); app(b, der_int(d.x)); return der_seq(b); }
static inline bool der_pub(const Bytes &b, DGroup &g, Z &y) { DerIn d(b); d.seq(); y = d.integer(); g.p = d.integer(); g.q = d.integer(); g.g = d.integer(); return d.end(); }
static inline bool der_priv(const Bytes &b, DPriv &k) { DerIn d(b); d.seq(); if (d.ok) d.version(0); k.g.p = d.integer(); k.g.q = d.integer(); k.g.g = d.integer(); k.y = d.integer(); k.x = d.integer(); return d.end(); }

// The quotient group: 2E/E[4] for cofactor 8, 2E/E[2] for cofactor 4 (Hamburg; RFC 9496 for the first).
static inline bool rist_decode(const MEd &E, const Bytes &raw, Pt &P) {
  Z s = z_le(raw.data(), raw.size()); if (s >= E.p || zodd(s)) return false;
  Z as2 = zmod(E.a * s * s, E.p), u1 = zmod(1 + as2, E.p), u2 = zmod(1 - as2, E.p);
  if (u2 == 0) return false;
  Z v = zmod(E.a * E.d * u1 * u1 - u2 * u2, E.p); if (v == 0) return false;
  Z x2 = zmod(4 * s * s * zinv(v, E.p), E.p), x; if (!zsqrt(x2, E.p, x)) return false; if (zodd(x)) x = zmod(-x, E.p);
  if (s == 0) { Z t; if (!zsqrt(v, E.p, t)) return false; }
  P.x = x; P.y = zmod(u1 * zinv(u2, E.p), E.p); P.inf = false;
  if (E.h == 8 && (zodd(zmod(P.x * P.y, E.p)) || P.y == 0)) return false;
  return true;
}
static inline bool ined(const MEd &E, const Pt &D) { return E.iszero(E.mul(D, E.h == 8 ? 4 : 2)); }
static inline Bytes rist_encode(const MEd &E, const Pt &P) {
  for (auto &T : E.tor) {
    Pt Q = E.add(P, T); if (zmod(Q.y + 1, E.p) == 0) continue;
    Z s2 = zmod(-E.a * (1 - Q.y) * zinv(zmod(1 + Q.y, E.p), E.p), E.p), s; if (!zsqrt(s2, E.p, s)) continue; if (zodd(s)) s = zmod(-s, E.p);
    Bytes b = b_le(s, E.fs); Pt R; if (rist_decode(E, b, R) && ined(E, E.add(R, E.neg(P)))) return b;
  }
  g_ctx->fail("model", "no encoding");
}
