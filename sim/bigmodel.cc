// Model of the big-integer interface on GMP.
#include <gmpxx.h>
#include "bigops.h"
typedef mpz_class Z;
namespace {
Z R[BIG_REGS];
Z imp(const BigVal &v) { Z z; mpz_import(z.get_mpz_t(), v.be.size(), 1, 1, 0, 0, v.be.data()); return v.neg ? Z(-z) : z; }
Z U(u64 w) { Z z; mpz_import(z.get_mpz_t(), 1, 1, 8, 0, 0, &w); return z; }
Z S(i64 s) { return s < 0 ? Z(-U((u64)0 - (u64)s)) : U((u64)s); }
Z pow2(u64 n) { Z z; mpz_setbit(z.get_mpz_t(), n); return z; }
u64 low(const Z &z) { Z t = abs(z); Z r; mpz_fdiv_r_2exp(r.get_mpz_t(), t.get_mpz_t(), 64); u64 w = 0; size_t c = 0; mpz_export(&w, &c, 1, 8, 0, 0, r.get_mpz_t()); return c ? w : 0; }
i64 sign(int x) { return (x > 0) - (x < 0); }
size_t bits(const Z &z) { return sgn(z) ? mpz_sizeinbase(z.get_mpz_t(), 2) : 0; }
bool prime(const Z &z) { return sgn(z) > 0 && mpz_probab_prime_p(z.get_mpz_t(), 25) > 0; }
void ediv(Z &q, Z &r, const Z &n, const Z &d) { if (sgn(d) > 0) mpz_fdiv_qr(q.get_mpz_t(), r.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t()); else mpz_cdiv_qr(q.get_mpz_t(), r.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t()); }
Z tq(const Z &n, const Z &d) { Z q; mpz_tdiv_q(q.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t()); return q; }
Z tr(const Z &n, const Z &d) { Z q; mpz_tdiv_r(q.get_mpz_t(), n.get_mpz_t(), d.get_mpz_t()); return q; }
Z mod(const Z &n, const Z &d) { Z q, r; ediv(q, r, n, d); return r; }
Z rnd(const Z &n, const Z &d) { Z a = abs(n), b = abs(d), q = (a + b / 2) / b; return sgn(n) * sgn(d) < 0 ? Z(-q) : q; }
Z low_n(const Z &x, u64 nbits) { Z a = abs(x), r; mpz_fdiv_r_2exp(r.get_mpz_t(), a.get_mpz_t(), nbits); return r; }
i64 si(const Z &z) { return sgn(z) < 0 ? (i64)((u64)0 - low(z)) : (i64)low(z); }
i64 cnt(mp_bitcnt_t c) { return c == ~(mp_bitcnt_t)0 ? -1 : (i64)c; }
const char *const primes[BIG_PRIMES] = {"3", "5", "7", "d", "11", "61", "c1", "101", "10001", "ffffffff00000001", "7fffffffffffffffffffffffffffffff", "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", "ffffffffffffffffffffffffffffffff000000000000000000000001",
  "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
  "1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed"};
}
const char *bm_prime(int i) { return primes[i]; }
void bm_reset() { for (auto &r : R) r = 0; }
void bm_load(int r, const BigVal &v) { R[r] = imp(v); }
static BigVal val(const Z &z) { BigVal v; v.neg = sgn(z) < 0; if (sgn(z)) { v.be.resize((bits(z) + 7) / 8); size_t c; mpz_export(v.be.data(), &c, 1, 1, 0, 0, z.get_mpz_t()); } return v; }
BigVal bm_get(int r) { return val(R[r]); }
u64 bm_bits(int r) { return bits(R[r]); }
bool bm_allowed(int op, const BigArgs &a) {
  const Z &x = R[a.x], &y = R[a.y], &m = R[a.m]; u64 L = (u64)a.limb, n = 1 + a.v % 12;
  switch (op) {
    case B_QUOREM: case B_DIVMOD: return sgn(y) && a.z != a.q;
    case B_QUO: case B_REM: case B_DIV: case B_MOD: case B_DIVROUND: return sgn(y) != 0;
    case B_QUO_UI: case B_REM_UI: case B_DIV_UI: case B_MOD_UI: case B_DIVROUND_UI: return a.w != 0;
    case B_QUO_SI: case B_REM_SI: case B_DIV_SI: case B_MOD_SI: case B_DIVROUND_SI: return a.s != 0;
    case B_DIVEXACT: return sgn(y) && mpz_divisible_p(x.get_mpz_t(), y.get_mpz_t());
    case B_DIVEXACT_UI: return a.w && mpz_divisible_ui_p(x.get_mpz_t(), a.w);
    case B_DIVEXACT_SI: return a.s && sgn(tr(x, S(a.s))) == 0;
    case B_POW_UI: return bits(x) * (a.v % 40) < 20000;
    case B_ROOTREM: return bits(x) < 2500 && (sgn(x) >= 0 || a.v % 2 == 0) && a.z != a.q;   // k = 1 + v % 24: odd when v is even
    case B_ROOT: return bits(x) < 2500 && (sgn(x) >= 0 || a.v % 2 == 0);
    case B_PERFECT_POWER: return bits(x) < 400;
    case B_SQRTREM: return sgn(x) >= 0 && a.z != a.q; case B_SQRT: return sgn(x) >= 0;
    case B_GCDEXT: return a.z != a.q && a.q != a.t && a.z != a.t && bits(x) < 1500 && bits(y) < 1500;
    case B_INVERT: return bits(y) > 1 && bits(x) < 2500 && bits(y) < 2500;
    case B_JACOBI: return mpz_odd_p(y.get_mpz_t()) != 0;
    case B_POWM: if (!sgn(m) || bits(m) > 1300 || bits(y) > 700) return false; if (sgn(y) >= 0) return true; { Z t; return bits(m) > 1 && mpz_invert(t.get_mpz_t(), x.get_mpz_t(), m.get_mpz_t()) != 0; }
    case B_POWM_UI: return sgn(m) && bits(m) < 1300;
    case B_POWM_SEC: return mpz_odd_p(m.get_mpz_t()) && sgn(y) >= 0 && bits(m) < 1300 && bits(y) < 700;
    case B_SQRTPQ: return a.w % BIG_PRIMES != a.v % BIG_PRIMES && bits(x) < 2500;
    case B_SQRTM: return bits(x) < 2500;
    case B_REMOVE: return sgn(x) && bits(y) > 1 && bits(x) < 2500;
    case B_BIN_UI: return bits(x) < 300;
    case B_FIB2: case B_LUC2: return a.z != a.q;
    case B_PRIME: case B_MRPRIME: case B_LUCASPRIME: return bits(x) < 600;
    case B_NEXTPRIME: return bits(x) < 200;
    case B_FINDPRIME: return bits(x) < 200 && sgn(x) >= 0;
    case B_GET_COMPACT: return bits(x) < 2000;
    case B_URANDOMM: return a.z != a.x;
    case B_ROVIEW: return a.z != a.x;
    case B_HAMDIST: return true;
    case B_N_REDUCE: return sgn(low_n(y, n * L)) != 0;
    case B_N_BARRETT: return low_n(y, n * L) > pow2((n - 1) * L);
    case B_N_MONT: return mpz_odd_p(y.get_mpz_t()) && bits(low_n(y, n * L)) > (n - 1) * L && low_n(x, n * L) < low_n(y, n * L) && low_n(m, n * L) < low_n(y, n * L);
    case B_N_INVERT: case B_N_SECINVERT: return mpz_odd_p(y.get_mpz_t()) && bits(low_n(y, n * L)) > (n - 1) * L && bits(low_n(y, n * L)) > 1 && low_n(x, n * L) < low_n(y, n * L) && (op == B_N_INVERT || prime(low_n(y, n * L)));
    case B_N_DIVMOD: return sgn(low_n(y, L * (1 + a.w % n))) != 0 && bits(low_n(y, L * (1 + a.w % n))) > (a.w % n) * L;
    case B_N_GCD1: return a.w && sgn(low_n(x, n * L));
    case B_INITS: return a.z != a.x || a.v % 5 != 0; case B_LEGENDRE: return sgn(y) > 0 && mpz_odd_p(y.get_mpz_t());
    case B_N_DIV1: return a.w != 0; case B_N_DIVX: return bits(low_n(y, L * (1 + a.w % n))) > (a.w % n) * L;
    case B_N_GCD: return sgn(low_n(x, n * L)) && sgn(low_n(y, n * L)); case B_N_GCDEXT: return a.z != a.q && sgn(low_n(y, n * L));
    case B_N_JACOBI: { Z Y = low_n(y, n * L); return mpz_odd_p(Y.get_mpz_t()) && (bits(low_n(x, n * L)) + L - 1) / L <= (bits(Y) + L - 1) / L; }
    case B_N_POWM: case B_N_SECPOWM: { Z M = low_n(m, n * L); return n <= 7 && M > 1 && low_n(x, n * L) < M && (op == B_N_POWM || mpz_odd_p(M.get_mpz_t())); }
    case B_N_SQRT: return sgn(low_n(x, n * L)) != 0;
    default: return true;
  }
}
std::string bm_run(int op, const BigArgs &a, BigRet &ret, BigVal (*lib)(int), const BigRet &libret, std::string &text) {
  Z x = R[a.x], y = R[a.y], m = R[a.m], &z = R[a.z], &q = R[a.q], &t = R[a.t]; Z W = U(a.w), I = S(a.s); u64 sh = a.sh, n = 1 + a.v % 12, L = (u64)a.limb, nb = n * L; Z B = pow2(nb), X = low_n(x, nb), Y = low_n(y, nb), M = low_n(m, nb), r; u64 mode = a.v / 12;
  auto adopt = [&](int i) { R[i] = imp(lib(i)); };
  switch (op) {
    case B_SET: z = x; break; case B_SWAP: std::swap(R[a.z], R[a.x]); break; case B_NEG: z = -x; break; case B_ABS: z = abs(x); break;
    case B_ADD: z = x + y; break; case B_SUB: z = x - y; break; case B_MUL: z = x * y; break; case B_SQR: z = x * x; break; case B_ADDMUL: z += x * y; break; case B_SUBMUL: z -= x * y; break;
    case B_ADD_UI: z = x + W; break; case B_SUB_UI: z = x - W; break; case B_UI_SUB: z = W - x; break; case B_MUL_UI: z = x * W; break; case B_ADDMUL_UI: z += x * W; break; case B_SUBMUL_UI: z -= x * W; break;
    case B_ADD_SI: z = x + I; break; case B_SUB_SI: z = x - I; break; case B_SI_SUB: z = I - x; break; case B_MUL_SI: z = x * I; break; case B_ADDMUL_SI: z += x * I; break; case B_SUBMUL_SI: z -= x * I; break;
    case B_MULSHIFT: { Z p = x * y; if (sh) { Z v = (abs(p) + pow2(sh - 1)) >> sh; p = sgn(p) < 0 ? Z(-v) : v; } z = p; break; }
    case B_QUOREM: z = tq(x, y); q = tr(x, y); break; case B_QUO: z = tq(x, y); break; case B_REM: z = tr(x, y); break;
    case B_QUO_UI: ret.push_back((i64)low(tr(x, W))); z = tq(x, W); break; case B_REM_UI: ret.push_back((i64)low(tr(x, W))); break;
    case B_QUO_SI: ret.push_back(si(tr(x, I))); z = tq(x, I); break; case B_REM_SI: ret.push_back(si(tr(x, I))); break;
    case B_DIVMOD: { Z qq; ediv(qq, r, x, y); z = qq; q = r; break; } case B_DIV: { Z qq; ediv(qq, r, x, y); z = qq; break; } case B_MOD: z = mod(x, y); break;
    case B_DIV_UI: { Z qq; ediv(qq, r, x, W); z = qq; ret.push_back((i64)low(r)); break; } case B_MOD_UI: ret.push_back((i64)low(mod(x, W))); break;
    case B_DIV_SI: { Z qq; ediv(qq, r, x, I); z = qq; ret.push_back(si(r)); break; } case B_MOD_SI: ret.push_back(si(mod(x, I))); break;
    case B_DIVEXACT: z = tq(x, y); break; case B_DIVEXACT_UI: z = tq(x, W); break; case B_DIVEXACT_SI: z = tq(x, I); break;
    case B_DIVROUND: z = rnd(x, y); break; case B_DIVROUND_UI: z = rnd(x, W); break; case B_DIVROUND_SI: z = rnd(x, I); break;
    case B_DIVISIBLE: ret.push_back(sgn(y) ? sgn(tr(x, y)) == 0 : sgn(x) == 0); break; case B_DIVISIBLE_UI: ret.push_back(a.w ? sgn(tr(x, W)) == 0 : sgn(x) == 0); break; case B_DIVISIBLE_2EXP: ret.push_back(sgn(tr(x, pow2(sh))) == 0); break;
    case B_CONGRUENT: ret.push_back(sgn(m) ? sgn(tr(x - y, m)) == 0 : x == y); break; case B_CONGRUENT_UI: ret.push_back(a.w ? sgn(tr(x - y, W)) == 0 : x == y); break; case B_CONGRUENT_2EXP: ret.push_back(sgn(tr(x - y, pow2(sh))) == 0); break;
    case B_POW_UI: mpz_pow_ui(r.get_mpz_t(), x.get_mpz_t(), a.v % 40); z = r; break; case B_UI_POW_UI: mpz_pow_ui(r.get_mpz_t(), W.get_mpz_t(), a.v % 60); z = r; break;
    case B_ROOTREM: case B_ROOT: { u64 k = 1 + a.v % 24; Z root; mpz_root(root.get_mpz_t(), x.get_mpz_t(), k); Z p; mpz_pow_ui(p.get_mpz_t(), root.get_mpz_t(), k); if (op == B_ROOTREM) { z = root; q = x - p; } else { z = root; ret.push_back(x == p); } break; }
    case B_PERFECT_POWER: ret.push_back(mpz_perfect_power_p(x.get_mpz_t()) != 0); break;
    case B_SQRTREM: { Z s = sqrt(x); z = s; q = x - s * s; break; } case B_SQRT: z = sqrt(x); break; case B_PERFECT_SQUARE: ret.push_back(mpz_perfect_square_p(x.get_mpz_t()) != 0); break;
    case B_AND: z = x & y; break; case B_AND_UI: ret.push_back((i64)low(x & W)); break; case B_AND_SI: z = x & I; break; case B_IOR: z = x | y; break; case B_IOR_UI: z = x | W; break; case B_IOR_SI: z = x | I; break; case B_XOR: z = x ^ y; break; case B_XOR_UI: z = x ^ W; break; case B_XOR_SI: z = x ^ I; break; case B_COM: z = ~x; break;
    case B_MUL_2EXP: z = x << sh; break; case B_QUO_2EXP: z = tq(x, pow2(sh)); break; case B_REM_2EXP: z = tr(x, pow2(sh)); break; case B_DIV_2EXP: z = x >> sh; break; case B_MOD_2EXP: z = mod(x, pow2(sh)); break;
    case B_TSTBIT: ret.push_back(mpz_tstbit(x.get_mpz_t(), sh)); break; case B_SETBIT: mpz_setbit(z.get_mpz_t(), sh); break; case B_CLRBIT: mpz_clrbit(z.get_mpz_t(), sh); break; case B_COMBIT: mpz_combit(z.get_mpz_t(), sh); break;
    case B_SCAN0: ret.push_back(cnt(mpz_scan0(x.get_mpz_t(), sh))); break; case B_SCAN1: ret.push_back(cnt(mpz_scan1(x.get_mpz_t(), sh))); break; case B_POPCOUNT: ret.push_back(cnt(mpz_popcount(x.get_mpz_t()))); break; case B_HAMDIST: ret.push_back(cnt(mpz_hamdist(x.get_mpz_t(), y.get_mpz_t()))); break;
    case B_GCD: z = gcd(x, y); break; case B_GCD_UI: { Z g = gcd(x, W); z = g; ret.push_back(bits(g) <= L ? (i64)low(g) : 0); break; } case B_LCM: z = lcm(x, y); break; case B_LCM_UI: z = lcm(x, W); break;
    case B_GCDEXT: { Z g = gcd(x, y); int skip = (int)(a.v & 7); Z G = imp(lib(a.z)), s = imp(lib(a.q)), tt = imp(lib(a.t));
      if (!(skip & 1) && G != g) return "wrong divisor"; bool hs = !(skip & 2), ht = !(skip & 4);
      if (hs && ht && s * x + tt * y != g) return "the cofactors do not combine to the divisor";
      if (hs && !ht && (sgn(y) ? sgn(tr(g - s * x, y)) != 0 : s * x != g)) return "the first cofactor is wrong";
      if (!hs && ht && (sgn(x) ? sgn(tr(g - tt * y, x)) != 0 : tt * y != g)) return "the second cofactor is wrong";
      if (!(skip & 1)) z = G; if (hs) q = s; if (ht) t = tt; break; }
    case B_INVERT: { Z i; bool ok = mpz_invert(i.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()) != 0; ret.push_back(ok); if (ok) z = mod(i, y); else adopt(a.z); break; }
    case B_JACOBI: case B_KRONECKER: ret.push_back(mpz_kronecker(x.get_mpz_t(), y.get_mpz_t())); break; case B_KRONECKER_UI: ret.push_back(mpz_kronecker(x.get_mpz_t(), W.get_mpz_t())); break; case B_KRONECKER_SI: ret.push_back(mpz_kronecker(x.get_mpz_t(), I.get_mpz_t())); break; case B_UI_KRONECKER: ret.push_back(mpz_kronecker(W.get_mpz_t(), y.get_mpz_t())); break; case B_SI_KRONECKER: ret.push_back(mpz_kronecker(I.get_mpz_t(), y.get_mpz_t())); break;
    case B_POWM: case B_POWM_SEC: case B_POWM_UI: { Z e = op == B_POWM_UI ? W : y, mm = abs(m), b = x; if (sgn(e) < 0) { mpz_invert(b.get_mpz_t(), x.get_mpz_t(), mm.get_mpz_t()); e = -e; } mpz_powm(r.get_mpz_t(), mod(b, mm).get_mpz_t(), e.get_mpz_t(), mm.get_mpz_t()); z = r; break; }
    case B_SQRTM: { Z p(primes[a.w % BIG_PRIMES], 16); R[a.m] = p; x = R[a.x]; Z s = imp(lib(a.z)); int j = mpz_kronecker(x.get_mpz_t(), p.get_mpz_t()); ret.push_back(j >= 0); if (j >= 0 && !(sgn(s) >= 0 && s < p && sgn(tr(s * s - x, p)) == 0)) return "not a square root"; adopt(a.z); break; }
    case B_SQRTPQ: { Z p(primes[a.w % BIG_PRIMES], 16), qq(primes[a.v % BIG_PRIMES], 16); Z s = imp(lib(a.z)); bool ok = mpz_kronecker(x.get_mpz_t(), p.get_mpz_t()) >= 0 && mpz_kronecker(x.get_mpz_t(), qq.get_mpz_t()) >= 0; ret.push_back(ok); Z nn = p * qq; if (ok && !(sgn(s) >= 0 && s < nn && sgn(tr(s * s - x, nn)) == 0)) return "not a square root"; adopt(a.z); break; }
    case B_REMOVE: { i64 c = 0; Z v = x; while (sgn(tr(v, y)) == 0) { v = tq(v, y); c++; } ret.push_back(c); z = v; break; }
    case B_FAC: mpz_fac_ui(r.get_mpz_t(), a.v % 150); z = r; break; case B_FAC2: mpz_2fac_ui(r.get_mpz_t(), a.v % 250); z = r; break; case B_MFAC: mpz_mfac_uiui(r.get_mpz_t(), a.v % 300, 1 + a.w % 40); z = r; break; case B_PRIMORIAL: mpz_primorial_ui(r.get_mpz_t(), a.v % 800); z = r; break;
    case B_BIN_UI: mpz_bin_ui(r.get_mpz_t(), x.get_mpz_t(), a.v % 40); z = r; break;
    case B_BIN_UIUI: mpz_bin_uiui(r.get_mpz_t(), a.w, a.v % 40); z = r; break; case B_BIN_SIUI: { Z nn = I; mpz_bin_ui(r.get_mpz_t(), nn.get_mpz_t(), a.v % 40); z = r; break; }
    case B_FIB: mpz_fib_ui(r.get_mpz_t(), a.v % 2000); z = r; break; case B_FIB2: { Z r2; mpz_fib2_ui(r.get_mpz_t(), r2.get_mpz_t(), a.v % 700); z = r; q = r2; break; } case B_LUC: mpz_lucnum_ui(r.get_mpz_t(), a.v % 2000); z = r; break; case B_LUC2: { Z r2; mpz_lucnum2_ui(r.get_mpz_t(), r2.get_mpz_t(), a.v % 700); z = r; q = r2; break; }
    case B_PRIME: ret.push_back(prime(x)); break;
    case B_MRPRIME: ret.push_back(prime(x)); break;                            // twenty rounds
    case B_LUCASPRIME: ret.push_back(prime(x) || (libret.size() && libret[0])); break;
    case B_NEXTPRIME: mpz_nextprime(r.get_mpz_t(), x.get_mpz_t()); if (x < 2) r = 2; z = r; break;
    case B_FINDPRIME: { u64 mm = a.v % 600; Z c = x; bool ok = false; if (mpz_even_p(c.get_mpz_t())) { c += 1; if (mm == 0) { ret.push_back(0); adopt(a.z); break; } mm--; } for (u64 i = 0; i <= mm / 2 && !ok; i++) { if (prime(c)) ok = true; else c += 2; } ret.push_back(ok); if (ok) z = c; else adopt(a.z); break; }
    case B_RANDPRIME: adopt(a.z); if (!prime(z) || bits(z) != 2 + a.v % 150) return "not a prime of the requested size"; break;
    case B_FITS: { bool f = x >= -pow2(L - 1) && x < pow2(L - 1); ret.push_back(f); ret.push_back(f ? si(x) : 0); ret.push_back(sgn(x) < 0 ? 0 : x < pow2(L)); ret.push_back((i64)(L == 64 ? low(x) : low(x) & 0xffffffff)); break; }
    case B_ODD: ret.push_back(mpz_odd_p(x.get_mpz_t()) != 0); ret.push_back(mpz_even_p(x.get_mpz_t()) != 0); ret.push_back(sgn(x)); break;
    case B_LENGTHS: ret.push_back(sgn(x) ? (i64)mpz_scan1(x.get_mpz_t(), 0) : 0); ret.push_back((i64)bits(x)); ret.push_back((i64)(bits(x) + 7) / 8); ret.push_back((i64)((bits(x) + L - 1) / L)); break;
    case B_SIZEINBASE: { int b = 2 + (int)(a.v % 61); std::string s = Z(abs(x)).get_str(b); bool p2 = (b & (b - 1)) == 0; ret.push_back(!p2 && libret.size() && libret[0] == (i64)s.size() + 1 ? libret[0] : (i64)s.size()); break; }
    case B_CMP: ret.push_back(sign(cmp(x, y))); ret.push_back(sign(cmp(abs(x), abs(y)))); break;
    case B_CMP_UI: ret.push_back(sign(cmp(x, W))); ret.push_back(sign(cmp(x, I))); ret.push_back(sign(cmp(abs(x), W))); ret.push_back(sign(cmp(abs(x), abs(I)))); break;
    case B_SET_UI: z = W; break; case B_SET_SI: z = I; break;
    case B_SET_COMPACT: { u64 c = a.w & 0xffffffff, e = c >> 24, mant = c & 0x7fffff; Z v = e <= 3 ? U(mant >> (8 * (3 - e))) : Z(U(mant) << (8 * (e - 3))); z = c & 0x800000 ? Z(-v) : v; break; }
    case B_GET_COMPACT: { Z v = abs(x); u64 e = (bits(v) + 7) / 8, mant; if (sgn(v) == 0) { ret.push_back(0); break; } mant = e <= 3 ? low(v) << (8 * (3 - e)) : low(Z(v >> (8 * (e - 3)))); if (mant & 0x800000) { mant >>= 8; e++; } ret.push_back((i64)(((e & 255) << 24 | mant) | (sgn(x) < 0 ? 0x800000 : 0))); break; }
    case B_STR: text = x.get_str(2 + (int)(a.v % 61)); z = x; ret.push_back(1); break;
    case B_STR_BAD: z = 0; ret.push_back(0); break;
    case B_LIMBS_WRITE: { Bytes b = seed_bytes(a.w ^ a.v, n * L / 8); if (a.sh & 1) for (size_t i = b.size() / 2; i < b.size(); i++) b[i] = 0; mpz_import(r.get_mpz_t(), b.size(), -1, 1, 0, 0, b.data()); z = a.sh & 2 ? Z(-r) : r; break; }
    case B_LIMBS_MODIFY: { u64 have = (bits(z) + L - 1) / L; Bytes b = seed_bytes(a.w ^ a.v, n * L / 8); mpz_import(r.get_mpz_t(), b.size(), -1, 1, 0, 0, b.data()); Z v = abs(z) + (r << (have * L)); z = a.sh & 2 ? Z(-v) : v; break; }
    case B_REALLOC: { u64 have = (bits(z) + L - 1) / L, want = (sh + L - 1) / L; if (want < 1) want = 1; if (have > want) z = 0; break; }
    case B_ROVIEW: { Z v = a.sh & 1 ? Z(-x) : x; switch (a.v % 4) { case 0: z = v + y; break; case 1: z = v * v; break; case 2: z = gcd(v, y); break; default: z = z - v * y; } break; }
    case B_EXPORT: z = abs(x); break;
    case B_URANDOMB: adopt(a.z); if (sgn(z) < 0 || bits(z) > sh) return "out of range"; break;
    case B_URANDOMM: adopt(a.z); if (sgn(x) == 0 ? sgn(z) != 0 : !(abs(z) < abs(x) && (sgn(z) == 0 || sgn(z) == sgn(x)))) return "out of range"; break;
    case B_RENEW: z = 0; break;
    // limb arrays
    case B_N_ADD: r = X + Y; ret.push_back(r >= B); z = r >= B ? Z(r - B) : r; break;
    case B_N_SUB: case B_N_SECSUB: if (op == B_N_SECSUB) { Z y2 = low_n(y, L * (1 + a.w % n)); r = X - y2; } else r = X - Y; ret.push_back(sgn(r) < 0); z = sgn(r) < 0 ? Z(r + B) : r; break;
    case B_N_ADD1: r = X + W; ret.push_back(r >= B); z = r >= B ? Z(r - B) : r; break; case B_N_SUB1: r = X - W; ret.push_back(sgn(r) < 0); z = sgn(r) < 0 ? Z(r + B) : r; break;
    case B_N_MUL1: r = X * W; ret.push_back((i64)low(r >> nb)); z = low_n(r, nb); break; case B_N_ADDMUL1: r = Y + X * W; ret.push_back((i64)low(r >> nb)); z = low_n(r, nb); break;
    case B_N_SUBMUL1: { r = Y - X * W; Z h; mpz_fdiv_q_2exp(h.get_mpz_t(), r.get_mpz_t(), nb); Z l; mpz_fdiv_r_2exp(l.get_mpz_t(), r.get_mpz_t(), nb); ret.push_back((i64)low(-h)); z = l; break; }
    case B_N_MUL: z = X * low_n(y, L * (1 + a.w % n)); break; case B_N_SQR: z = X * X; break;
    case B_N_LSHIFT: { u64 k = 1 + a.w % (L - 1); r = X << k; ret.push_back((i64)low(r >> nb)); z = low_n(r, nb); break; }
    case B_N_RSHIFT: { u64 k = 1 + a.w % (L - 1); ret.push_back((i64)low(low_n(X, k))); z = X >> k; break; }
    case B_N_NEG: ret.push_back(sgn(X) != 0); z = sgn(X) ? Z(B - X) : Z(0); break; case B_N_COM: z = B - 1 - X; break;
    case B_N_LOGIC: { Z one = B - 1; switch (a.w % 8) { case 0: r = X & Y; break; case 1: r = X | Y; break; case 2: r = X ^ Y; break; case 3: r = X & (one - Y); break; case 4: r = X | (one - Y); break; case 5: r = one - (X & Y); break; case 6: r = one - (X | Y); break; default: r = one - (X ^ Y); } z = r; ret.push_back((i64)mpz_popcount(X.get_mpz_t())); ret.push_back((i64)mpz_hamdist(X.get_mpz_t(), Y.get_mpz_t())); ret.push_back(sign(cmp(X, Y))); break; }
    case B_N_MASK: z = low_n(X, sh % (nb + 1)); break;
    case B_N_MULSHIFT: { u64 k = nb + a.sh % nb; r = (X * Y + pow2(k - 1)) >> k; ret.push_back((i64)low(r >> nb)); z = low_n(r, nb); break; }
    case B_N_SECADD: { r = X + low_n(y, L * (1 + a.w % n)); ret.push_back(r >= B); z = low_n(r, nb); break; }
    case B_N_SECCMP: ret.push_back(sign(cmp(X, Y))); ret.push_back(X < Y); ret.push_back(X <= Y); ret.push_back(X > Y); ret.push_back(X >= Y); ret.push_back(X == Y); ret.push_back(sgn(X) == 0); break;
    case B_N_CNDADD: { bool c = a.w & 1; r = c ? Z(X + Y) : X; ret.push_back(r >= B); z = low_n(r, nb); break; }
    case B_N_CNDSUB: { bool c = a.w & 1; r = c ? Z(X - Y) : X; ret.push_back(sgn(r) < 0); z = sgn(r) < 0 ? Z(r + B) : r; break; }
    case B_N_CNDNEG: { bool c = a.w & 1; ret.push_back(c && sgn(X)); z = c && sgn(X) ? Z(B - X) : X; break; }
    case B_N_CNDSEL: z = a.w & 1 ? Y : X; break;
    case B_N_TAB: { u64 k = a.w % 4; z = k == 0 ? X : k == 1 ? Y : k == 2 ? M : Z(low_n(x + y, nb)); break; }
    case B_N_REDUCE: { r = X >= Y ? Z(X - Y) : X; ret.push_back(X >= Y); z = r; break; }
    case B_N_BARRETT: { Z p = abs(x); mpz_fdiv_r_2exp(r.get_mpz_t(), p.get_mpz_t(), 2 * nb); z = r % Y; break; }
    case B_N_MONT: { Z i; mpz_invert(i.get_mpz_t(), B.get_mpz_t(), Y.get_mpz_t()); z = X * M % Y * i % Y; break; }
    case B_N_INVERT: case B_N_SECINVERT: { Z i; bool ok = sgn(X) && mpz_invert(i.get_mpz_t(), X.get_mpz_t(), Y.get_mpz_t()) != 0; ret.push_back(ok); z = ok ? i : Z(0); break; }
    case B_N_GETBITS: { u64 pos = sh % nb, width = 1 + a.w % (L - 1); ret.push_back((i64)low(low_n(X >> pos, width))); ret.push_back(mpz_tstbit(X.get_mpz_t(), pos)); break; }
    case B_N_DIVMOD: { Z d = low_n(y, L * (1 + a.w % n)); z = X / d; q = X % d; break; }
    case B_N_GCD1: ret.push_back((i64)low(gcd(X, W))); break;
    case B_INITS: switch (a.v % 5) { case 0: z = x; break; case 1: z = W; break; case 2: z = I; break; case 3: { u64 c = a.w & 0xffffffff, e = c >> 24, mant = c & 0x7fffff; Z v = e <= 3 ? U(mant >> (8 * (3 - e))) : Z(U(mant) << (8 * (e - 3))); z = c & 0x800000 ? Z(-v) : v; break; } default: r = (x + y) * (x - y); z = r; } break;
    case B_LEGENDRE: ret.push_back(mpz_kronecker(x.get_mpz_t(), y.get_mpz_t())); break;
    case B_N_BITS: { u64 pos = sh % nb; ret.push_back((i64)bits(X)); ret.push_back((i64)(bits(X) + 7) / 8); ret.push_back(sgn(X) ? (i64)mpz_scan1(X.get_mpz_t(), 0) : (i64)nb); ret.push_back(sgn(X) == 0); ret.push_back(mpz_tstbit(X.get_mpz_t(), pos)); ret.push_back(cnt(mpz_scan0(X.get_mpz_t(), sh))); ret.push_back(cnt(mpz_scan1(X.get_mpz_t(), sh))); r = X; if (a.w % 3 == 0) mpz_setbit(r.get_mpz_t(), pos); else if (a.w % 3 == 1) mpz_clrbit(r.get_mpz_t(), pos); else mpz_combit(r.get_mpz_t(), pos); z = r; break; }
    case B_N_DIV1: { i64 rem = (i64)low(X % W); ret.push_back(rem); if (!(a.v & 64)) ret.push_back(rem); z = X / W; break; }
    case B_N_DIVX: { Z d = low_n(y, L * (1 + a.w % n)); switch (sh % 3) { case 0: z = X / d; break; case 1: z = X % d; break; default: z = X; } break; }
    case B_N_GCD: { Z g = gcd(X, Y); ret.push_back((i64)((bits(g) + L - 1) / L)); z = g; break; }
    case B_N_GCDEXT: { Z g = gcd(X, Y); ret.push_back((i64)((bits(g) + L - 1) / L)); ret.push_back(1); z = g; adopt(a.q); if (sgn(Z((q * X - g) % Y)) != 0 || abs(q) >= Y) { if (!(Y == 1 && sgn(q) == 0)) return "not the cofactor"; } break; }
    case B_N_JACOBI: ret.push_back(mpz_kronecker(X.get_mpz_t(), Y.get_mpz_t())); break;
    case B_N_POWM: case B_N_SECPOWM: { Z e = op == B_N_POWM ? Y : low_n(y, L * (1 + a.w % n)); mpz_powm(r.get_mpz_t(), X.get_mpz_t(), e.get_mpz_t(), M.get_mpz_t()); z = r; break; }
    case B_N_SQRT: { Z s, t; mpz_sqrtrem(s.get_mpz_t(), t.get_mpz_t(), X.get_mpz_t()); ret.push_back((i64)((bits(t) + L - 1) / L)); ret.push_back(sgn(t) == 0); z = s; if (!(a.v & 64)) q = t; break; }
    case B_N_TEXT: { int b = 2 + (int)(a.w % 61); text = X.get_str(b); bool p2 = (b & (b - 1)) == 0; ret.push_back(!p2 && libret.size() && libret[0] == (i64)text.size() + 1 ? libret[0] : (i64)text.size()); ret.push_back(1); bool ok = bits(X) <= L * (1 + a.w % n); ret.push_back(ok); z = ok ? X : Z(0); break; }
    case B_N_BYTES: { u64 len = sh % (n * (L / 8) + 20); r = low_n(X, 8 * len); z = low_n(r, L * (1 + a.w % n)); break; }
    case B_N_MISC: { u64 k = a.w % (n + 1); Z all = X + (Y << nb); switch (sh % 5) { case 0: r = X * Y; break; case 1: r = a.w & 1 ? Z(0) : X; break; case 2: r = W; break; case 3: r = low_n(Z(all >> (k * L)), nb) + (Y << nb); break; default: r = low_n(all, k * L) + (X << (k * L)) + ((all >> ((n + k) * L)) << ((n + k) * L)); } z = r; break; }
    case B_N_RANDOMM: adopt(a.z); if (sgn(X) ? !(sgn(z) >= 0 && z < X) : sgn(z) != 0) return "out of range"; break;
    default: break;
  }
  (void)mode; return "";
}

BigVal bm_make(int style, u64 seed, int other) {
  Rng r(seed); static const int lens[] = {1, 1, 2, 2, 3, 4, 5, 6, 8, 12, 16, 33}; int n = lens[r.below(12)]; Z v; std::vector<u64> w((size_t)n); static const u64 odd[] = {0, ~0ull, 1, 1ull << 63, 0xffffffff, 1ull << 32, 0xffffffff00000000ull, ~0ull - 1, 0x7fffffffffffffffull};
  static const char *const pseudo[] = {"2047", "3215031751", "341550071728321", "3825123056546413051", "318665857834031151167461", "561", "1105", "1729", "41041", "825265", "5459", "5777", "10877", "16109", "989", "3239", "25", "49", "169", "1194649", "12327121", "4", "6", "8", "9", "1", "0", "2", "3",
    "18446744073709551557", "18446744073709551629", "340282366920938463463374607431768211297", "340282366920938463463374607431768211507", "4294967291", "4294967311", "65521", "1009", "1013", "999983", "1000003"};
  for (auto &q : w) q = r.next();
  auto from = [&] { mpz_import(v.get_mpz_t(), w.size(), -1, 8, 0, 0, w.data()); };
  switch (style) {
    case 0: from(); break; case 1: for (auto &q : w) q = ~0ull; from(); v >>= r.below(65); break; case 2: for (auto &q : w) q = odd[r.below(9)]; from(); break;
    case 3: v = pow2(r.below((u64)n * 64 + 1)) + S(r.range(-3, 3)); break; case 4: v = U(r.chance(1, 2) ? odd[r.below(9)] : r.next() >> r.below(64)); break; case 5: v = U(r.below(40)); break;
    case 6: v = Z(primes[r.below(BIG_PRIMES)], 16) + S(r.chance(1, 2) ? 0 : r.range(-3, 3)); break; case 7: v = Z(primes[r.below(BIG_PRIMES)], 16) * Z(primes[r.below(BIG_PRIMES)], 16); break;
    case 8: v = Z(pseudo[r.below(40)]); break; case 9: { Z b = U(r.next() >> r.below(64)); mpz_pow_ui(v.get_mpz_t(), b.get_mpz_t(), r.below(7)); v += S(r.chance(1, 2) ? 0 : r.range(-1, 1)); break; }
    case 10: v = R[other] + S(r.range(-2, 2)); break; case 11: from(); v = v * R[other]; break; case 12: from(); v = v * R[other] + S(r.range(-1, 1)); break; case 13: v = R[other] * R[other] + S(r.range(-1, 1)); break;
    case 14: from(); v <<= r.below(200); break; case 15: from(); v = (v >> r.below((u64)n * 64)); break;
    default: { for (auto &q : w) q = r.chance(1, 2) ? 0 : ~0ull; from(); v += S(r.range(-2, 2)); } }
  if (r.chance(1, 3)) v = -v; return val(v);
}
void bm_shrink(int r, u64 n) { R[r] = tq(R[r], pow2(n)); }
