// C21: programs over big-integer variables, every variable compared with GMP after every step.
#ifdef BIG_LIMB32
#include <stdint.h>
#undef UINTPTR_MAX
#define UINTPTR_MAX 4294967295U
#endif
#include <torsion/mpi.h>
#include "world.h"
#include "bigops.h"
extern "C" void sim_free(void *);
enum { OP_LOAD = B_COUNT };
static const char *const ops[] = {
#define X(n) #n,
  BIG_OPS(X)
#undef X
  "LOAD", nullptr };
static mpz_t R[BIG_REGS];
static BigVal get(int i) {
  BigVal v; v.neg = mpz_sgn(R[i]) < 0; v.be.resize(mpz_bytelen(R[i])); if (v.be.size()) mpz_export(v.be.data(), R[i], v.be.size(), 1); return v;
}
struct Gen { Rng r; int dull; };
static void fill(void *out, size_t n, void *arg) { Gen *g = (Gen *)arg; if (g->dull-- > 0) { memset(out, g->dull & 1 ? 0xff : 0, n); return; } u8 *p = (u8 *)out; for (size_t i = 0; i < n; i++) p[i] = (u8)g->r.next(); }
typedef std::vector<mp_limb_t> Limbs;
static Limbs limbs(int i, size_t n) { Limbs v(n, 0); size_t have = mpz_size(R[i]); const mp_limb_t *p = mpz_limbs_read(R[i]); for (size_t k = 0; k < n && k < have; k++) v[k] = p[k]; return v; }
static void put(int i, const Limbs &v) { mp_limb_t *p = mpz_limbs_write(R[i], (mp_size_t)v.size()); for (size_t k = 0; k < v.size(); k++) p[k] = v[k]; mpz_limbs_finish(R[i], (mp_size_t)v.size()); }
static i64 sg(int x) { return (x > 0) - (x < 0); }
static i64 cnt(mp_bits_t b) { return b == MP_BITS_MAX ? -1 : (i64)b; }
static mp_size_t strip(const Limbs &v) { size_t n = v.size(); while (n && v[n - 1] == 0) n--; return (mp_size_t)n; }
static void run(int op, const BigArgs &a, BigRet &ret, std::string &text, Ctx &c) {
  mpz_ptr z = R[a.z], q = R[a.q], t = R[a.t]; mpz_srcptr x = R[a.x], y = R[a.y], m = R[a.m]; mp_limb_t w = (mp_limb_t)a.w; mp_long_t s = (mp_long_t)a.s; mp_bits_t sh = (mp_bits_t)a.sh; Gen g{Rng(a.w ^ a.v), (int)(a.v & 3)}; auto out = [&](i64 v) { ret.push_back(v); };
  size_t n = 1 + a.v % 12; u64 mode = a.v / 12 % 3; mp_size_t N = (mp_size_t)n;
  if (op < B_N_ADD) switch (op) {
    case B_SET: mpz_set(z, x); break; case B_SWAP: mpz_swap(z, R[a.x]); break; case B_NEG: mpz_neg(z, x); break; case B_ABS: mpz_abs(z, x); break; case B_ADD: mpz_add(z, x, y); break; case B_SUB: mpz_sub(z, x, y); break; case B_MUL: mpz_mul(z, x, y); break; case B_SQR: mpz_sqr(z, x); break; case B_ADDMUL: mpz_addmul(z, x, y); break; case B_SUBMUL: mpz_submul(z, x, y); break;
    case B_ADD_UI: mpz_add_ui(z, x, w); break; case B_SUB_UI: mpz_sub_ui(z, x, w); break; case B_UI_SUB: mpz_ui_sub(z, w, x); break; case B_MUL_UI: mpz_mul_ui(z, x, w); break; case B_ADDMUL_UI: mpz_addmul_ui(z, x, w); break; case B_SUBMUL_UI: mpz_submul_ui(z, x, w); break;
    case B_ADD_SI: mpz_add_si(z, x, s); break; case B_SUB_SI: mpz_sub_si(z, x, s); break; case B_SI_SUB: mpz_si_sub(z, s, x); break; case B_MUL_SI: mpz_mul_si(z, x, s); break; case B_ADDMUL_SI: mpz_addmul_si(z, x, s); break; case B_SUBMUL_SI: mpz_submul_si(z, x, s); break;
    case B_MULSHIFT: mpz_mulshift(z, x, y, sh); break; case B_QUOREM: mpz_quorem(z, q, x, y); break; case B_QUO: mpz_quo(z, x, y); break; case B_REM: mpz_rem(z, x, y); break; case B_QUO_UI: out((i64)mpz_quo_ui(z, x, w)); break; case B_REM_UI: out((i64)mpz_rem_ui(x, w)); break; case B_QUO_SI: out(mpz_quo_si(z, x, s)); break; case B_REM_SI: out(mpz_rem_si(x, s)); break;
    case B_DIVMOD: mpz_divmod(z, q, x, y); break; case B_DIV: mpz_div(z, x, y); break; case B_MOD: mpz_mod(z, x, y); break; case B_DIV_UI: out((i64)mpz_div_ui(z, x, w)); break; case B_MOD_UI: out((i64)mpz_mod_ui(x, w)); break; case B_DIV_SI: out(mpz_div_si(z, x, s)); break; case B_MOD_SI: out(mpz_mod_si(x, s)); break;
    case B_DIVEXACT: mpz_divexact(z, x, y); break; case B_DIVEXACT_UI: mpz_divexact_ui(z, x, w); break; case B_DIVEXACT_SI: mpz_divexact_si(z, x, s); break; case B_DIVROUND: mpz_divround(z, x, y); break; case B_DIVROUND_UI: mpz_divround_ui(z, x, w); break; case B_DIVROUND_SI: mpz_divround_si(z, x, s); break;
    case B_DIVISIBLE: out(mpz_divisible_p(x, y) != 0); break; case B_DIVISIBLE_UI: out(mpz_divisible_ui_p(x, w) != 0); break; case B_DIVISIBLE_2EXP: out(mpz_divisible_2exp_p(x, sh) != 0); break; case B_CONGRUENT: out(mpz_congruent_p(x, y, m) != 0); break; case B_CONGRUENT_UI: out(mpz_congruent_ui_p(x, y, w) != 0); break; case B_CONGRUENT_2EXP: out(mpz_congruent_2exp_p(x, y, sh) != 0); break;
    case B_POW_UI: mpz_pow_ui(z, x, (mp_limb_t)(a.v % 40)); break; case B_UI_POW_UI: mpz_ui_pow_ui(z, w, (mp_limb_t)(a.v % 60)); break; case B_ROOTREM: mpz_rootrem(z, q, x, (mp_limb_t)(1 + a.v % 24)); break; case B_ROOT: out(mpz_root(z, x, (mp_limb_t)(1 + a.v % 24)) != 0); break; case B_PERFECT_POWER: out(mpz_perfect_power_p(x) != 0); break;
    case B_SQRTREM: mpz_sqrtrem(z, q, x); break; case B_SQRT: mpz_sqrt(z, x); break; case B_PERFECT_SQUARE: out(mpz_perfect_square_p(x) != 0); break; case B_AND: mpz_and(z, x, y); break; case B_AND_UI: out((i64)mpz_and_ui(x, w)); break; case B_AND_SI: mpz_and_si(z, x, s); break; case B_IOR: mpz_ior(z, x, y); break; case B_IOR_UI: mpz_ior_ui(z, x, w); break; case B_IOR_SI: mpz_ior_si(z, x, s); break; case B_XOR: mpz_xor(z, x, y); break; case B_XOR_UI: mpz_xor_ui(z, x, w); break; case B_XOR_SI: mpz_xor_si(z, x, s); break; case B_COM: mpz_com(z, x); break;
    case B_MUL_2EXP: mpz_mul_2exp(z, x, sh); break; case B_QUO_2EXP: mpz_quo_2exp(z, x, sh); break; case B_REM_2EXP: mpz_rem_2exp(z, x, sh); break; case B_DIV_2EXP: mpz_div_2exp(z, x, sh); break; case B_MOD_2EXP: mpz_mod_2exp(z, x, sh); break;
    case B_TSTBIT: out(mpz_tstbit(x, sh)); break; case B_SETBIT: mpz_setbit(z, sh); break; case B_CLRBIT: mpz_clrbit(z, sh); break; case B_COMBIT: mpz_combit(z, sh); break; case B_SCAN0: out(cnt(mpz_scan0(x, sh))); break; case B_SCAN1: out(cnt(mpz_scan1(x, sh))); break; case B_POPCOUNT: out(cnt(mpz_popcount(x))); break; case B_HAMDIST: out(cnt(mpz_hamdist(x, y))); break;
    case B_GCD: mpz_gcd(z, x, y); break; case B_GCD_UI: out((i64)mpz_gcd_ui(z, x, w)); break; case B_LCM: mpz_lcm(z, x, y); break; case B_LCM_UI: mpz_lcm_ui(z, x, w); break; case B_GCDEXT: mpz_gcdext(a.v & 1 ? NULL : z, a.v & 2 ? NULL : q, a.v & 4 ? NULL : t, x, y); break; case B_INVERT: out(mpz_invert(z, x, y) != 0); break;
    case B_JACOBI: out(mpz_jacobi(x, y)); break; case B_KRONECKER: out(mpz_kronecker(x, y)); break; case B_KRONECKER_UI: out(mpz_kronecker_ui(x, w)); break; case B_KRONECKER_SI: out(mpz_kronecker_si(x, s)); break; case B_UI_KRONECKER: out(mpz_ui_kronecker(w, y)); break; case B_SI_KRONECKER: out(mpz_si_kronecker(s, y)); break;
    case B_POWM: mpz_powm(z, x, y, m); break; case B_POWM_UI: mpz_powm_ui(z, x, w, m); break; case B_POWM_SEC: mpz_powm_sec(z, x, y, m); break;
    case B_SQRTM: mpz_set_str(R[a.m], bm_prime((int)(a.w % BIG_PRIMES)), 16); out(mpz_sqrtm(z, x, m) != 0); break;
    case B_SQRTPQ: { mpz_t p1, p2; mpz_init_set_str(p1, bm_prime((int)(a.w % BIG_PRIMES)), 16); mpz_init_set_str(p2, bm_prime((int)(a.v % BIG_PRIMES)), 16); out(mpz_sqrtpq(z, x, p1, p2) != 0); mpz_clear(p1); mpz_clear(p2); break; }
    case B_REMOVE: out(mpz_remove(z, x, y)); break; case B_FAC: mpz_fac_ui(z, (mp_limb_t)(a.v % 150)); break; case B_FAC2: mpz_2fac_ui(z, (mp_limb_t)(a.v % 250)); break; case B_MFAC: mpz_mfac_uiui(z, (mp_limb_t)(a.v % 300), (mp_limb_t)(1 + a.w % 40)); break; case B_PRIMORIAL: mpz_primorial_ui(z, (mp_limb_t)(a.v % 800)); break;
    case B_BIN_UI: mpz_bin_ui(z, x, (mp_limb_t)(a.v % 40)); break; case B_BIN_UIUI: mpz_bin_uiui(z, w, (mp_limb_t)(a.v % 40)); break; case B_BIN_SIUI: mpz_bin_siui(z, s, (mp_limb_t)(a.v % 40)); break; case B_FIB: mpz_fib_ui(z, (mp_limb_t)(a.v % 2000)); break; case B_FIB2: mpz_fib2_ui(z, q, (mp_limb_t)(a.v % 700)); break; case B_LUC: mpz_lucnum_ui(z, (mp_limb_t)(a.v % 2000)); break; case B_LUC2: mpz_lucnum2_ui(z, q, (mp_limb_t)(a.v % 700)); break;
    case B_PRIME: out(mpz_probab_prime_p(x, 20, fill, &g) != 0); break; case B_MRPRIME: g.dull = 0; out(mpz_mr_prime_p(x, 20, (int)(a.v & 1), fill, &g) != 0); break; case B_LUCASPRIME: out(mpz_lucas_prime_p(x, 50) != 0); break; case B_NEXTPRIME: mpz_nextprime(z, x, fill, &g); break; case B_FINDPRIME: out(mpz_findprime(z, x, (mp_limb_t)(a.v % 600), fill, &g) != 0); break; case B_RANDPRIME: mpz_randprime(z, (mp_bits_t)(2 + a.v % 150), fill, &g); break;
    case B_FITS: { bool f = mpz_fits_si_p(x) != 0; out(f); out(f ? (i64)mpz_get_si(x) : 0); out(mpz_sgn(x) < 0 ? 0 : mpz_fits_ui_p(x) != 0); out((i64)mpz_get_ui(x)); break; } case B_ODD: out(mpz_odd_p(x) != 0); out(mpz_even_p(x) != 0); out(mpz_sgn(x)); break; case B_LENGTHS: out(mpz_ctz(x)); out(mpz_bitlen(x)); out((i64)mpz_bytelen(x)); out((i64)mpz_size(x)); break; case B_SIZEINBASE: out((i64)mpz_sizeinbase(x, 2 + (int)(a.v % 61))); break;
    case B_CMP: out(sg(mpz_cmp(x, y))); out(sg(mpz_cmpabs(x, y))); break; case B_CMP_UI: out(sg(mpz_cmp_ui(x, w))); out(sg(mpz_cmp_si(x, s))); out(sg(mpz_cmpabs_ui(x, w))); out(sg(mpz_cmpabs_si(x, s))); break; case B_SET_UI: mpz_set_ui(z, w); break; case B_SET_SI: mpz_set_si(z, s); break; case B_SET_COMPACT: mpz_set_compact(z, (mp_limb_t)(a.w & 0xffffffff)); break; case B_GET_COMPACT: out((i64)mpz_get_compact(x)); break;
    case B_STR: { int base = 2 + (int)(a.v % 61); char *p = mpz_get_str(x, base); text = p; sim_free(p); std::string in = text; if (a.sh & 1) in = " " + in; if (a.sh & 2) in += " \n"; if ((a.sh & 4) && base <= 36) for (auto &ch : in) if (ch >= 'a' && ch <= 'z' && (a.sh >> 3 & 1 || ch % 2)) ch = (char)(ch - 32); if ((a.sh & 16) && (base == 16 || base == 2 || base == 10)) { size_t at = in.find_first_not_of(" -"); if (base != 10) in.insert(at, base == 16 ? "0x" : "0b"); base = 0; } out(mpz_set_str(z, in.c_str(), base) != 0); break; }
    case B_STR_BAD: { c.fault("malformed text"); int base = 2 + (int)(a.v % 61); char *p = mpz_get_str(x, base); std::string in = p; sim_free(p); static const char bad[] = "/:@[`{~\x80\xff.,_"; size_t at = (size_t)(a.sh % (in.size() + 1)); if (a.sh & 64) in.insert(at, 1, bad[a.w % 12]); else { char d = base <= 10 ? (char)('0' + base) : base <= 36 ? (char)(base == 36 ? '{' : 'a' + base - 10) : base < 62 ? (char)('a' + base - 36) : '{'; in.insert(at, 1, d > 'z' ? '{' : base == 10 ? 'a' : d); } if (at == 0 && in[1] == '-') { } out(mpz_set_str(z, in.c_str(), base) != 0); break; }
    case B_LIMBS_WRITE: { Bytes b = seed_bytes(a.w ^ a.v, n * MP_LIMB_BYTES); if (a.sh & 1) for (size_t i = b.size() / 2; i < b.size(); i++) b[i] = 0; mp_limb_t *p = mpz_limbs_write(z, N); memcpy(p, b.data(), b.size()); mpz_limbs_finish(z, a.sh & 2 ? -N : N); break; }
    case B_LIMBS_MODIFY: { size_t have = mpz_size(z); Bytes b = seed_bytes(a.w ^ a.v, n * MP_LIMB_BYTES); mp_limb_t *p = mpz_limbs_modify(z, (mp_size_t)(have + n)); memcpy(p + have, b.data(), b.size()); mp_size_t all = (mp_size_t)(have + n); mpz_limbs_finish(z, a.sh & 2 ? -all : all); break; }
    case B_REALLOC: if (mpz_size(z) > 0 && mpz_bitlen(z) > sh) c.fault("truncating reallocation"); mpz_realloc2(z, sh); break;
    case B_ROVIEW: { c.fault("view of live limbs"); mpz_t v; mp_size_t vn = (mp_size_t)mpz_size(x); if (mpz_sgn(x) < 0) vn = -vn; if (a.sh & 1) vn = -vn; if ((a.sh & 3) == 2) mpz_roset(v, x); else mpz_roinit_n(v, mpz_limbs_read(x), vn); switch (a.v % 4) { case 0: mpz_add(z, v, y); break; case 1: mpz_mul(z, v, v); break; case 2: mpz_gcd(z, v, y); break; default: mpz_submul(z, v, y); } break; }
    case B_EXPORT: { size_t len = mpz_bytelen(x) + a.v % 20; int e = a.sh & 1 ? 1 : -1; Guard b(len); mpz_export(b.p(), x, len, e); b.check("export"); mpz_import(z, b.p(), len, e); break; }
    case B_URANDOMB: mpz_urandomb(z, sh, fill, &g); break; case B_URANDOMM: mpz_urandomm(z, x, fill, &g); break;
    case B_INITS: {
      if (a.v % 5 != 4) mpz_clear(z);
      switch (a.v % 5) {
        case 0: mpz_init_set(z, x); break; case 1: mpz_init_set_ui(z, w); break; case 2: mpz_init_set_si(z, s); break; case 3: mpz_init_set_compact(z, (mp_limb_t)(a.w & 0xffffffff)); break;
        default: { mpz_t p1, p2, p3; mpz_inits(p1, p2, p3, (mpz_ptr)NULL); mpz_add(p1, x, y); mpz_sub(p2, x, y); mpz_mul(p3, p1, p2); mpz_set(z, p3); if (a.sh & 1) mpz_clears(p1, p2, p3, (mpz_ptr)NULL); else mpz_cleanses(p1, p2, p3, (mpz_ptr)NULL); }
      }
      break; }
    case B_LEGENDRE: out(mpz_legendre(x, y)); break;
    case B_RENEW: if (a.v & 1) mpz_cleanse(z); else mpz_clear(z); if (a.v & 2) mpz_init2(z, sh); else mpz_init(z); break;
    default: break;
  } else {
    Limbs X = limbs(a.x, n), Y = limbs(a.y, n), M = limbs(a.m, n), Z(n, (mp_limb_t)0x5a5a5a5a5a5a5a5aull); mp_limb_t *xp = X.data(), *yp = Y.data(), *mp = M.data(), *zp = mode == 1 ? xp : mode == 2 ? yp : Z.data(); size_t yn = 1 + a.w % n; auto res = [&](const mp_limb_t *p, size_t k) { put(a.z, Limbs(p, p + k)); }; mp_limb_t *one = mode == 1 ? xp : Z.data();
    auto scratch = [&](size_t k) { return Limbs(k, (mp_limb_t)0xa5a5a5a5a5a5a5a5ull); };
    switch (op) {
      case B_N_ADD: out((i64)mpn_add_n(zp, xp, yp, N)); res(zp, n); break; case B_N_SUB: out((i64)mpn_sub_n(zp, xp, yp, N)); res(zp, n); break; case B_N_ADD1: out((i64)(a.v & 64 ? mpn_sec_add_1(one, xp, N, w) : mpn_add_1(one, xp, N, w))); res(one, n); break; case B_N_SUB1: out((i64)(a.v & 64 ? mpn_sec_sub_1(one, xp, N, w) : mpn_sub_1(one, xp, N, w))); res(one, n); break;
      case B_N_MUL1: out((i64)mpn_mul_1(one, xp, N, w)); res(one, n); break; case B_N_ADDMUL1: out((i64)mpn_addmul_1(yp, xp, N, w)); res(yp, n); break; case B_N_SUBMUL1: out((i64)mpn_submul_1(yp, xp, N, w)); res(yp, n); break;
      case B_N_MUL: { Limbs o = scratch(n + yn); mpn_mul(o.data(), xp, N, yp, (mp_size_t)yn); res(o.data(), n + yn); break; } case B_N_SQR: { Limbs o = scratch(2 * n), sc = scratch(MPN_SQR_ITCH(n)); mpn_sqr(o.data(), xp, N, sc.data()); res(o.data(), 2 * n); break; }
      case B_N_LSHIFT: out((i64)mpn_lshift(one, xp, N, (mp_bits_t)(1 + a.w % (MP_LIMB_BITS - 1)))); res(one, n); break; case B_N_RSHIFT: out((i64)mpn_rshift(one, xp, N, (mp_bits_t)(1 + a.w % (MP_LIMB_BITS - 1)))); res(one, n); break; case B_N_NEG: out((i64)mpn_neg(one, xp, N)); res(one, n); break; case B_N_COM: mpn_com(one, xp, N); res(one, n); break;
      case B_N_LOGIC: out(mpn_popcount(xp, N)); out(mpn_hamdist(xp, yp, N)); out(sg(mpn_cmp(xp, yp, N))); switch (a.w % 8) { case 0: mpn_and_n(zp, xp, yp, N); break; case 1: mpn_ior_n(zp, xp, yp, N); break; case 2: mpn_xor_n(zp, xp, yp, N); break; case 3: mpn_andn_n(zp, xp, yp, N); break; case 4: mpn_iorn_n(zp, xp, yp, N); break; case 5: mpn_nand_n(zp, xp, yp, N); break; case 6: mpn_nior_n(zp, xp, yp, N); break; default: mpn_xnor_n(zp, xp, yp, N); } res(zp, n); break;
      case B_N_MASK: mpn_mask(one, xp, N, (mp_bits_t)(a.sh % (n * MP_LIMB_BITS + 1))); res(one, n); break; case B_N_MULSHIFT: { Limbs sc = scratch(MPN_MULSHIFT_ITCH(n)); out((i64)mpn_mulshift(zp, xp, yp, N, (mp_bits_t)(n * MP_LIMB_BITS + a.sh % (n * MP_LIMB_BITS)), sc.data())); res(zp, n); break; }
      case B_N_SECADD: out((i64)(a.v & 64 ? mpn_add(one, xp, N, yp, (mp_size_t)yn) : mpn_sec_add(one, xp, N, yp, (mp_size_t)yn))); res(one, n); break; case B_N_SECSUB: out((i64)(a.v & 64 ? mpn_sub(one, xp, N, yp, (mp_size_t)yn) : mpn_sec_sub(one, xp, N, yp, (mp_size_t)yn))); res(one, n); break;
      case B_N_SECCMP: out(sg(mpn_sec_cmp(xp, yp, N))); out(mpn_sec_lt_p(xp, yp, N)); out(mpn_sec_lte_p(xp, yp, N)); out(mpn_sec_gt_p(xp, yp, N)); out(mpn_sec_gte_p(xp, yp, N)); out(mpn_sec_equal_p(xp, yp, N)); out(mpn_sec_zero_p(xp, N)); break;
      case B_N_CNDADD: out((i64)mpn_cnd_add_n(zp, xp, yp, N, w & 1)); res(zp, n); break; case B_N_CNDSUB: out((i64)mpn_cnd_sub_n(zp, xp, yp, N, w & 1)); res(zp, n); break; case B_N_CNDNEG: out((i64)mpn_cnd_neg(one, xp, N, w & 1)); res(one, n); break; case B_N_CNDSEL: if (a.v & 64) { mpn_cnd_swap(xp, yp, N, w & 1); res(xp, n); } else { mpn_cnd_select(zp, xp, yp, N, w & 1); res(zp, n); } break;
      case B_N_TAB: { Limbs tab(4 * n), sum = limbs(a.x, n); mpz_t tt; mpz_init(tt); mpz_add(tt, x, y); size_t have = mpz_size(tt); for (size_t k = 0; k < n; k++) sum[k] = k < have ? mpz_getlimbn(tt, (mp_size_t)k) : 0; mpz_clear(tt); for (size_t k = 0; k < n; k++) { tab[k] = X[k]; tab[n + k] = Y[k]; tab[2 * n + k] = M[k]; tab[3 * n + k] = sum[k]; } mpn_sec_tabselect(Z.data(), tab.data(), N, 4, (mp_size_t)(a.w % 4)); res(Z.data(), n); break; }
      case B_N_REDUCE: { Limbs sc = scratch(MPN_REDUCE_WEAK_ITCH(n)); out(mpn_reduce_weak(one, xp, yp, N, 0, sc.data())); res(one, n); break; }
      case B_N_BARRETT: { size_t shift = 2 * n; Limbs mm(shift - n + 1), sc = scratch(MPN_BARRETT_ITCH(shift)), sr = scratch(MPN_REDUCE_ITCH(n, shift)), xx = limbs(a.x, shift); mpn_barrett(mm.data(), yp, N, (mp_size_t)shift, sc.data()); mpn_reduce(Z.data(), xx.data(), mm.data(), yp, N, (mp_size_t)shift, sr.data()); res(Z.data(), n); break; }
      case B_N_MONT: { Limbs rr(n), sc = scratch(MPN_MONT_ITCH(n)), sm = scratch(MPN_MONTMUL_ITCH(n)); mp_limb_t k; mpn_mont(&k, rr.data(), yp, N, sc.data()); if (a.v & 64) mpn_sec_montmul(one, xp, mp, yp, N, k, sm.data()); else mpn_montmul(one, xp, mp, yp, N, k, sm.data()); if (mpn_cmp(one, yp, N) >= 0) mpn_sub_n(one, one, yp, N); res(one, n); break; }
      case B_N_INVERT: { Limbs sc = scratch(MPN_INVERT_ITCH(n)); out(mpn_invert(Z.data(), xp, strip(X), yp, N, sc.data()) != 0); res(Z.data(), n); break; } case B_N_SECINVERT: { Limbs sc = scratch(MPN_SEC_INVERT_ITCH(n)); out(mpn_sec_invert_n(one, xp, yp, N, sc.data()) != 0); res(one, n); break; }
      case B_N_GETBITS: { mp_bits_t pos = (mp_bits_t)(a.sh % (n * MP_LIMB_BITS)); out((i64)mpn_getbits(xp, N, pos, (mp_bits_t)(1 + a.w % (MP_LIMB_BITS - 1)))); out((i64)mpn_getbit(xp, N, pos)); break; }
      case B_N_DIVMOD: { Limbs qq(n - yn + 1, 0), rr(yn, 0); mpn_divmod(qq.data(), rr.data(), xp, N, yp, (mp_size_t)yn); put(a.z, qq); if (a.q != a.z) put(a.q, rr); else put(a.z, rr); break; }
      case B_N_BITS: { mp_bits_t pos = (mp_bits_t)(a.sh % (n * MP_LIMB_BITS)); out(mpn_bitlen(xp, N)); out((i64)mpn_bytelen(xp, N)); out(mpn_ctz(xp, N)); out(mpn_zero_p(xp, N)); out(mpn_tstbit(xp, pos)); out(cnt(mpn_scan0(xp, N, (mp_bits_t)a.sh))); out(cnt(mpn_scan1(xp, N, (mp_bits_t)a.sh))); if (a.w % 3 == 0) mpn_setbit(xp, pos); else if (a.w % 3 == 1) mpn_clrbit(xp, pos); else mpn_combit(xp, pos); res(xp, n); break; }
      case B_N_DIV1: { mp_limb_t r1 = mpn_mod_1(xp, N, w); out((i64)r1); if (a.v & 64) mpn_div_1(one, xp, N, w); else out((i64)mpn_divmod_1(one, xp, N, w)); res(one, n); break; }
      case B_N_DIVX: switch (a.sh % 3) { case 0: { Limbs qq = scratch(n - yn + 1); mpn_div(qq.data(), xp, N, yp, (mp_size_t)yn); put(a.z, qq); break; } case 1: { Limbs rr = scratch(yn); mpn_mod(rr.data(), xp, N, yp, (mp_size_t)yn); put(a.z, rr); break; } default: { Limbs pr = scratch(n + yn), qq = scratch(n + 1); mpn_mul(pr.data(), xp, N, yp, (mp_size_t)yn); mpn_divexact(qq.data(), pr.data(), (mp_size_t)(n + yn), yp, (mp_size_t)yn); put(a.z, qq); } } break;
      case B_N_GCD: { mp_size_t xs = strip(X), ys = strip(Y); if (xs < ys) { std::swap(xs, ys); std::swap(xp, yp); } Limbs sc = scratch((size_t)MPN_GCD_ITCH(xs, ys)), g1 = scratch((size_t)ys); mp_size_t k = mpn_gcd(g1.data(), xp, xs, yp, ys, sc.data()); out(k); put(a.z, g1); break; }
      case B_N_GCDEXT: { mp_size_t ys = strip(Y), sn = 0; Limbs g1 = scratch((size_t)ys), s1 = scratch((size_t)ys + 1); mp_size_t k = mpn_gcdext(g1.data(), s1.data(), &sn, xp, N, yp, ys); out(k); put(a.z, g1); put(a.q, s1); out((sn < 0 ? -sn : sn) == (mp_size_t)mpz_size(q)); if (sn < 0) mpz_neg(q, q); break; }
      case B_N_JACOBI: { mp_size_t ys = strip(Y); Limbs sc = scratch((size_t)MPN_JACOBI_ITCH(ys)); out(a.v & 64 ? mpn_jacobi_n(xp, yp, ys, sc.data()) : mpn_jacobi(xp, strip(X), yp, ys, sc.data())); break; }
      case B_N_POWM: { mp_size_t ms = strip(M), ys = a.v & 64 ? N : strip(Y); Limbs sc = scratch((size_t)MPN_POWM_ITCH(ys, ms)), o = scratch((size_t)ms); mpn_powm(o.data(), xp, strip(X), yp, ys, mp, ms, sc.data()); put(a.z, o); break; }
      case B_N_SECPOWM: { mp_size_t ms = strip(M); Limbs sc = scratch((size_t)MPN_SEC_POWM_ITCH(ms)), o = scratch((size_t)ms); mpn_sec_powm(o.data(), xp, strip(X), yp, (mp_size_t)yn, mp, ms, sc.data()); put(a.z, o); break; }
      case B_N_SQRT: { mp_size_t xs = strip(X); Limbs o = scratch((size_t)(xs + 1) / 2), rr = scratch((size_t)xs); out(mpn_sqrtrem(o.data(), a.v & 64 ? NULL : rr.data(), xp, xs)); out(mpn_perfect_square_p(xp, xs) != 0); put(a.z, o); if (!(a.v & 64)) put(a.q, rr); break; }
      case B_N_TEXT: { int base = 2 + (int)(a.w % 61); size_t len = mpn_sizeinbase(xp, N, base); out((i64)len); Guard b(len + 1); size_t got = mpn_get_str((char *)b.p(), xp, N, base); b.check("text"); text = (const char *)b.p(); out(got == text.size()); Limbs o = scratch(yn); int ok = mpn_set_str(o.data(), (mp_size_t)yn, text.c_str(), base); out(ok); put(a.z, o); break; }
      case B_N_BYTES: { size_t len = (size_t)(a.sh % (n * MP_LIMB_BYTES + 20)); int e = a.v & 64 ? 1 : -1; Guard b(len); mpn_export(b.p(), len, xp, N, e); b.check("export"); Limbs o = scratch(yn); mpn_import(o.data(), (mp_size_t)yn, b.p(), len, e); put(a.z, o); break; }
      case B_N_MISC: { Limbs buf(X); buf.insert(buf.end(), Y.begin(), Y.end()); size_t k = a.w % (n + 1); switch (a.sh % 5) { case 0: { Limbs o = scratch(2 * n); mpn_mul_n(o.data(), xp, yp, N); put(a.z, o); break; } case 1: mpn_cnd_zero(one, xp, N, w & 1); res(one, n); break; case 2: mpn_set_1(Z.data(), N, w); res(Z.data(), n); break; case 3: mpn_copyi(buf.data(), buf.data() + k, N); put(a.z, buf); break; default: mpn_copyd(buf.data() + k, buf.data(), N); put(a.z, buf); } break; }
      case B_N_RANDOMM: mpn_randomm(Z.data(), xp, N, fill, &g); res(Z.data(), n); break;
      default: { Limbs sc = scratch(MPN_GCD_1_ITCH(n)); out((i64)mpn_gcd_1(xp, strip(X), w, sc.data())); }
    }
  }
}
static std::string show(const BigVal &v) { return (v.neg ? "-" : "") + (v.be.empty() ? std::string("0") : hex(v.be, 60)); }
static void verify(Ctx &c, const char *what, const std::string &args) {
  for (int i = 0; i < BIG_REGS; i++) {
    BigVal got = get(i), want = bm_get(i); c.eval(); c.tr(got.be); c.tr((u64)got.neg);
    CHECK(got == want, "value", "after %s (%s) variable %d is %s, expected %s", what, args.c_str(), i, show(got).c_str(), show(want).c_str());
    size_t n = mpz_size(R[i]), bits = bm_bits(i), need = (bits + MP_LIMB_BITS - 1) / MP_LIMB_BITS; CHECK(n == need, "value", "after %s (%s) variable %d has %zu limbs, expected %zu", what, args.c_str(), i, n, need);
  }
}
static Plan gen(Rng &r, const Cfg &cfg, u64) {
  Plan p; auto sd = [&] { return (i64)(r.next() >> 1); }; int n = (int)r.range(4, cfg.thorough ? 60 : 30); i64 fav[6]; for (auto &f : fav) f = (i64)r.below(B_COUNT); int span = (int)r.range(2, BIG_REGS), swarm = (int)r.below(4); i64 sty[3]; for (auto &s : sty) s = (i64)r.below(BIG_STYLES);
  auto reg = [&] { return (i64)r.below((u64)span); }; static const u64 words[] = {0, 1, 2, 3, 10, ~0ull, 1ull << 63, 0x7fffffffffffffffull, 0xffffffff, 0x80000000, 0x100000000ull, ~0ull - 1, 0xffffffff00000000ull, 0x8000000000000001ull};
  auto word = [&] { return (i64)(r.chance(1, 2) ? words[r.below(14)] : r.next() >> r.below(64)); }; auto shift = [&] { static const u64 at[] = {0, 1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 192, 256, 511}; return (i64)(r.chance(1, 2) ? at[r.below(14)] : r.below(700)); };
  for (i64 i = 0; i < span; i++) p.add(OP_LOAD, {i, (i64)r.below(BIG_STYLES), sd(), reg()});
  for (int i = 0; i < n; i++) {
    if (r.chance(1, 5)) { p.add(OP_LOAD, {reg(), swarm ? sty[r.below(3)] : (i64)r.below(BIG_STYLES), sd(), reg()}); continue; }
    i64 op = swarm && r.chance(2, 3) ? fav[r.below(6)] : (i64)r.below(B_COUNT); i64 z = reg(), x = reg(), y = reg(), m = reg(), q = reg(), t = reg(), w = word(), v = (i64)(r.chance(1, 6) ? r.below(4) : r.next() >> 40), sh = shift();
    if (op == B_DIVEXACT && r.chance(3, 4)) { p.add(B_MUL, {x, q, t, z, y, m, w, v, sh}); } if (op == B_DIVEXACT_UI && r.chance(3, 4)) p.add(B_MUL_UI, {x, q, t, z, y, m, w, v, sh}); if (op == B_DIVEXACT_SI && r.chance(3, 4)) p.add(B_MUL_SI, {x, q, t, z, y, m, w, v, sh});
    p.add((int)op, {z, q, t, x, y, m, w, v, sh});
  }
  return p;
}
static void exec(const Plan &pl, Ctx &c) {
  W.reset(); bm_reset(); u64 live = heap_live(); for (auto &r : R) mpz_init(r); c.interesting = true; u64 done = 0; static const char *const alias[] = {"output is an operand", "all operands the same variable"};
  for (auto &st : pl.steps) {
    c.step();
    if (st.op == OP_LOAD) {
      int i = (int)((u64)st.arg(0) % BIG_REGS); BigVal v = bm_make((int)((u64)st.arg(1) % BIG_STYLES), (u64)st.arg(2), (int)((u64)st.arg(3) % BIG_REGS)); if (v.be.size() > 400) { v.be.resize(400); while (v.be.size() && !v.be[0]) v.be.erase(v.be.begin()); } bm_load(i, v); mpz_import(R[i], v.be.data(), v.be.size(), 1); if (v.neg) mpz_neg(R[i], R[i]); c.sh(1000 + (u64)st.arg(1)); verify(c, "loading", ""); continue;
    }
    BigArgs a; auto rg = [&](size_t k) { return (int)((u64)st.arg(k) % BIG_REGS); }; a.z = rg(0); a.q = rg(1); a.t = rg(2); a.x = rg(3); a.y = rg(4); a.m = rg(5); a.w = (u64)st.arg(6); a.v = (u64)st.arg(7); a.sh = (u64)st.arg(8) & 0xffff; a.limb = MP_LIMB_BITS; a.checked = false; if (MP_LIMB_BITS == 32) { a.w &= 0xffffffff; a.s = (i64)(int32_t)(u32)a.w; } else a.s = (i64)a.w;
    if (!bm_allowed(st.op, a)) { c.probe("outside the domain"); c.sh(2000); continue; }
    if (a.z == a.x || a.z == a.y) c.fault(alias[0]); if (a.x == a.y && a.x == a.z) c.fault(alias[1]); char args[160]; snprintf(args, sizeof args, "z=%d q=%d t=%d x=%d y=%d m=%d w=%llx v=%llu bits=%llu", a.z, a.q, a.t, a.x, a.y, a.m, (unsigned long long)a.w, (unsigned long long)a.v, (unsigned long long)a.sh);
    BigRet got, want; std::string text, wtext; u64 before = heap_live(); (void)before; run(st.op, a, got, text, c); std::string bad = bm_run(st.op, a, want, get, got, wtext); c.eval(); done++;
    CHECK(bad.empty(), "value", "%s (%s): %s", ops[st.op], args, bad.c_str()); CHECK(text == wtext, "value", "%s (%s): text %s, expected %s", ops[st.op], args, text.c_str(), wtext.c_str());
    CHECK(got.size() == want.size(), "harness", "%s: answer count", ops[st.op]); for (size_t i = 0; i < got.size(); i++) { c.tr((u64)got[i]); CHECK(got[i] == want[i], "answer", "%s (%s): answer %zu is %lld, expected %lld", ops[st.op], args, i, (long long)got[i], (long long)want[i]); }
    u64 b = 0; for (int i = 0; i < BIG_REGS; i++) if (bm_bits(i) > 5000) { verify(c, ops[st.op], args); b = bm_bits(i) - 300; mpz_quo_2exp(R[i], R[i], (mp_bits_t)b); bm_shrink(i, b); c.probe("large value"); }
    verify(c, ops[st.op], args); c.sh(hash2((u64)st.op, (u64)((a.z == a.x) | (a.z == a.y) << 1 | (a.x == a.y) << 2 | (a.z == a.m) << 3) * 64 + bm_bits(a.x) / 64 % 16 * 4 + (got.empty() ? 3 : (u64)got[0] & 1)));
    c.state(hash2((u64)st.op * 16 + (u64)((a.z == a.x) | (a.z == a.y) << 1 | (a.x == a.y) << 2 | (a.z == a.m) << 3), hash2(bm_bits(a.x) / 32, bm_bits(a.y) / 32)));
  }
  for (auto &r : R) mpz_clear(r); CHECK(heap_live() == live, "leak", "%llu blocks left after every variable was released", (unsigned long long)(heap_live() - live)); c.tr(done);
}
const Scenario scenario = {"C21", ops, gen, exec, nullptr, "distinct (sequence of operations with aliasing pattern, operand size class and answer)", 60};
