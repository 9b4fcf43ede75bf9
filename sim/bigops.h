// Big-integer programs: the operations, their arguments and the model's interface (C21).
#pragma once
#include "engine.h"
#define BIG_OPS(X) \
  X(SET) X(SWAP) X(NEG) X(ABS) X(ADD) X(SUB) X(MUL) X(SQR) X(ADDMUL) X(SUBMUL) X(ADD_UI) X(SUB_UI) X(UI_SUB) X(MUL_UI) X(ADDMUL_UI) X(SUBMUL_UI) \
  X(ADD_SI) X(SUB_SI) X(SI_SUB) X(MUL_SI) X(ADDMUL_SI) X(SUBMUL_SI) X(MULSHIFT) X(QUOREM) X(QUO) X(REM) X(QUO_UI) X(REM_UI) X(QUO_SI) X(REM_SI) \
  X(DIVMOD) X(DIV) X(MOD) X(DIV_UI) X(MOD_UI) X(DIV_SI) X(MOD_SI) X(DIVEXACT) X(DIVEXACT_UI) X(DIVEXACT_SI) X(DIVROUND) X(DIVROUND_UI) X(DIVROUND_SI) \
  X(DIVISIBLE) X(DIVISIBLE_UI) X(DIVISIBLE_2EXP) X(CONGRUENT) X(CONGRUENT_UI) X(CONGRUENT_2EXP) X(POW_UI) X(UI_POW_UI) X(ROOTREM) X(ROOT) X(PERFECT_POWER) \
  X(SQRTREM) X(SQRT) X(PERFECT_SQUARE) X(AND) X(AND_UI) X(AND_SI) X(IOR) X(IOR_UI) X(IOR_SI) X(XOR) X(XOR_UI) X(XOR_SI) X(COM) \
  X(MUL_2EXP) X(QUO_2EXP) X(REM_2EXP) X(DIV_2EXP) X(MOD_2EXP) X(TSTBIT) X(SETBIT) X(CLRBIT) X(COMBIT) X(SCAN0) X(SCAN1) X(POPCOUNT) X(HAMDIST) \
  X(GCD) X(GCD_UI) X(LCM) X(LCM_UI) X(GCDEXT) X(INVERT) X(JACOBI) X(KRONECKER) X(KRONECKER_UI) X(KRONECKER_SI) X(UI_KRONECKER) X(SI_KRONECKER) \
  X(POWM) X(POWM_UI) X(POWM_SEC) X(SQRTM) X(SQRTPQ) X(REMOVE) X(FAC) X(FAC2) X(MFAC) X(PRIMORIAL) X(BIN_UI) X(BIN_UIUI) X(BIN_SIUI) X(FIB) X(FIB2) X(LUC) X(LUC2) \
  X(PRIME) X(MRPRIME) X(LUCASPRIME) X(NEXTPRIME) X(FINDPRIME) X(RANDPRIME) X(FITS) X(ODD) X(LENGTHS) X(SIZEINBASE) X(CMP) X(CMP_UI) X(SET_UI) X(SET_SI) X(SET_COMPACT) X(GET_COMPACT) \
  X(STR) X(STR_BAD) X(LIMBS_WRITE) X(LIMBS_MODIFY) X(REALLOC) X(ROVIEW) X(EXPORT) X(URANDOMB) X(URANDOMM) X(RENEW) X(INITS) X(LEGENDRE) \
  X(N_ADD) X(N_SUB) X(N_ADD1) X(N_SUB1) X(N_MUL1) X(N_ADDMUL1) X(N_SUBMUL1) X(N_MUL) X(N_SQR) X(N_LSHIFT) X(N_RSHIFT) X(N_NEG) X(N_COM) X(N_LOGIC) X(N_MASK) X(N_MULSHIFT) \
  X(N_SECADD) X(N_SECSUB) X(N_SECCMP) X(N_CNDADD) X(N_CNDSUB) X(N_CNDNEG) X(N_CNDSEL) X(N_TAB) X(N_REDUCE) X(N_BARRETT) X(N_MONT) X(N_INVERT) X(N_SECINVERT) X(N_GETBITS) X(N_DIVMOD) X(N_GCD1) \
  X(N_BITS) X(N_DIV1) X(N_DIVX) X(N_GCD) X(N_GCDEXT) X(N_JACOBI) X(N_POWM) X(N_SECPOWM) X(N_SQRT) X(N_TEXT) X(N_BYTES) X(N_MISC) X(N_RANDOMM)
enum BigOp {
#define X(n) B_##n,
  BIG_OPS(X)
#undef X
  B_COUNT
};
enum { BIG_REGS = 8, BIG_PRIMES = 18 };
struct BigArgs { int z, q, t, x, y, m; u64 w, v; i64 s; u64 sh; int limb; bool checked; };
struct BigVal { bool neg; Bytes be; bool operator==(const BigVal &o) const { return neg == o.neg && be == o.be; } bool operator!=(const BigVal &o) const { return !(*this == o); } };
typedef std::vector<i64> BigRet;
// the model (GMP)
void bm_reset();
void bm_load(int r, const BigVal &v);
BigVal bm_get(int r);
u64 bm_bits(int r);
bool bm_allowed(int op, const BigArgs &a);                                  // the operation is defined and small enough
// runs after the library; `lib` gives the library's registers where more than one answer is right. Returns a complaint or "".
std::string bm_run(int op, const BigArgs &a, BigRet &ret, BigVal (*lib)(int), const BigRet &libret, std::string &text);
const char *bm_prime(int i);                                                // hexadecimal
enum { BIG_STYLES = 17 };
BigVal bm_make(int style, u64 seed, int other);
void bm_shrink(int r, u64 n);
