#!/usr/bin/env python3
"""Planted bugs in big-integer arithmetic (C21)."""
from plant import plant
M = "src/mpi.c"
H = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <torsion/mpi.h>
static int differs(mpz_srcptr x, const char *want) { char *s = mpz_get_str(x, 16); int r = strcmp(s, want) != 0; printf("%s (want %s)\\n", s, want); free(s); return r; }
'''
plant("c21-divmod-alias", "C21", [(M, '''    if (q == d || r == d) {
      mpz_init_vla(td, MP_ABS(d->size));
''', '''    if (r == d) {
      mpz_init_vla(td, MP_ABS(d->size));
''')], "a Euclidean division of a negative number whose quotient is stored over the divisor", "the quotient is adjusted in the wrong direction and the remainder by the wrong amount", H + '''
int main(void) { mpz_t n, d; mpz_init_set_si(n, -7); mpz_init_set_si(d, 2); mpz_div(d, n, d); return differs(d, "-4"); }
''')
plant("c21-mulshift-alias", "C21", [(M, '''  mp_size_t sign = x->size ^ y->size;
  mp_limb_t b;

  mpz_mul(z, x, y);
''', '''  mp_limb_t b;

  mpz_mul(z, x, y);
'''), (M, '''    if (sign < 0)
      mpz_neg(z, z);
  }
}

/*
 * Truncation Division
''', '''    if ((x->size ^ y->size) < 0)
      mpz_neg(z, z);
  }
}

/*
 * Truncation Division
''')], "a rounded product stored over a negative operand", "the sign of the result is lost", H + '''
int main(void) { mpz_t x, y; mpz_init_set_si(x, -100); mpz_init_set_si(y, 100); mpz_mulshift(x, x, y, 4); return differs(x, "-271"); }
''')
plant("c21-gcdext-order", "C21", [(M, '''  if (x->size < 0)
    mpz_neg(C, C);

  if (y->size < 0)
    mpz_neg(D, D);

  if (g != NULL)
    mpz_mul_2exp(g, v, shift);
''', '''  if (g != NULL)
    mpz_mul_2exp(g, v, shift);

  if (x->size < 0)
    mpz_neg(C, C);

  if (y->size < 0)
    mpz_neg(D, D);
''')], "an extended gcd of a negative number whose divisor is stored over that number", "the cofactor of the overwritten operand has the wrong sign", H + '''
int main(void) { mpz_t x, y, s, t, a, b; mpz_init_set_si(x, -240); mpz_init_set_si(y, 46); mpz_inits(s, t, a, b, NULL); mpz_gcdext(x, s, t, x, y); mpz_mul_si(a, s, -240); mpz_mul_si(b, t, 46); mpz_add(a, a, b); return differs(a, "2"); }
''')
plant("c21-scan-low", "C21", [(M, '''    return mpn_scan(xp, xn, 1, mpn_zero_p(xp, s), pos);

  return mpn_scan(xp, xn, 0, 0, pos);
''', '''    return mpn_scan(xp, xn, 1, s == 0 || xp[0] == 0, pos);

  return mpn_scan(xp, xn, 0, 0, pos);
''')], "a search for a clear bit from the third word on in a negative number whose lowest word is zero and whose second is not", "the position returned is wrong", H + '''
int main(void) { mpz_t x; long r; mpz_init(x); mpz_set_str(x, "-500000000000000070000000000000000", 16); r = mpz_scan0(x, 128); printf("%ld\\n", r); return r != 128; }
''')
