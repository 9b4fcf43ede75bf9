#!/usr/bin/env python3
"""Planted context-blinding bugs (C15)."""
from plant import plant
E = "src/ecc.c"
H = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <torsion/ecc.h>
'''
MULG = ("""  const wge_t *wnds = ec->wnd_fixed;
  mp_bits_t steps = FIXED_STEPS(sc->bits);
  mp_bits_t i, j, b;
  sc_t k0;
  wge_t t;

  /* Blind if available. */
  sc_add(sc, k0, k, ec->blind);

  /* Multiply in constant time. */
  jge_set(ec, r, &ec->unblind);
""", """  const wge_t *wnds = ec->wnd_fixed;
  mp_bits_t steps = FIXED_STEPS(sc->bits);
  mp_bits_t i, j, b;
  sc_t k0;
  jge_t z;
  wge_t t;

  /* Blind if available. */
  sc_add(sc, k0, k, ec->blind);

  /* Multiply in constant time. */
  jge_set(ec, r, &ec->unblind);
""")
plant("c15-zero-shift", "C15", [(E, MULG[0], MULG[1]), (E, "    jge_mixed_add(ec, r, r, &t);\n  }\n\n  /* Cleanse. */\n  sc_cleanse(sc, k0);\n\n  cleanse(&b, sizeof(b));\n}\n\nstatic void\nwei_mul_g(", "    jge_mixed_add(ec, r, r, &t);\n  }\n\n  /* Multiplying by zero. */\n  jge_zero(ec, &z);\n  jge_select(ec, r, r, &z, sc_is_zero(sc, k0));\n\n  /* Cleanse. */\n  sc_cleanse(sc, k0);\n\n  cleanse(&b, sizeof(b));\n}\n\nstatic void\nwei_mul_g(")],
"a private key that equals the context's blinding scalar, for instance because both were derived from the same entropy", "the public key of such a private key becomes the point at infinity", H + '''
int main(void) {
  wei_curve_t *a = wei_curve_create(WEI_CURVE_P256), *b = wei_curve_create(WEI_CURVE_P256); unsigned char ent[32], key[32], p[65], q[65]; size_t n = 0, m = 0; int x, y;
  memset(ent, 5, 32); ecdsa_privkey_generate(a, key, ent); wei_curve_randomize(b, ent);
  memset(p, 0, 65); memset(q, 0, 65); x = ecdsa_pubkey_create(a, p, &n, key, 1); y = ecdsa_pubkey_create(b, q, &m, key, 1);
  printf("%d %d %d\\n", x, y, memcmp(p, q, 65));
  return x == y && n == m && memcmp(p, q, 65) == 0 ? 0 : 1;
}
''')
plant("c15-reuse-scalar", "C15", [(E, "  const scalar_field_t *sc = &ec->sc;\n  xge_t unblind;\n  sc_t blind;\n  drbg_t rng;\n\n  drbg_init(&rng, HASH_SHA256, entropy, ENTROPY_SIZE);\n\n  sc_random(sc, blind, &rng);\n", "  static unsigned char last[ENTROPY_SIZE];\n  static sc_t saved;\n  static int seeded = 0;\n  const scalar_field_t *sc = &ec->sc;\n  xge_t unblind;\n  sc_t blind;\n  drbg_t rng;\n\n  drbg_init(&rng, HASH_SHA256, entropy, ENTROPY_SIZE);\n\n  if (seeded && memcmp(last, entropy, ENTROPY_SIZE) == 0) {\n    sc_set(sc, blind, saved);\n  } else {\n    sc_random(sc, blind, &rng);\n    memset(saved, 0, sizeof(saved));\n    sc_set(sc, saved, blind);\n    memcpy(last, entropy, ENTROPY_SIZE);\n    seeded = 1;\n  }\n")],
"two contexts of different Edwards curves randomised one after the other with the same entropy", "the second context is blinded with a scalar of the wrong field and computes wrong keys and signatures", H + '''
int main(void) {
  int i, bad = 0;
  for (i = 0; i < 40; i++) {
    edwards_curve_t *a = edwards_curve_create(EDWARDS_CURVE_ED448), *b = edwards_curve_create(EDWARDS_CURVE_ED1174), *c = edwards_curve_create(EDWARDS_CURVE_ED1174); unsigned char ent[32], key[32], p[32], q[32];
    memset(ent, i, 32); memset(key, 9 + i, 32); edwards_curve_randomize(a, ent); edwards_curve_randomize(b, ent);
    eddsa_pubkey_create(b, p, key); eddsa_pubkey_create(c, q, key); bad += memcmp(p, q, 32) != 0;
    edwards_curve_destroy(a); edwards_curve_destroy(b); edwards_curve_destroy(c);
  }
  printf("%d wrong keys\\n", bad);
  return bad != 0;
}
''')
plant("c15-same-entropy", "C15", [(E, "  sc_random(sc, blind, &rng);\n\n  wei_jmul_g(ec, &unblind, blind);\n\n  sc_neg(sc, ec->blind, blind);\n  jge_set(ec, &ec->unblind, &unblind);\n", "  sc_random(sc, blind, &rng);\n\n  wei_jmul_g(ec, &unblind, blind);\n\n  sc_neg(sc, blind, blind);\n\n  /* Never keep the same mask. */\n  if (sc_equal(sc, ec->blind, blind)) {\n    sc_add(sc, blind, blind, blind);\n    jge_dbl(ec, &unblind, &unblind);\n    jge_neg(ec, &unblind, &unblind);\n  }\n\n  sc_set(sc, ec->blind, blind);\n  jge_set(ec, &ec->unblind, &unblind);\n")],
"a context randomised twice in a row with the same entropy", "the mask and its point no longer belong together, every later key and signature is wrong", H + '''
int main(void) {
  wei_curve_t *a = wei_curve_create(WEI_CURVE_SECP256K1), *b = wei_curve_create(WEI_CURVE_SECP256K1); unsigned char ent[32], key[32], p[33], q[33]; size_t n, m;
  memset(ent, 5, 32); memset(key, 6, 32); wei_curve_randomize(b, ent); wei_curve_randomize(b, ent);
  ecdsa_pubkey_create(a, p, &n, key, 1); ecdsa_pubkey_create(b, q, &m, key, 1);
  printf("%d\\n", memcmp(p, q, 33));
  return memcmp(p, q, 33) != 0;
}
''')
