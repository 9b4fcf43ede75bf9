#!/usr/bin/env python3
"""Planted key-algebra and key-agreement bugs (C13)."""
from plant import plant
E, D = "src/ecc.c", "src/dsa.c"
H = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <torsion/ecc.h>
#include <torsion/dsa.h>
'''
plant("c13-dsa-subgroup", "C13", [(D, "  if (!dsa_priv_is_sane(&k2))\n    goto fail;\n\n  if (!dsa_pub_verify(&k1))\n    goto fail;\n\n  mpz_powm_sec(e, k1.y", "  if (!dsa_priv_is_sane(&k2))\n    goto fail;\n\n  if (!dsa_pub_is_sane(&k1))\n    goto fail;\n\n  mpz_powm_sec(e, k1.y")],
"a finite-field peer key whose value lies outside the prime-order subgroup", "key agreement with such a peer key succeeds and leaks the private key modulo the cofactor", H + '''
/* 512-bit p with 160-bit q; the peer's y is replaced by y + 1. */
int main(void) {
  static unsigned char params[DSA_MAX_PARAMS_SIZE], priv[DSA_MAX_PRIV_SIZE], pub[DSA_MAX_PUB_SIZE], out[DSA_MAX_SIZE];
  unsigned char ent[32]; size_t pl, kl, ul, ol; int a, b;
  memset(ent, 7, 32);
  if (!dsa_params_generate(params, &pl, 1024, ent)) return 2;
  if (!dsa_privkey_create(priv, &kl, params, pl, ent)) return 2;
  if (!dsa_pubkey_create(pub, &ul, priv, kl)) return 2;
  a = dsa_derive(out, &ol, pub, ul, priv, kl);
  /* last byte of y: header 30 82 xx xx, 02 81 len */
  { size_t at = 4, len; if (pub[at] != 2) return 2; if (pub[at + 1] & 0x80) { len = pub[at + 2]; at += 3; } else { len = pub[at + 1]; at += 2; } pub[at + len - 1] ^= 4; }
  b = dsa_derive(out, &ol, pub, ul, priv, kl);
  printf("honest %d, outside the subgroup %d\\n", a, b);
  return a == 1 && b == 0 ? 0 : 1;
}
''')
plant("c13-ed-smallorder", "C13", [(E, "  edwards_mul(ec, &P, &A, a);\n\n  ret &= xge_is_zero(ec, &P) ^ 1;\n\n  xge_export(ec, secret, &P);\n", "  edwards_mul(ec, &P, &A, a);\n\n  ret &= xge_is_zero(ec, &A) ^ 1;\n\n  xge_export(ec, secret, &P);\n")],
"an Edwards peer key of small order other than the identity", "key agreement with such a peer key succeeds with a secret that does not depend on the private key", H + '''
int main(void) {
  edwards_curve_t *ec = edwards_curve_create(EDWARDS_CURVE_ED25519); unsigned char pub[32], priv[32], s[32]; int a, b;
  memset(priv, 9, 32); eddsa_pubkey_create(ec, pub, priv); a = eddsa_derive(ec, s, pub, priv);
  memset(pub, 0, 32); /* a point of order four */
  b = eddsa_derive(ec, s, pub, priv);
  printf("honest %d, small order %d\\n", a, b);
  return a == 1 && b == 0 ? 0 : 1;
}
''')
plant("c13-group-wrap", "C13", [(E, "  /* Check for canonical encoding. */\n  ret &= fe_import(fe, s, raw);\n\n  /* Reject if S < 0. */\n", "  /* Check for canonical encoding. */\n  ret &= fe_import(fe, s, raw) | (ec->h == 4);\n\n  /* Reject if S < 0. */\n")],
"an Ed448 or Ed1174 group element whose encoding is not reduced", "such an encoding is taken as a second name of a valid key", H + '''
int main(void) {
  edwards_curve_t *ec = edwards_curve_create(EDWARDS_CURVE_ED1174); unsigned char pub[32]; int a, b, i, c = 0;
  memset(pub, 0, 32); a = ristretto_pubkey_verify(ec, pub);
  /* the field's modulus, another spelling of zero */
  memset(pub, 0xff, 32); pub[0] = 0xf7; pub[31] = 0x07; b = ristretto_pubkey_verify(ec, pub);
  printf("zero %d, modulus %d\\n", a, b);
  return a == 1 && b == 0 ? 0 : 1;
}
''')
plant("c13-zero-sum", "C13", [(E, "  sc_neg_cond(sc, a, a, wge_is_even(ec, &A) ^ 1);\n  sc_add(sc, a, a, t);\n\n  ret &= sc_is_zero(sc, a) ^ 1;\n\n  sc_export(sc, out, a);\n", "  sc_neg_cond(sc, a, a, wge_is_even(ec, &A) ^ 1);\n\n  ret &= sc_equal(sc, a, t) ^ (sc_is_zero(sc, t) ^ 1);\n\n  sc_add(sc, a, a, t);\n  sc_export(sc, out, a);\n")],
"an x-only private key tweaked by its own even form or its negative, or a zero tweak", "the private half disagrees with the public half about whether the tweak is possible", H + '''
int main(void) {
  wei_curve_t *ec = wei_curve_create(WEI_CURVE_SECP256K1); unsigned char k[32], x[32], y[32], d[32], o[32], pub[32], q[32]; int a, b, n;
  memset(k, 3, 32); bip340_pubkey_create(ec, pub, k); bip340_privkey_export(ec, d, x, y, k);
  a = bip340_privkey_tweak_add(ec, o, k, d); b = bip340_pubkey_tweak_add(ec, q, &n, pub, d);
  printf("doubling by tweak: private %d, public %d\\n", a, b);
  if (a != b) return 1;
  memset(y, 0, 32); a = bip340_privkey_tweak_add(ec, o, k, y); b = bip340_pubkey_tweak_add(ec, q, &n, pub, y);
  printf("zero tweak: private %d, public %d\\n", a, b);
  return a != b;
}
''')
plant("c13-mul-parity", "C13", [(E, "  ret &= bip340_pubkey_tweak_mul(ec, raw, &sign, pub, tweak);\n  ret &= torsion_memequal(raw, expect, fe->size);\n  ret &= (sign == (negated != 0));\n", "  ret &= bip340_pubkey_tweak_mul(ec, raw, &sign, pub, tweak);\n  ret &= torsion_memequal(raw, expect, fe->size);\n  ret &= (sign <= (negated != 0));\n")],
"checking a multiplicative tweak of an x-only key with a parity claim of odd where the point is even", "the check accepts a false claim about the tweaked key", H + '''
int main(void) {
  wei_curve_t *ec = wei_curve_create(WEI_CURVE_SECP256K1); unsigned char k[32], pub[32], t[32], q[32]; int i, n, bad = 0;
  memset(k, 3, 32); bip340_pubkey_create(ec, pub, k); memset(t, 0, 32);
  for (i = 2; i < 40; i++) { t[31] = (unsigned char)i; if (!bip340_pubkey_tweak_mul(ec, q, &n, pub, t)) return 2; if (!bip340_pubkey_tweak_mul_check(ec, pub, t, q, n)) bad++; if (bip340_pubkey_tweak_mul_check(ec, pub, t, q, !n)) bad++; }
  printf("%d wrong answers\\n", bad);
  return bad != 0;
}
''')
