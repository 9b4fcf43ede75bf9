import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import plant
E = "src/ecc.c"
H = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <torsion/ecc.h>
#include <torsion/hash.h>
'''
plant("c12-recover-high", "C12", [(E, "    if (sc_cmp_var(sc, r, ec->sc_p) >= 0)\n      goto fail;\n\n    fe_add(fe, x, x, ec->fe_n);\n", "    if (sc_cmp_var(sc, s, ec->sc_p) < 0)\n      goto fail;\n\n    fe_add(fe, x, x, ec->fe_n);\n")],
 "a recovery parameter damaged to claim a coordinate above the group order", "a key is recovered under which the signature does not verify",
 H + r"""
int main(void) {
  wei_curve_t *ec = wei_curve_create(WEI_CURVE_SECP256K1);
  unsigned char priv[32], sig[64], pub[65], msg[32]; size_t n; unsigned int q; int i, bad = 0;
  for (i = 1; i < 40; i++) {
    memset(msg, i, 32); memset(priv, 3 * i, 32);
    if (!ecdsa_sign(ec, sig, &q, msg, 32, priv)) return 2;
    if (!ecdsa_recover(ec, pub, &n, msg, 32, sig, q, 1) || !ecdsa_verify(ec, msg, 32, sig, pub, n)) return 3;
    if (ecdsa_recover(ec, pub, &n, msg, 32, sig, q | 2, 1) && !ecdsa_verify(ec, msg, 32, sig, pub, n)) bad++;
  }
  printf("%d recovered keys do not verify\n", bad);
  return bad ? 1 : 0;
}
""")
plant("c12-batch-sum", "C12", [(E, "      wei_jmul_multi_var(ec, &r, sum, points, coeffs, j, scratch);\n\n      if (!jge_is_zero(ec, &r))\n        return 0;\n\n      sc_zero(sc, sum);\n\n      j = 0;\n    }\n  }\n\n  if (j > 0) {\n    sc_neg(sc, sum, sum);\n\n    wei_jmul_multi_var(ec, &r, sum, points, coeffs, j, scratch);\n\n    if (!jge_is_zero(ec, &r))\n      return 0;\n  }\n\n  return 1;\n}\n\nint\nbip340_derive(",
  "      wei_jmul_multi_var(ec, &r, sum, points, coeffs, j, scratch);\n\n      if (!jge_is_zero(ec, &r))\n        return 0;\n\n      sc_zero(sc, sum);\n\n      j = 0;\n    }\n  }\n\n  if (j > 2) {\n    sc_neg(sc, sum, sum);\n\n    wei_jmul_multi_var(ec, &r, sum, points, coeffs, j, scratch);\n\n    if (!jge_is_zero(ec, &r))\n      return 0;\n  } else if (j > 0 && len == 1) {\n    return bip340_verify(ec, msgs[0], msg_lens[0], sigs[0], pubs[0]);\n  }\n\n  return 1;\n}\n\nint\nbip340_derive(")],
 "a batch that leaves exactly one signature for the last round, and that signature invalid", "the last signature of the batch is never verified",
 H + r'''
int main(void) {
  wei_curve_t *ec = wei_curve_create(WEI_CURVE_SECP256K1); wei_scratch_t *s = wei_scratch_create(ec, 4);
  unsigned char priv[32], pub[3][32], sig[3][64], msg[32]; const unsigned char *m[3], *g[3], *p[3]; size_t l[3]; int i, a, b;
  memset(msg, 5, 32);
  for (i = 0; i < 3; i++) { memset(priv, i + 3, 32); if (!bip340_pubkey_create(ec, pub[i], priv)) return 2; if (!bip340_sign(ec, sig[i], msg, 32, priv, NULL)) return 2; m[i] = msg; g[i] = sig[i]; p[i] = pub[i]; l[i] = 32; }
  a = bip340_verify_batch(ec, m, l, g, p, 3, s); sig[2][40] ^= 1; b = bip340_verify_batch(ec, m, l, g, p, 3, s);
  printf("valid batch: %d, batch with a broken last signature: %d\n", a, b);
  return a == 1 && b == 0 ? 0 : 1;
}
''')
plant("c12-ed448-batch-tail", "C12", [(E, "    if ((fe->bits & 7) == 0) {\n      if (sraw[fe->size] != 0x00)\n        return 0;\n    }\n\n    eddsa_hash_challenge(", "    if ((fe->bits & 7) == 0) {\n      if (sraw[fe->size] != 0x00 && j == 0)\n        return 0;\n    }\n\n    eddsa_hash_challenge(")],
 "an Ed448 batch with more than one signature in the round, one of them altered in its very last byte", "an altered signature is accepted in a batch although it is refused alone",
 H + r'''
int main(void) {
  edwards_curve_t *ec = edwards_curve_create(EDWARDS_CURVE_ED448); edwards_scratch_t *s = edwards_scratch_create(ec, 8);
  unsigned char priv[57], pub[2][57], sig[2][114], msg[32]; const unsigned char *m[2], *g[2], *p[2]; size_t l[2]; int i, a, b;
  memset(msg, 5, 32);
  for (i = 0; i < 2; i++) { memset(priv, i + 3, 57); eddsa_pubkey_create(ec, pub[i], priv); eddsa_sign(ec, sig[i], msg, 32, priv, -1, NULL, 0); m[i] = msg; g[i] = sig[i]; p[i] = pub[i]; l[i] = 32; }
  a = eddsa_verify_batch(ec, m, l, g, p, 2, -1, NULL, 0, s); sig[1][113] ^= 1; b = eddsa_verify_batch(ec, m, l, g, p, 2, -1, NULL, 0, s);
  printf("valid batch: %d, altered batch: %d\n", a, b);
  return a == 1 && b == 0 ? 0 : 1;
}
''')
plant("c12-hybrid-parity", "C12", [(E, "      ret &= (form == 0x04) | (form == (0x06 | fe_is_odd(fe, y)));\n", "      ret &= (form == 0x04) | ((form | 1) == (0x06 | 1));\n")],
 "a hybrid public key encoding whose prefix contradicts the coordinate it carries", "a damaged public key verifies a signature",
 H + r'''
int main(void) {
  wei_curve_t *ec = wei_curve_create(WEI_CURVE_P256); unsigned char priv[32], pub[65], sig[64], msg[32]; size_t n; unsigned int q; int a, b, i, bad = 0;
  memset(msg, 5, 32);
  for (i = 1; i < 20; i++) {
    memset(priv, i, 32); if (!ecdsa_pubkey_create(ec, pub, &n, priv, 0) || !ecdsa_sign(ec, sig, &q, msg, 32, priv)) return 2;
    pub[0] = (unsigned char)(6 | (pub[64] & 1)); a = ecdsa_verify(ec, msg, 32, sig, pub, 65); pub[0] ^= 1; b = ecdsa_verify(ec, msg, 32, sig, pub, 65);
    if (!a || b) bad++;
  }
  printf("%d wrong\n", bad); return bad ? 1 : 0;
}
''')
plant("c12-long-context", "C12", [(E, "    hash_update(hash, ctx, ctx_len);\n  }\n}\n\nstatic void\neddsa_hash_update(", "    hash_update(hash, ctx, ctx_len & 127);\n  }\n}\n\nstatic void\neddsa_hash_update(")],
 "signing contexts of 128 bytes or more that differ only after their first part", "a signature made in one context verifies in another",
 H + r'''
int main(void) {
  edwards_curve_t *ec = edwards_curve_create(EDWARDS_CURVE_ED25519); unsigned char priv[32], pub[32], sig[64], msg[9] = {1}, ctx[200]; int a, b;
  memset(priv, 3, 32); memset(ctx, 7, 200); eddsa_pubkey_create(ec, pub, priv); eddsa_sign(ec, sig, msg, 9, priv, 0, ctx, 200);
  a = eddsa_verify(ec, msg, 9, sig, pub, 0, ctx, 200); ctx[150] ^= 1; b = eddsa_verify(ec, msg, 9, sig, pub, 0, ctx, 200);
  printf("same context %d, different context %d\n", a, b); return a == 1 && b == 0 ? 0 : 1;
}
''')
