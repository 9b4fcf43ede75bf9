#!/usr/bin/env python3
"""Planted RSA and DSA bugs (C14)."""
from plant import plant
R, D = "src/rsa.c", "src/dsa.c"
B = 'gcc -O1 -w -I include "$here/demo.c" _build/release/libtorsion.a -lcrypto -lpthread -o "$t/demo"'
H = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <openssl/bn.h>
#include <torsion/rsa.h>
#include <torsion/dsa.h>
#include <torsion/hash.h>
static unsigned char priv[RSA_MAX_PRIV_SIZE], pub[RSA_MAX_PUB_SIZE]; static size_t pl, ul;
static BIGNUM *N, *E, *D;
static void make(unsigned bits, int seed) {
  static unsigned char parts[RSA_MAX_PRIV_SIZE]; unsigned char ent[32]; size_t l, i; const unsigned char *p = parts; BIGNUM **z[3] = {&N, &E, &D};
  memset(ent, seed, 32); if (!rsa_privkey_generate(priv, &pl, bits, 65537, ent) || !rsa_pubkey_create(pub, &ul, priv, pl) || !rsa_privkey_export(parts, &l, priv, pl)) exit(2);
  for (i = 0; i < 3; i++) { l = p[0] << 8 | p[1]; *z[i] = BN_bin2bn(p + 2, l, NULL); p += 2 + l; }
}
/* out = in ^ exp mod n, k bytes */
static void power(unsigned char *out, const unsigned char *in, size_t k, const BIGNUM *e) { BN_CTX *c = BN_CTX_new(); BIGNUM *m = BN_bin2bn(in, k, NULL); if (BN_cmp(m, N) >= 0) exit(2); BN_mod_exp(m, m, e, N, c); BN_bn2binpad(m, out, k); }
'''
plant("c14-sig-range", "C14", [(R, "  mpz_import(m, msg, msg_len, 1);\n\n  if (mpz_cmp(m, k->n) >= 0)\n    goto fail;\n\n  /* c = m^e mod n */", "  mpz_import(m, msg, msg_len, 1);\n\n  if (mpz_bitlen(m) > mpz_bitlen(k->n))\n    goto fail;\n\n  /* c = m^e mod n */")],
"a signature whose value was increased by the modulus and still has the modulus's bit length", "a second representation of a signature verifies", H + '''
int main(void) {
  int s, hits = 0;
  for (s = 1; s < 30; s++) {
    unsigned char msg[32], sig[64], ent[32], two[64]; size_t l; BIGNUM *v;
    make(512, s); memset(msg, s, 32); memset(ent, s + 1, 32);
    if (!rsa_sign(sig, &l, HASH_SHA256, msg, 32, priv, pl, ent) || !rsa_verify(HASH_SHA256, msg, 32, sig, l, pub, ul)) return 2;
    v = BN_bin2bn(sig, 64, NULL); BN_add(v, v, N); if (BN_num_bits(v) > 512) continue;
    BN_bn2binpad(v, two, 64); hits += rsa_verify(HASH_SHA256, msg, 32, two, 64, pub, ul);
  }
  printf("unreduced signatures accepted: %d\\n", hits); return hits != 0;
}
''', B)
plant("c14-lhash-tail", "C14", [(R, "  lvalid = sec_memequal(lhash, expect, hlen);\n", "  lvalid = sec_memequal(lhash, expect, hlen < 32 ? hlen : 32);\n")],
"an OAEP message with a long hash whose label digest is wrong only in its last bytes", "decryption accepts a message bound to another label digest", H + '''
static void mask(unsigned char *p, size_t n, const unsigned char *s, size_t sl) { unsigned char c[4] = {0}, d[64]; size_t i = 0, j; while (i < n) { hash_t h; hash_init(&h, HASH_SHA512); hash_update(&h, s, sl); hash_update(&h, c, 4); hash_final(&h, d, 64); for (j = 0; j < 64 && i < n; j++) p[i++] ^= d[j]; c[3]++; } }
int main(void) {
  unsigned char em[192], ct[192], out[192], ent[32] = {1}; size_t k = 192, dl = k - 65, l; int bad, r;
  make(1536, 5);
  for (bad = 0; bad < 2; bad++) {
    hash_t h; memset(em, 0, k); memset(em + 1, 7, 64); hash_init(&h, HASH_SHA512); hash_final(&h, em + 65, 64);
    if (bad) em[65 + 60] ^= 1;
    em[k - 4] = 1; memcpy(em + k - 3, "abc", 3);
    mask(em + 65, dl, em + 1, 64); mask(em + 1, 64, em + 65, dl);
    power(ct, em, k, E); r = rsa_decrypt_oaep(out, &l, HASH_SHA512, ct, k, priv, pl, NULL, 0, ent);
    printf("label digest %s: %d\\n", bad ? "damaged" : "right", r); if (r != !bad) return 1;
  }
  return 0;
}
''', B)
plant("c14-pss-topbyte", "C14", [(R, "    if (em[0] != 0x00)\n      goto fail;\n\n    if (!pss_verify(type, msg, msg_len, em + 1, bits - 1, salt_len))", "    if (!pss_verify(type, msg, msg_len, em + 1, bits - 1, salt_len))")],
"a key whose size is one more than a multiple of eight bits, and a signature whose encoding does not fit one bit less", "a malformed PSS signature verifies", H + '''
int main(void) {
  unsigned char sig[66], em[66], ent[32] = {2}, msg[20]; size_t l; int i, made = 0, r, good;
  for (i = 1; i < 200 && made < 3; i++) {
    BN_CTX *c = BN_CTX_new(); BIGNUM *m;
    make(521, i % 3 + 1); memset(msg, i, 20); ent[1] = i;
    if (!rsa_sign_pss(sig, &l, HASH_SHA1, msg, 20, priv, pl, 20, ent) || l != 66) return 2;
    good = rsa_verify_pss(HASH_SHA1, msg, 20, sig, l, pub, ul, 20); if (!good) return 1;
    power(em, sig, 66, E); if (em[0] != 0) return 2; em[0] = 1; m = BN_bin2bn(em, 66, NULL); if (BN_cmp(m, N) >= 0) continue;
    made++; power(sig, em, 66, D); r = rsa_verify_pss(HASH_SHA1, msg, 20, sig, 66, pub, ul, 20); printf("oversized encoding: %d\\n", r); if (r) return 1;
  }
  return made ? 0 : 2;
}
''', B)
plant("c14-key-length", "C14", [(R, "  ok &= sec_equal(klen - offset, out_len);\n", "  ok &= sec_lte(out_len, klen - offset);\n")],
"a well padded message that carries more bytes than the requested key length", "key decryption returns the tail of the message instead of a substitute key", H + '''
int main(void) {
  unsigned char msg[20], ct[64], ent[32] = {3}, a[16], b[16]; size_t l; int i;
  make(512, 9); for (i = 0; i < 20; i++) msg[i] = i + 1;
  if (!rsa_encrypt(ct, &l, msg, 16, pub, ul, ent) || !rsa_decrypt_key(a, 16, ct, l, priv, pl, ent)) return 2;
  if (memcmp(a, msg, 16)) return 1;
  if (!rsa_encrypt(ct, &l, msg, 20, pub, ul, ent) || !rsa_decrypt_key(b, 16, ct, l, priv, pl, ent)) return 2;
  printf("tail of a longer message returned: %d\\n", !memcmp(b, msg + 4, 16)); return !memcmp(b, msg + 4, 16);
}
''', B)
plant("c14-dsa-range", "C14", [(D, "  if (mpz_sgn(s) == 0 || mpz_cmp(s, k.q) >= 0)\n    goto fail;\n", "  if (mpz_sgn(s) == 0 || mpz_bitlen(s) > mpz_bitlen(k.q))\n    goto fail;\n")],
"a DSA signature whose second half was increased by the group order and still fits", "a second representation of a signature verifies", H + '''
int main(void) {
  static unsigned char params[DSA_MAX_PARAMS_SIZE], dp[DSA_MAX_PRIV_SIZE], du[DSA_MAX_PUB_SIZE], pr[DSA_MAX_PARAMS_SIZE]; unsigned char ent[32], msg[20], sig[40]; size_t gl, kl, l, n, hits = 0, tried = 0; int i; BIGNUM *q;
  memset(ent, 4, 32); if (!dsa_params_generate(params, &gl, 1024, ent) || !dsa_privkey_create(dp, &kl, params, gl, ent) || !dsa_pubkey_create(du, &l, dp, kl) || !dsa_params_export(pr, &n, params, gl)) return 2;
  n = pr[0] << 8 | pr[1]; q = BN_bin2bn(pr + 2 + n + 2, 20, NULL); if (BN_num_bits(q) != 160) return 2;
  for (i = 0; i < 200; i++) { size_t sl; BIGNUM *s; memset(msg, i, 20); msg[0] = 1; if (!dsa_sign(sig, &sl, msg, 20, dp, kl, ent) || !dsa_verify(msg, 20, sig, sl, du, l)) return 2;
    s = BN_bin2bn(sig + 20, 20, NULL); BN_add(s, s, q); if (BN_num_bits(s) > 160) continue; tried++; BN_bn2binpad(s, sig + 20, 20); hits += dsa_verify(msg, 20, sig, sl, du, l); }
  printf("tried %zu, accepted %zu\\n", tried, hits); return tried ? hits != 0 : 2;
}
''', B)
