#!/usr/bin/env python3
"""Planted bugs: secrets left in memory given back."""
from plant import plant
W = 'gcc -O1 -w -I include "$here/demo.c" _build/release/libtorsion.a -lpthread -Wl,--wrap=malloc,--wrap=calloc,--wrap=free -o "$t/demo"'
H = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static struct { void *p; size_t n; } blk[4096]; static int nblk, on, bad; static unsigned char needle[64]; static size_t nneedle;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (on && nblk < 4096) { blk[nblk].p = p; blk[nblk++].n = n; } return p; }
void *__wrap_calloc(size_t m, size_t n) { void *p = __real_calloc(m, n); if (on && nblk < 4096) { blk[nblk].p = p; blk[nblk++].n = m * n; } return p; }
static int holds(const unsigned char *p, size_t n) { size_t i; for (i = 0; i + nneedle <= n; i++) if (!memcmp(p + i, needle, nneedle)) return 1; return 0; }
static int dirty(const unsigned char *p, size_t n) { while (n--) if (*p++) return 1; return 0; }
void __wrap_free(void *p) { int i; for (i = 0; i < nblk; i++) if (blk[i].p == p) { if (nneedle ? holds(p, blk[i].n) : dirty(p, blk[i].n)) bad++; blk[i].p = NULL; } __real_free(p); }
'''
K = "src/kdf.c"
plant("c22-scrypt-lanes", "C22", [(K, "    torsion_memzero(B, 128 * R * P);\n", "    torsion_memzero(B, 128 * R);\n")], "scrypt with a parallelisation above one", "the mixed blocks of all but the first lane stay readable in memory given back", H + '''
#include <torsion/kdf.h>
int main(void) { unsigned char o[32]; on = 1; scrypt_derive(o, (unsigned char *)"password", 8, (unsigned char *)"salt", 4, 16, 2, 2, 32); on = 0; printf("%d dirty blocks\\n", bad); return bad != 0; }
''', W)
plant("c22-scrypt-table", "C22", [(K, "    torsion_memzero(V, 128 * R * N);\n", "    torsion_memzero(V, 128 * N);\n")], "scrypt with a block size above one", "most of the lookup table stays readable in memory given back", H + '''
#include <torsion/kdf.h>
int main(void) { unsigned char o[32]; on = 1; scrypt_derive(o, (unsigned char *)"password", 8, (unsigned char *)"salt", 4, 16, 8, 1, 32); on = 0; printf("%d dirty blocks\\n", bad); return bad != 0; }
''', W)
plant("c22-cleanse-size", "C22", [("src/mpi.c", '''  mpn_cleanse(z->limbs, z->alloc);
  mp_free_limbs(z->limbs);''', '''  mpn_cleanse(z->limbs, MP_ABS(z->size));
  mp_free_limbs(z->limbs);''')], "a secret variable whose last value is shorter than an earlier one", "the upper words of the earlier value stay readable in memory given back", H + '''
#include <torsion/mpi.h>
int main(void) { mpz_t x; int i; on = 1; for (i = 0; i < 64; i++) needle[i] = (unsigned char)(i * 37 + 11); mpz_init(x); mpz_import(x, needle, 64, -1); nneedle = 16; memmove(needle, needle + 32, 16); mpz_quo_2exp(x, x, 450); mpz_cleanse(x); printf("%d blocks with the secret\\n", bad); return bad != 0; }
''', W)
plant("c22-key-buffer", "C22", [("src/rsa.c", '''  cnd_memcpy(out, em + klen - out_len, out_len, ok);

  ret = 1;
fail:
  rsa_priv_clear(&k);

  torsion_memzero(&rng, sizeof(rng));
  torsion_memzero(blind, sizeof(blind));

  if (em != NULL) {
    torsion_memzero(em, klen);
''', '''  cnd_memcpy(out, em + klen - out_len, out_len, ok);

  ret = 1;
fail:
  rsa_priv_clear(&k);

  torsion_memzero(&rng, sizeof(rng));
  torsion_memzero(blind, sizeof(blind));

  if (em != NULL) {
    torsion_memzero(em, out_len);
''')], "decrypting a wrapped key shorter than half the modulus", "the wrapped key stays readable in memory given back", H + '''
#include <torsion/rsa.h>
int main(void) { unsigned char priv[RSA_MAX_PRIV_SIZE], pub[RSA_MAX_PUB_SIZE], ct[128], out[32], ent[32], m[32]; size_t a, b, c, i; for (i = 0; i < 32; i++) { ent[i] = (unsigned char)(i * 3); m[i] = (unsigned char)(i * 41 + 7); } if (!rsa_privkey_generate(priv, &a, 1024, 65537, ent) || !rsa_pubkey_create(pub, &b, priv, a) || !rsa_encrypt(ct, &c, m, 32, pub, b, ent)) return 2; memcpy(needle, m, 32); nneedle = 32; on = 1; if (!rsa_decrypt_key(out, 32, ct, c, priv, a, ent) || memcmp(out, m, 32)) return 2; on = 0; printf("%d blocks with the key\\n", bad); return bad != 0; }
''', W)
plant("c22-context-blind", "C22", [("src/ecc.c", '''edwards_curve_destroy(edwards_t *ec) {
  sc_cleanse(&ec->sc, ec->blind);
  xge_cleanse(ec, &ec->unblind);
''', '''edwards_curve_destroy(edwards_t *ec) {
  xge_cleanse(ec, &ec->unblind);
''')], "destroying a randomised Edwards curve context", "the blinding scalar stays readable in memory given back", H + '''
#include <torsion/ecc.h>
int main(void) { unsigned char ent[32], k[32]; int i; edwards_curve_t *r, *e; for (i = 0; i < 32; i++) ent[i] = (unsigned char)(i * 3 + 1); r = edwards_curve_create(EDWARDS_CURVE_ED25519); ristretto_privkey_generate(r, k, ent); eddsa_scalar_negate(r, k, k); memcpy(needle, k, 24); nneedle = 24; on = 1; e = edwards_curve_create(EDWARDS_CURVE_ED25519); edwards_curve_randomize(e, ent); edwards_curve_destroy(e); on = 0; printf("%d blocks with the scalar\\n", bad); return bad != 0; }
''', W)
