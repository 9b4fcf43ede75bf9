#!/usr/bin/env python3
"""Planted out-of-memory bugs (C18)."""
from plant import plant
B = 'gcc -O1 -w -I include "$here/demo.c" _build/release/libtorsion.a -lpthread -Wl,--wrap=malloc -Wl,--wrap=free -Wl,--wrap=realloc -o "$t/demo"'
H = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <torsion/rsa.h>
#include <torsion/kdf.h>
#include <torsion/mpi.h>
#include <torsion/encoding.h>
static long live, count, fail_at = -1;
void *__real_malloc(size_t); void __real_free(void *); void *__real_realloc(void *, size_t);
static int no(void) { return count++ == fail_at; }
void *__wrap_malloc(size_t n) { void *p; if (no()) return NULL; p = __real_malloc(n); if (p) live++; return p; }
void *__wrap_realloc(void *q, size_t n) { void *p; if (no()) return NULL; p = __real_realloc(q, n); if (!q && p) live++; return p; }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
/* the number of allocations an operation makes */
#define COUNT(n, op) do { count = 0; fail_at = -1; op; n = count; } while (0)
#define RUN_IN_CHILD(k, st, body) do { int pid_ = (fflush(stdout), fork()); if (pid_ == 0) { int r_ = 0; close(2); count = 0; fail_at = (k); body; _exit(r_); } waitpid(pid_, &st, 0); } while (0)
#include <unistd.h>
#include <sys/wait.h>
static unsigned char priv[RSA_MAX_PRIV_SIZE], pub[RSA_MAX_PUB_SIZE], ent[32], msg[32], sig[512], out[512]; static size_t np, nq, ns, no_;
static int keys(void) { memset(ent, 7, 32); memset(msg, 9, 32); return rsa_privkey_generate(priv, &np, 768, 65537, ent) && rsa_pubkey_create(pub, &nq, priv, np); }
'''
R, K, M, E = "src/rsa.c", "src/kdf.c", "src/mpi.c", "src/encoding.c"
plant("c18-pss-nosalt", "C18", [(R, '''    salt = (unsigned char *)malloc(salt_len);

    if (salt == NULL)
      goto fail;
  }
''', '''    salt = (unsigned char *)malloc(salt_len);

    if (salt == NULL)
      salt_len = 0;
  }
''')], "the allocation of the salt failing while a PSS signature is made", "signing reports success with a signature of another salt length, which the verifier refuses", H + '''
int main(void) { long n, k; int st, bad = 0; if (!keys()) return 2; COUNT(n, rsa_sign_pss(sig, &ns, HASH_SHA256, msg, 32, priv, np, 20, ent));
  for (k = 0; k < n; k++) { RUN_IN_CHILD(k, st, r_ = rsa_sign_pss(sig, &ns, HASH_SHA256, msg, 32, priv, np, 20, ent) && (fail_at = -1, !rsa_verify_pss(HASH_SHA256, msg, 32, sig, ns, pub, nq, 20)) ? 9 : 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 9) bad++; }
  printf("%ld allocations, %d wrong signatures reported as made\\n", n, bad); return bad != 0; }
''', build=B)
plant("c18-scrypt-partial", "C18", [(K, '''fail:
  if (B != NULL) {
    torsion_memzero(B, 128 * R * P);
    free(B);
  }

  if (XY != NULL) {
    torsion_memzero(XY, 256 * R);
    free(XY);
  }

  if (V != NULL) {
    torsion_memzero(V, 128 * R * N);
    free(V);
  }
''', '''fail:
  if (V != NULL) {
    torsion_memzero(V, 128 * R * N);
    free(V);

    if (B != NULL) {
      torsion_memzero(B, 128 * R * P);
      free(B);
    }

    if (XY != NULL) {
      torsion_memzero(XY, 256 * R);
      free(XY);
    }
  }
''')], "the largest of the three allocations failing while the two smaller ones succeed", "two blocks leak on every failed derivation", H + '''
int main(void) { long before = live; int r; count = 0; fail_at = 2; r = scrypt_derive(out, msg, 32, ent, 32, 1024, 8, 1, 32); printf("returned %d, %ld blocks still held\\n", r, live - before); return live != before; }
''', build=B)
plant("c18-verify-error", "C18", [(R, '''  if (klen < tlen + 11)
    goto fail;

  em = (unsigned char *)malloc(klen);

  if (em == NULL)
    goto fail;

  if (!rsa_pub_encrypt(&k, em, sig, sig_len))
    goto fail;

  /* EM = 0x00 || 0x01 || PS || 0x00 || T */
''', '''  if (klen < tlen + 11)
    goto fail;

  em = (unsigned char *)malloc(klen);

  if (em == NULL) {
    ret = -1;
    goto fail;
  }

  if (!rsa_pub_encrypt(&k, em, sig, sig_len))
    goto fail;

  /* EM = 0x00 || 0x01 || PS || 0x00 || T */
''')], "the allocation of the decoded message failing while a signature is verified", "a caller that tests the result for truth accepts a forged signature", H + '''
int main(void) { long n, k; int st, bad = 0; if (!keys()) return 2; memset(sig, 0x11, 96); COUNT(n, rsa_verify(HASH_SHA256, msg, 32, sig, 96, pub, nq));
  for (k = 0; k < n; k++) { RUN_IN_CHILD(k, st, if (rsa_verify(HASH_SHA256, msg, 32, sig, 96, pub, nq)) r_ = 9); if (WIFEXITED(st) && WEXITSTATUS(st) == 9) bad++; }
  printf("%ld allocations, forged signature accepted in %d cases\\n", n, bad); return bad != 0; }
''', build=B)
plant("c18-key-implicit", "C18", [(R, '''  em = (unsigned char *)malloc(klen);

  if (em == NULL)
    goto fail;

  drbg_generate(&rng, blind, ENTROPY_SIZE);
''', '''  em = (unsigned char *)malloc(klen);

  if (em == NULL) {
    drbg_generate(&rng, out, out_len);
    ret = 1;
    goto fail;
  }

  drbg_generate(&rng, blind, ENTROPY_SIZE);
''')], "the allocation of the work buffer failing while a session key is decrypted", "a well-formed ciphertext decrypts to an unrelated key with success reported", H + '''
int main(void) { long n, k; int st, bad = 0; unsigned char c[512]; size_t nc; if (!keys() || !rsa_encrypt(c, &nc, msg, 32, pub, nq, ent)) return 2; COUNT(n, rsa_decrypt_key(out, 32, c, nc, priv, np, ent)); if (memcmp(out, msg, 32)) return 2;
  for (k = 0; k < n; k++) { RUN_IN_CHILD(k, st, if (rsa_decrypt_key(out, 32, c, nc, priv, np, ent) && memcmp(out, msg, 32)) r_ = 9); if (WIFEXITED(st) && WEXITSTATUS(st) == 9) bad++; }
  printf("%ld allocations, wrong key returned in %d cases\\n", n, bad); return bad != 0; }
''', build=B)
plant("c18-pss-early", "C18", [(R, '''  if (salt_len > klen)
    goto fail;

  em = (unsigned char *)malloc(klen);

  if (em == NULL)
    goto fail;
''', '''  if (salt_len > klen)
    goto fail;

  em = (unsigned char *)malloc(klen);

  if (em == NULL)
    return 0;
''')], "the work buffer of a PSS verification not being available", "the integers of the imported key leak", H + '''
int main(void) { long n, k, bad = 0; int st; if (!keys() || !rsa_sign_pss(sig, &ns, HASH_SHA256, msg, 32, priv, np, 20, ent)) return 2; COUNT(n, rsa_verify_pss(HASH_SHA256, msg, 32, sig, ns, pub, nq, 20));
  for (k = 0; k < n; k++) { RUN_IN_CHILD(k, st, { long b = live; rsa_verify_pss(HASH_SHA256, msg, 32, sig, ns, pub, nq, 20); r_ = live != b ? 9 : 0; }); if (WIFEXITED(st) && WEXITSTATUS(st) == 9) bad++; }
  printf("%ld allocations, leaks in %ld cases\\n", n, bad); return bad != 0; }
''', build=B)
