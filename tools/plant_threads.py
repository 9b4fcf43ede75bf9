#!/usr/bin/env python3
"""Planted thread bugs (C19, C02)."""
from plant import plant
# N threads repeat one computation; any result differing from the first, single-threaded one is a failure
H = '''#include <pthread.h>
#include <stdio.h>
#include <string.h>
#include <time.h>
#include <torsion/ecc.h>
#include <torsion/kdf.h>
#include <torsion/rand.h>
static volatile int bad; static time_t end; static unsigned char want[8][256];
static void work(int id, unsigned char *out);
static void *loop(void *a) { int id = (int)(size_t)a; unsigned char o[256]; while (!bad && time(NULL) < end) { memset(o, 0, 256); work(id, o); if (memcmp(o, want[id], 256)) bad = 1; } return NULL; }
static int race(int secs) { pthread_t t[4]; int i; for (i = 0; i < 4; i++) { memset(want[i], 0, 256); work(i, want[i]); } end = time(NULL) + secs; for (i = 0; i < 4; i++) pthread_create(&t[i], NULL, loop, (void *)(size_t)i); for (i = 0; i < 4; i++) pthread_join(t[i], NULL); printf(bad ? "a thread got a different result\\n" : "all results as computed alone\\n"); return bad; }
'''
E, K, R = "src/ecc.c", "src/kdf.c", "src/rand.c"
plant("c19-static-digits", "C19", [(E, '''  const xge_t *wnd1 = ec->wnd_naf;
  int naf1[MAX_SCALAR_BITS + 1]; /* 2088 bytes */
  int naf2[MAX_SCALAR_BITS + 1]; /* 2088 bytes */
  xge_t wnd2[NAF_SIZE]; /* 2304 bytes */
  mp_bits_t i, max, max1, max2;

  /* Compute NAFs. */
  max1 = sc_naf_var(sc, naf1, k1, NAF_WIDTH_PRE);
''', '''  const xge_t *wnd1 = ec->wnd_naf;
  static int naf1[MAX_SCALAR_BITS + 1]; /* 2088 bytes */
  static int naf2[MAX_SCALAR_BITS + 1]; /* 2088 bytes */
  xge_t wnd2[NAF_SIZE]; /* 2304 bytes */
  mp_bits_t i, max, max1, max2;

  /* Compute NAFs. */
  max1 = sc_naf_var(sc, naf1, k1, NAF_WIDTH_PRE);
''')], "two threads verifying Edwards signatures at the same time", "honest signatures are refused (the threads share the digit arrays)", H + '''
static edwards_curve_t *ec; static unsigned char sk[4][32], pk[4][32], sig[4][64];
static void work(int id, unsigned char *o) { o[0] = 1 + eddsa_verify_single(ec, sk[id], 32, sig[id], pk[id], -1, NULL, 0); o[1] = 1 + eddsa_verify(ec, sk[id], 32, sig[id], pk[id], -1, NULL, 0); }
int main(void) { int i; ec = edwards_curve_create(EDWARDS_CURVE_ED25519); for (i = 0; i < 4; i++) { memset(sk[i], i + 1, 32); eddsa_pubkey_create(ec, pk[i], sk[i]); eddsa_sign(ec, sig[i], sk[i], 32, sk[i], -1, NULL, 0); } return race(20); }
''')
plant("c19-tag-cache", "C19", [(E, '''  size_t block_size = hash_block_size(type);
  unsigned char bytes[HASH_MAX_BLOCK_SIZE / 2];

  if (hash_size != block_size / 2) {
    hash_init(hash, HASH_SHAKE256);
''', '''  size_t block_size = hash_block_size(type);
  unsigned char bytes[HASH_MAX_BLOCK_SIZE / 2];
  static const unsigned char *last = NULL;
  static hash_t state;

  if (last == tag && (hash_id_t)state.type == type) {
    *hash = state;
    return;
  }

  if (hash_size != block_size / 2) {
    hash_init(hash, HASH_SHAKE256);
'''), (E, '''  hash_init(hash, type);
  hash_update(hash, bytes, hash_size);
  hash_update(hash, bytes, hash_size);
}
''', '''  hash_init(hash, type);
  hash_update(hash, bytes, hash_size);
  hash_update(hash, bytes, hash_size);

  last = tag;
  state = *hash;
}
''')], "two threads signing or verifying Schnorr signatures of different kinds at the same time on a curve other than the 256-bit ones with a precomputed tag", "a tag's hash state is taken from the other thread: signatures differ from the ones made alone or are refused", H + '''
static wei_curve_t *ec; static unsigned char sk[4][48];
static void work(int id, unsigned char *o) { int i; for (i = 0; i < 4; i++) bip340_sign(ec, o, sk[id], 32, sk[id], sk[(id + i) & 3]); }
int main(void) { int i; ec = wei_curve_create(WEI_CURVE_P384); for (i = 0; i < 4; i++) memset(sk[i], i + 1, 48); return race(60); }
''')
plant("c19-static-state", "C19", [(K, '''  static const unsigned char ciphertext[] = BCRYPT_CIPHERTEXT256;
  uint32_t cdata[BCRYPT_BLOCKS256];
  blowfish_t state;
''', '''  static const unsigned char ciphertext[] = BCRYPT_CIPHERTEXT256;
  uint32_t cdata[BCRYPT_BLOCKS256];
  static blowfish_t state; /* 4168 bytes */
''')], "two threads deriving keys with bcrypt at the same time", "both derive wrong keys", H + '''
static void work(int id, unsigned char *o) { unsigned char s[16]; memset(s, id + 1, 16); bcrypt_pbkdf(o, s, 16, s, 16, 1, 64); }
int main(void) { return race(20); }
''')
plant("c19-context-write", "C19", [(E, '''  mp_bits_t i, j, b;
  sc_t k0;
  wge_t t;

  /* Blind if available. */
  sc_add(sc, k0, k, ec->blind);

  /* Multiply in constant time. */
  jge_set(ec, r, &ec->unblind);
''', '''  mp_bits_t i, j, b;
  mp_limb_t *k0 = ((wei_t *)ec)->blind;
  wge_t t;

  /* Blind if available. */
  sc_add(sc, k0, k, k0);

  /* Multiply in constant time. */
  jge_set(ec, r, &ec->unblind);
'''), (E, '''      wge_select(ec, &t, &t, &wnds[i * FIXED_SIZE + j], j == b);

    jge_mixed_add(ec, r, r, &t);
  }

  /* Cleanse. */
  sc_cleanse(sc, k0);

  cleanse(&b, sizeof(b));
}

static void
wei_mul_g(''', '''      wge_select(ec, &t, &t, &wnds[i * FIXED_SIZE + j], j == b);

    jge_mixed_add(ec, r, r, &t);
  }

  /* Restore. */
  sc_sub(sc, k0, k0, k);

  cleanse(&b, sizeof(b));
}

static void
wei_mul_g(''')], "two threads making keys or signatures with the same curve context at the same time", "the scalar is borrowed from the shared context during the multiplication, so the other thread's result is wrong", H + '''
static wei_curve_t *ec;
static void work(int id, unsigned char *o) { unsigned char k[32]; size_t n; memset(k, id + 1, 32); ecdsa_pubkey_create(ec, o, &n, k, 1); }
int main(void) { ec = wei_curve_create(WEI_CURVE_SECP256K1); return race(20); }
''')
plant("c02-unlocked-fill", "C02", [(R, '''  rng_generate(&rng_state, dst, size);
  rng_global_unlock();

  return 1;
}
''', '''  if (size > 4096) {
    rng_global_unlock();
    rng_generate(&rng_state, dst, size);
    return 1;
  }

  rng_generate(&rng_state, dst, size);
  rng_global_unlock();

  return 1;
}
''')], "the mutex-protected build, two threads asking for random bytes at the same time, one of them for more than 4096", "both are given the same bytes", None, demo_sh='''#!/bin/bash
# Run in the repository root after the build. Exit 0: behaves; nonzero: broken.
set -u
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -r "${t:?}"' EXIT
gcc -O1 -w -DTORSION_HAVE_CONFIG -DTORSION_HAVE_RNG -DTORSION_HAVE_PTHREAD -DTORSION_HAVE_FORK -DTORSION_HAVE_CLOCK_GETTIME -DTORSION_HAVE_GETTIMEOFDAY -I include -I src "$here/demo.c" src/rand.c src/entropy/hw.c src/entropy/sys.c src/hash.c src/stream.c src/util.c src/internal.c -lpthread -o "$t/demo" || exit 3
timeout 250 "$t/demo"
''')
open("../seeded/c02-unlocked-fill/demo.c", "w").write('''#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <torsion/rand.h>
/* four threads collect random bytes; no eight of them may turn up twice */
enum { ROUNDS = 4000, BLOCK = 4104 };
static unsigned long long *got[4]; static pthread_barrier_t bar;
static void *loop(void *a) { int id = (int)(size_t)a, i; unsigned char *b = malloc(BLOCK); for (i = 0; i < ROUNDS; i++) { if (i % 50 == 0) pthread_barrier_wait(&bar); if (!torsion_getrandom(b, BLOCK)) exit(3); memcpy(&got[id][2 * i], b, 8); memcpy(&got[id][2 * i + 1], b + 2048, 8); } free(b); return NULL; }
static int cmp(const void *x, const void *y) { unsigned long long a = *(const unsigned long long *)x, b = *(const unsigned long long *)y; return a < b ? -1 : a > b; }
int main(void) { time_t end = time(NULL) + 60; int i, j; do { pthread_t t[4]; unsigned long long *all = malloc(4 * ROUNDS * 2 * 8); pthread_barrier_init(&bar, NULL, 4); for (i = 0; i < 4; i++) { got[i] = all + i * ROUNDS * 2; pthread_create(&t[i], NULL, loop, (void *)(size_t)i); } for (i = 0; i < 4; i++) pthread_join(t[i], NULL); qsort(all, 4 * ROUNDS * 2, 8, cmp); for (j = 1; j < 4 * ROUNDS * 2; j++) if (all[j] == all[j - 1]) { printf("the same random bytes were handed out twice\\n"); return 1; } free(all); pthread_barrier_destroy(&bar); } while (time(NULL) < end); printf("no repetition\\n"); return 0; }
''')
