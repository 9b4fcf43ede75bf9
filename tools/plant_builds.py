#!/usr/bin/env python3
"""Planted bugs that show only in some build configurations (C20)."""
from plant import plant
PRE = '''#!/bin/bash
# Run in the repository root after the build. Exit 0: behaves; nonzero: broken.
set -u
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -r "${t:?}"' EXIT
'''
# the same program against a build with and one without assembly and wide integers
TWO = PRE + '''gcc -O1 -w -I include "$here/demo.c" _build/release/libtorsion.a -lpthread -o "$t/a" || exit 3
gcc -O1 -w -I include "$here/demo.c" _build/portable/libtorsion.a -lpthread -o "$t/b" || exit 3
timeout 100 "$t/a" > "$t/a.txt" || exit 3
timeout 100 "$t/b" > "$t/b.txt" || exit 4
diff "$t/a.txt" "$t/b.txt"
'''
# ... and against one with 32-bit words
NARROW = PRE + '''gcc -O1 -w -I include "$here/demo.c" _build/release/libtorsion.a -lpthread -o "$t/a" || exit 3
printf '#include <stdint.h>\\n#undef UINTPTR_MAX\\n#define UINTPTR_MAX 4294967295U\\n' > "$t/narrow.h"
gcc -O1 -w -include "$t/narrow.h" -I include "$here/demo.c" src/mpi.c src/rsa.c src/asn1.c src/drbg.c src/hash.c src/mac.c src/util.c src/internal.c src/kdf.c src/cipher.c src/stream.c src/encoding.c -o "$t/b" || exit 3
timeout 100 "$t/a" > "$t/a.txt" || exit 3
timeout 100 "$t/b" > "$t/b.txt" || exit 4
diff "$t/a.txt" "$t/b.txt"
'''
M, A, R = "src/mpi.c", "src/mac.c", "src/rsa.c"
plant("c20-sip-carry", "C20", [(A, '''  return axbhi + (axbmid >> 32) + (bxamid >> 32) + (c >> 32);
''', '''  return axbhi + (axbmid >> 32) + (bxamid >> 32) + (c > 0xffffffff);
''')], "a build without 128-bit integers and a product whose middle words carry twice", "keyed hashes reduced to a range differ by one between builds", '''#include <stdio.h>
#include <torsion/mac.h>
int main(void) { unsigned char k[16] = {1}, m[8]; int i; for (i = 0; i < 8; i++) m[i] = 0; for (i = 0; i < 200; i++) { m[0] = i; printf("%llu\\n", (unsigned long long)siphash_mod(m, 8, k, 0xfedcba98fffffff1ull - i)); } return 0; }
''', demo_sh=TWO)
plant("c20-exp-half", "C20", [(R, '''  mpz_limbs_finish(k->e, 2);
''', '''  mpz_limbs_finish(k->e, 1);
''')], "a build with 32-bit words and a public exponent wider than a word", "the key is generated for a different, truncated exponent", '''#include <stdio.h>
#include <string.h>
#include <torsion/rsa.h>
int main(void) { unsigned char e[32], k[RSA_MAX_PRIV_SIZE], p[RSA_MAX_PUB_SIZE]; size_t n, m, i; memset(e, 5, 32); if (!rsa_privkey_generate(k, &n, 768, 0x1ffffffffull, e) || !rsa_pubkey_create(p, &m, k, n)) return 1; for (i = m - 7; i < m; i++) printf("%02x", p[i]); puts(""); return 0; }
''', demo_sh=NARROW)
plant("c20-prime-bit", "C20", [(M, "MP_LIMB_C(0x20a00a08), MP_LIMB_C(0x80282088),", "MP_LIMB_C(0x20a00a08), MP_LIMB_C(0x80280088),")], "a build with 32-bit words deciding whether one particular small prime is prime", "that build calls 173 composite", '''#include <stdio.h>
#include <string.h>
#include <torsion/mpi.h>
static void rng(void *o, size_t n, void *a) { memset(o, 0x5a, n); }
int main(void) { mpz_t x; int i; mpz_init(x); for (i = 0; i < 2000; i++) { mpz_set_ui(x, i); putchar('0' + mpz_probab_prime_p(x, 5, rng, NULL)); } puts(""); return 0; }
''', demo_sh=NARROW)
plant("c20-poly-reduce", "C20", [(A, '''  g0 = h0 + 5;
  c = g0 >> 26;
  g0 &= 0x3ffffff;

  g1 = h1 + c;
  c = g1 >> 26;
  g1 &= 0x3ffffff;
''', '''  g0 = h0 + 5;
  c = g0 >> 26;
  g0 &= 0x3ffffff;

  g1 = h1 + c;
  c = g1 >> 26;
''')], "a build without 128-bit integers and a message whose accumulator ends between the modulus and the next power of two", "the tag of that message is wrong, so peers of other builds refuse it", '''#include <stdio.h>
#include <string.h>
#include <torsion/mac.h>
int main(void) { unsigned char k[32], m[16], t[16]; poly1305_t c; int i, j; for (i = 0; i < 6; i++) { memset(k, 0, 32); k[0] = 1; k[16] = 7; memset(m, 0xff, 16); m[0] = 0xfa + i; poly1305_init(&c, k);
  /* r = 1: the accumulator is the sum of the blocks */
  { unsigned char z[16]; memset(z, 0, 16); poly1305_update(&c, z, 16); poly1305_update(&c, z, 16); } poly1305_update(&c, m, 16); poly1305_final(&c, t); for (j = 0; j < 16; j++) printf("%02x", t[j]); puts(""); } return 0; }
''', demo_sh=TWO)
