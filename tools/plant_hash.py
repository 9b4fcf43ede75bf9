import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import plant
D = "src/drbg.c"; H = "src/hash.c"
plant("c07-ctr-carry", "C07", [(D, "  increment_be(drbg->state, drbg->blk_size);\n", "  increment_be(drbg->state + drbg->blk_size - 4, 4);\n")],
 "a counter whose low 32 bits are about to wrap", "the counter generator leaves the standard when its counter carries past 32 bits",
 r'''
#include <stdio.h>
#include <string.h>
#include <torsion/drbg.h>
#include <torsion/cipher.h>
int main(void) {
  /* K=0, V=0: pad is AES(1), AES(2), AES(3); choose the seed so that K=0 and V=ff..ff */
  unsigned char seed[32], z[16] = {0}, b[16], out[32], want[32]; aes_t a; int i;
  aes_init_encrypt(&a, 128, z);
  for (i = 0; i < 2; i++) { memset(b, 0, 16); b[15] = i + 1; aes_encrypt(&a, seed + 16 * i, b); }
  for (i = 16; i < 32; i++) seed[i] ^= i == 31 ? 0xfe : 0xff;
  ctr_drbg_t d; ctr_drbg_init(&d, 128, 0, seed, 32, NULL, 0);
  ctr_drbg_generate(&d, out, 32, NULL, 0);
  memset(b, 0xff, 16); aes_encrypt(&a, want, b); memset(b, 0, 16); aes_encrypt(&a, want + 16, b);
  if (memcmp(out, want, 32)) { puts("wrong output after counter carry"); return 1; }
  return 0;
}
''')
plant("c07-reseed-counter", "C07", [(D, "    hash_update(&drbg->hash, drbg->V, length);\n    hash_final(&drbg->hash, output + i * size, size);\n\n    state[0] += 1;\n  }\n\n  memcpy(drbg->C, output, length);\n\n  drbg->rounds = 1;\n}\n\nstatic void\naccumulate(",
  "    hash_update(&drbg->hash, drbg->V, length);\n    hash_final(&drbg->hash, output + i * size, size);\n\n    state[0] += 1;\n  }\n\n  memcpy(drbg->C, output, length);\n}\n\nstatic void\naccumulate(")],
 "a reseed after at least one request, then two requests", "the hash generator keeps its request counter across a reseed",
 r'''
#include <stdio.h>
#include <string.h>
#include <torsion/drbg.h>
#include <torsion/hash.h>
static unsigned char V[55], C[55];
static void df(unsigned char *o, const unsigned char *in, size_t n) {
  unsigned char t[64]; for (int c = 1; c <= 2; c++) { unsigned char p[5] = {c, 0, 0, 1, 0xb8}; sha256_t h; sha256_init(&h); sha256_update(&h, p, 5); sha256_update(&h, in, n); sha256_final(&h, t + 32 * (c - 1)); }
  memcpy(o, t, 55);
}
static void add(const unsigned char *x, int n) { unsigned c = 0; for (int i = 0; i < 55; i++) { c += V[54 - i] + (i < n ? x[n - 1 - i] : 0); V[54 - i] = c; c >>= 8; } }
static void upd(int ctr) { unsigned char b[56], h[32], L[8] = {0}; b[0] = 3; memcpy(b + 1, V, 55); sha256_t s; sha256_init(&s); sha256_update(&s, b, 56); sha256_final(&s, h); L[7] = ctr; add(h, 32); add(C, 55); add(L, 8); }
int main(void) {
  unsigned char seed[40] = {1, 2, 3}, t[128], o[32], w[32]; hash_drbg_t d; sha256_t s;
  hash_drbg_init(&d, HASH_SHA256, seed, 40); df(V, seed, 40); t[0] = 0; memcpy(t + 1, V, 55); df(C, t, 56);
  hash_drbg_generate(&d, o, 32, NULL, 0); upd(1);
  hash_drbg_reseed(&d, seed, 40); t[0] = 1; memcpy(t + 1, V, 55); memcpy(t + 56, seed, 40); df(V, t, 96); t[0] = 0; memcpy(t + 1, V, 55); df(C, t, 56);
  hash_drbg_generate(&d, o, 32, NULL, 0); upd(1);
  hash_drbg_generate(&d, o, 32, NULL, 0); sha256_init(&s); sha256_update(&s, V, 55); sha256_final(&s, w);
  if (memcmp(o, w, 32)) { puts("wrong output after reseed"); return 1; }
  return 0;
}
''')
plant("c07-empty-request", "C07", [(D, "  hmac_t kmac;\n\n  if (add_len > 0)\n    hmac_drbg_update(drbg, add, add_len);\n", "  hmac_t kmac;\n\n  if (len == 0 && add_len == 0)\n    return;\n\n  if (add_len > 0)\n    hmac_drbg_update(drbg, add, add_len);\n")],
 "an empty request between two others", "an empty request no longer advances the generator as the standard says",
 r'''
#include <stdio.h>
#include <string.h>
#include <torsion/drbg.h>
int main(void) {
  unsigned char a[32], b[32], s[32] = {7}; hmac_drbg_t d, e;
  hmac_drbg_init(&d, HASH_SHA256, s, 32); hmac_drbg_init(&e, HASH_SHA256, s, 32);
  hmac_drbg_generate(&d, a, 0, NULL, 0); hmac_drbg_generate(&d, a, 32, NULL, 0);
  hmac_drbg_generate(&e, b, 32, NULL, 0);
  if (!memcmp(a, b, 32)) { puts("empty request did not advance"); return 1; }
  return 0;
}
''')
plant("c08-blake2s-carry", "C08", [(H, "  ctx->t[0] += c;\n  ctx->t[1] += (ctx->t[0] < c);\n}\n\nstatic void\nblake2s_compress", "  ctx->t[0] += c;\n}\n\nstatic void\nblake2s_compress")],
 "a message longer than 4 GiB fed piecewise", "BLAKE2s of long streams",
 r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <torsion/hash.h>
int main(void) {
  /* digest of 2^32 + 3 zero bytes, by b2sum-compatible reference */
  static unsigned char z[1 << 20]; unsigned char o[32], w[32]; blake2s_t c; int i;
  blake2s_init(&c, 32, NULL, 0);
  for (i = 0; i < 4096; i++) blake2s_update(&c, z, sizeof z);
  blake2s_update(&c, z, 3); blake2s_final(&c, o);
  FILE *f = popen("python3 -c \"\nimport hashlib\nh=hashlib.blake2s()\nz=bytes(1<<20)\nfor i in range(4096): h.update(z)\nh.update(z[:3])\nprint(h.hexdigest())\"", "r");
  for (i = 0; i < 32; i++) { unsigned x; if (fscanf(f, "%2x", &x) != 1) return 3; w[i] = x; }
  pclose(f);
  if (memcmp(o, w, 32)) { puts("wrong digest"); return 1; }
  return 0;
}
''')
plant("c08-sha256-size32", "C08", [(H, "  write64be(ctx->block + 56, ctx->size << 3);\n\n  sha256_transform(ctx, ctx->block);", "  write64be(ctx->block + 56, (uint32_t)ctx->size << 3);\n\n  sha256_transform(ctx, ctx->block);")],
 "a message of 512 MiB or more", "SHA-256 of long streams",
 r'''
#include <stdio.h>
#include <string.h>
#include <torsion/hash.h>
int main(void) {
  static unsigned char z[1 << 20]; unsigned char o[32], w[32]; sha256_t c; int i;
  sha256_init(&c);
  for (i = 0; i < 512; i++) sha256_update(&c, z, sizeof z);
  sha256_final(&c, o);
  FILE *f = popen("python3 -c \"\nimport hashlib\nprint(hashlib.sha256(bytes(1<<29)).hexdigest())\"", "r");
  for (i = 0; i < 32; i++) { unsigned x; if (fscanf(f, "%2x", &x) != 1) return 3; w[i] = x; }
  pclose(f);
  if (memcmp(o, w, 32)) { puts("wrong digest"); return 1; }
  return 0;
}
''')
plant("c08-poly-final-carry", "C08", [("src/mac.c", "  g1 = h1 + c;\n  c = g1 >> 44;\n  g1 &= UINT64_C(0xfffffffffff);\n  g2 = h2 + c - (UINT64_C(1) << 42);", "  g1 = h1 + c;\n  c = g1 >> 44;\n  g1 &= UINT64_C(0xfffffffffff);\n  g2 = (h2 + c - (UINT64_C(1) << 42)) | (~h0 << 63);")],
 "an accumulator that ends in the few values between the modulus and 2^130, the even ones of them", "Poly1305 of rare accumulator values",
 r'''
#include <stdio.h>
#include <string.h>
#include <torsion/mac.h>
int main(void) {
  /* r = 1: three blocks sum to (2^130-5)+v for v in 0..4 */
  unsigned char k[32] = {1}, b[48], o[16], w[16]; poly1305_t c; int v;
  for (v = 0; v < 5; v++) {
    /* two blocks: 2*2^128 + x + y with x + y = 2^129 - 5 + v */
    memset(b, 0xff, 32); b[0] = 0xff; b[16] = 0xff - 3 + v;
    if (v > 3) continue;
    poly1305_init(&c, k); poly1305_update(&c, b, 32); poly1305_final(&c, o);
    memset(w, 0, 16); w[0] = v;
    if (memcmp(o, w, 16)) { puts("wrong tag"); return 1; }
  }
  return 0;
}
''')
