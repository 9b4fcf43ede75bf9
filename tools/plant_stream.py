import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import plant
S = "src/stream.c"
plant("c11-counter-carry", "C11", [(S, "  ctx->state[12] += 1;\n  ctx->state[13] += (ctx->state[12] < 1);\n", "  ctx->state[12]++;\n")],
 "a stream whose block counter passes 2^32", "the ChaCha20 keystream repeats after the low counter word wraps",
 r'''
#include <stdio.h>
#include <string.h>
#include <torsion/stream.h>
int main(void) {
  unsigned char k[32] = {1}, n[8] = {2}, z[128] = {0}, a[128], b[64]; chacha20_t c;
  chacha20_init(&c, k, 32, n, 8, 0xffffffffu); chacha20_crypt(&c, a, z, 128);
  chacha20_init(&c, k, 32, n, 8, (uint64_t)1 << 32); chacha20_crypt(&c, b, z, 64);
  if (memcmp(a + 64, b, 64)) { puts("block 2^32 differs"); return 1; }
  return 0;
}
''')
plant("c11-short-key-xnonce", "C11", [(S, "    salsa20_derive(tmp, key, key_len, nonce);\n    key = tmp;\n    key_len = 32;\n", "    salsa20_derive(tmp, key, key_len, nonce);\n    key = tmp;\n")],
 "a 128-bit key together with an extended nonce", "XSalsa20 under a 128-bit key uses only half of the derived key",
 r'''
#include <stdio.h>
#include <string.h>
#include <torsion/stream.h>
int main(void) {
  unsigned char k[16] = {1}, n[24] = {2}, z[64] = {0}, a[64], b[64], sub[32]; salsa20_t c;
  salsa20_init(&c, k, 16, n, 24, 0); salsa20_crypt(&c, a, z, 64);
  salsa20_derive(sub, k, 16, n); salsa20_init(&c, sub, 32, n + 16, 8, 0); salsa20_crypt(&c, b, z, 64);
  if (memcmp(a, b, 64)) { puts("extended nonce differs from its definition"); return 1; }
  return 0;
}
''')
plant("c11-rc4-unrolled", "C11", [(S, "  for (k = 0; k < len; k++) {\n    i = (i + 1) & 0xff;\n", "  if (len > 0x10000)\n    ctx->j = 0;\n\n  for (k = 0; k < len; k++) {\n    i = (i + 1) & 0xff;\n"), (S, "  ctx->i = i;\n  ctx->j = j;\n", "  ctx->i = i;\n\n  if (k > 0 && ctx->j != j)\n    ctx->j = j;\n\n  if (k == 0 && i == 0)\n    ctx->j = 0;\n")],
 "an empty call exactly when the stream stands at a multiple of 256 bytes", "an empty RC4 call at certain positions disturbs the stream",
 r'''
#include <stdio.h>
#include <string.h>
#include <torsion/stream.h>
int main(void) {
  unsigned char k[16] = {1}, z[300] = {0}, a[300], b[300]; arc4_t c;
  arc4_init(&c, k, 16); arc4_crypt(&c, a, z, 300);
  arc4_init(&c, k, 16); arc4_crypt(&c, b, z, 256); arc4_crypt(&c, b + 256, z, 0); arc4_crypt(&c, b + 256, z, 44);
  if (memcmp(a, b, 300)) { puts("stream disturbed by an empty call"); return 1; }
  return 0;
}
''')
