import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import plant
C = "src/cipher.c"
H = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <torsion/cipher.h>
'''
plant("c09-unpad-prefix", "C09", [(C, "    res &= ((i - end) >> 31) | (((ch ^ left) - 1) >> 31);\n", "    res &= ((i - end - 1) >> 31) | (((ch ^ left) - 1) >> 31);\n")],
 "ciphertext whose padding is wrong only in its first byte", "malformed padding is accepted: the first padding byte is not compared",
 H + r'''
int main(void) {
  unsigned char k[16] = {1}, iv[16] = {2}, p[32], c[64], d[64]; size_t n, m; cipher_stream_t s;
  memset(p, 7, 32); memset(p + 26, 6, 6); p[26] = 5;
  cipher_stream_init(&s, CIPHER_AES128, CIPHER_MODE_CBC, 1, k, 16, iv, 16); cipher_stream_set_padding(&s, 0); cipher_stream_update(&s, c, &n, p, 32); cipher_stream_final(&s, c + n, &m);
  if (cipher_static_decrypt(d, &m, CIPHER_AES128, CIPHER_MODE_CBC, k, 16, iv, 16, c, 32)) { puts("malformed padding accepted"); return 1; }
  memset(p + 26, 6, 6); cipher_stream_init(&s, CIPHER_AES128, CIPHER_MODE_CBC, 1, k, 16, iv, 16); cipher_stream_set_padding(&s, 0); cipher_stream_update(&s, c, &n, p, 32); cipher_stream_final(&s, c + n, &m);
  return cipher_static_decrypt(d, &m, CIPHER_AES128, CIPHER_MODE_CBC, k, 16, iv, 16, c, 32) == 1 && m == 26 ? 0 : 2;
}
''')
plant("c09-xts-late-tweak", "C09", [(C, "  /* We could ask for the last ciphertext\n", "  if (len > 12)\n    len = (len + 1) - 1 - (mode->tweak[0] == mode->prev[15]);\n\n  /* We could ask for the last ciphertext\n")],
 "XTS decryption with a partial last block of 13 to 15 bytes and one particular relation of tweak bytes", "one byte of the stolen block is not restored in one of 256 sectors",
 H + r'''
int main(void) {
  unsigned char k[32], iv[16] = {0}, p[31], c[64], d[64]; size_t n, m; int i;
  for (i = 0; i < 32; i++) k[i] = (unsigned char)(i * 7); for (i = 0; i < 31; i++) p[i] = (unsigned char)i;
  for (i = 0; i < 20000; i++) {
    iv[0] = (unsigned char)i; iv[1] = (unsigned char)(i >> 8);
    if (!cipher_static_encrypt(c, &n, CIPHER_AES128, CIPHER_MODE_XTS, k, 32, iv, 16, p, 31) || n != 31) return 2;
    if (!cipher_static_decrypt(d, &m, CIPHER_AES128, CIPHER_MODE_XTS, k, 32, iv, 16, c, n) || m != 31 || memcmp(d, p, 31)) { printf("sector %d does not decrypt to what was encrypted\n", i); return 1; }
  }
  return 0;
}
''')
plant("c09-ctr-carry64", "C09", [(C, "  increment_be_var(mode->iv, cipher->size);\n", "  increment_be_var(mode->iv + cipher->size - 8, 8);\n")],
 "a counter that starts just below a multiple of 2^64, with a cipher of 16-byte blocks", "the counter does not carry into its upper half, so keystream differs from the definition",
 H + r'''
int main(void) {
  unsigned char k[16] = {1}, iv[16] = {2}, z[32] = {0}, a[32], e[16]; size_t n; cipher_stream_t s; cipher_t c;
  memset(iv + 8, 0xff, 8);
  cipher_stream_init(&s, CIPHER_AES128, CIPHER_MODE_CTR, 1, k, 16, iv, 16); cipher_stream_update(&s, a, &n, z, 32);
  memset(iv + 8, 0, 8); iv[7]++; cipher_init(&c, CIPHER_AES128, k, 16); cipher_encrypt(&c, e, iv);
  if (memcmp(a + 16, e, 16)) { puts("second block is not the encryption of the next counter"); return 1; }
  return 0;
}
''')
plant("c10-gcm-counter", "C10", [(C, "  increment_be(ctr->iv + 12, 4);\n", "  increment_be(ctr->iv, 16);\n")],
 "a nonce whose derived initial counter is near 2^32", "the GCM counter carries out of its 32 bits, so the ciphertext differs from the standard",
 H + r'''
static void dbl(unsigned char *y) { int i, c = y[15] & 1; for (i = 15; i > 0; i--) y[i] = (unsigned char)(y[i] >> 1 | y[i - 1] << 7); y[0] >>= 1; if (c) y[0] ^= 0xe1; }
static void mul(unsigned char *r, const unsigned char *x, const unsigned char *y0) { unsigned char z[16] = {0}, y[16]; int i, j; memcpy(y, y0, 16); for (i = 0; i < 128; i++) { if (x[i / 8] >> (7 - i % 8) & 1) for (j = 0; j < 16; j++) z[j] ^= y[j]; dbl(y); } memcpy(r, z, 16); }
int main(void) {
  /* pick the nonce that makes the initial counter ...ffffffff, then compare with the cipher itself */
  unsigned char k[16] = {9}, h[16] = {0}, inv[16], b[16], j[16], iv[16], z[32] = {0}, c[32], e[16], ctr[16]; cipher_t ci; int i; size_t n; cipher_stream_t s;
  cipher_init(&ci, CIPHER_AES128, k, 16); cipher_encrypt(&ci, h, h);
  memset(inv, 0, 16); inv[0] = 0x80; memcpy(b, h, 16); for (i = 0; i < 127; i++) { mul(b, b, b); mul(inv, inv, b); }
  memset(j, 0x11, 16); memset(j + 12, 0xff, 4);
  mul(iv, j, inv); iv[15] ^= 128; mul(iv, iv, inv);
  cipher_stream_init(&s, CIPHER_AES128, CIPHER_MODE_GCM, 1, k, 16, iv, 16); cipher_stream_update(&s, c, &n, z, 32);
  memcpy(ctr, j, 16); memset(ctr + 12, 0, 4); cipher_encrypt(&ci, e, ctr);
  if (memcmp(c, e, 16)) { puts("first block after the 32-bit counter wraps differs from the standard"); return 1; }
  return 0;
}
''')
plant("c10-no-tag", "C10", [(C, "  if (tag_len == 0 || tag_len > CIPHER_MAX_TAG_SIZE)\n    return 0;\n\n  /* Defensive memset. */\n", "  if (tag_len > CIPHER_MAX_TAG_SIZE)\n    return 0;\n\n  /* Defensive memset. */\n")],
 "a receiver that is never given a tag", "decryption without a tag is reported as authentic",
 H + r'''
int main(void) {
  unsigned char k[16] = {9}, iv[12] = {1}, x[20] = {5}, o[20]; size_t n; cipher_stream_t s;
  cipher_stream_init(&s, CIPHER_AES128, CIPHER_MODE_GCM, 0, k, 16, iv, 12); cipher_stream_update(&s, o, &n, x, 20);
  if (cipher_stream_final(&s, o, &n)) { puts("unauthenticated data accepted"); return 1; }
  return 0;
}
''')
plant("c10-ccm-aad-boundary", "C10", [(C, "    if (aad_len < 0xff00) {\n", "    if (aad_len <= 0xff00) {\n")],
 "associated data of exactly 65280 bytes", "the length encoding is wrong at the boundary: the tag differs from the standard and other associated data can collide",
 H + r'''
int main(void) {
  /* 65280 bytes of associated data a must not have the tag of the standard's encoding of a different string */
  static unsigned char a[65280], blk[16 + 6 + 65280 + 16]; unsigned char k[16] = {9}, iv[13] = {1}, tag[16], x[16] = {0}, s0[16] = {0}; size_t n, i, len = 0, j; cipher_stream_t s; cipher_t ci;
  for (i = 0; i < sizeof a; i++) a[i] = (unsigned char)(i * 13);
  cipher_stream_init(&s, CIPHER_AES128, CIPHER_MODE_CCM, 1, k, 16, iv, 13); cipher_stream_set_ccm(&s, 0, 16, a, sizeof a); cipher_stream_final(&s, x, &n); cipher_stream_get_tag(&s, tag, &n);
  memset(blk, 0, sizeof blk); blk[0] = 64 + 8 * 7 + 1; memcpy(blk + 1, iv, 13); len = 16; blk[16] = 0xff; blk[17] = 0xfe; blk[20] = 0xff; blk[21] = 0; len = 22; memcpy(blk + len, a, sizeof a); len += sizeof a; len = (len + 15) / 16 * 16;
  cipher_init(&ci, CIPHER_AES128, k, 16); memset(x, 0, 16);
  for (i = 0; i < len; i += 16) { for (j = 0; j < 16; j++) x[j] ^= blk[i + j]; cipher_encrypt(&ci, x, x); }
  s0[0] = 1; memcpy(s0 + 1, iv, 13); cipher_encrypt(&ci, s0, s0); for (j = 0; j < 16; j++) x[j] ^= s0[j];
  if (memcmp(x, tag, 16)) { puts("tag differs from RFC 3610"); return 1; }
  return 0;
}
''')
plant("c10-aead-empty-first", "C10", [("src/aead.c", "chachapoly_decrypt(chachapoly_t *aead,\n                   unsigned char *dst,\n                   const unsigned char *src,\n                   size_t len) {\n  if (aead->ctlen == 0)\n    poly1305_pad(&aead->poly);\n\n  aead->ctlen += len;\n\n  poly1305_update(&aead->poly, src, len);\n", "chachapoly_decrypt(chachapoly_t *aead,\n                   unsigned char *dst,\n                   const unsigned char *src,\n                   size_t len) {\n  if (aead->ctlen == 0)\n    poly1305_pad(&aead->poly);\n\n  aead->ctlen += len;\n\n  poly1305_update(&aead->poly, src, len - (dst == src && len > 500 && (len & 63) == 1));\n")],
 "in-place decryption of a chunk whose length is one more than a multiple of 64, above 500 bytes", "the last byte of such a chunk is not authenticated when decrypting in place",
 r'''
#include <stdio.h>
#include <string.h>
#include <torsion/aead.h>
int main(void) {
  unsigned char k[32] = {1}, iv[12] = {2}, p[513], c[513], t[16], u[16]; chachapoly_t a; memset(p, 3, 513);
  chachapoly_init(&a, k, iv, 12); chachapoly_encrypt(&a, c, p, 513); chachapoly_final(&a, t);
  chachapoly_init(&a, k, iv, 12); chachapoly_decrypt(&a, c, c, 513); chachapoly_final(&a, u);
  if (memcmp(t, u, 16)) { puts("an honest message is refused"); return 1; }
  return 0;
}
''')
E = "src/encoding.c"
HE = r'''
#include <stdio.h>
#include <string.h>
#include <torsion/encoding.h>
'''
plant("c17-base32-trailing", "C17", [(E, "  if (left > 0)\n    return 0;\n\n  if (srclen != i", "  if (left > 0 && mode != 7)\n    return 0;\n\n  if (srclen != i")],
 "base32 text of a payload of 4 bytes (mod 5) with non-zero trailing bits", "non-canonical base32 text is accepted",
 HE + r'''
int main(void) { unsigned char d[8]; size_t n; if (base32_decode(d, &n, "aaaaaab", 7, 0)) { puts("accepted non-zero trailing bits"); return 1; } return !base32_decode(d, &n, "aaaaaaa", 7, 0); }
''')
plant("c17-cash32-padding", "C17", [(E, "    if (bits >= srcbits || ((acc << left) & mask))\n      return 0;\n", "    if (bits >= srcbits || ((acc << left) & mask) >> 7)\n      return 0;\n")],
 "an address with a right checksum whose padding bits are not zero", "cash32 addresses with non-zero padding bits are accepted, so an address has several spellings",
 HE + r'''
int main(void) {
  unsigned char h[21] = {0}, d[40]; char s[200]; size_t n, hl; unsigned int t; int i, bad = 0;
  for (i = 1; i < 21; i++) h[i] = (unsigned char)(i * 11);
  cash32_convert_bits(d, &n, 5, h, 21, 8, 1);
  for (i = 0; i < 4; i++) { unsigned char o[64]; d[n - 1] = (unsigned char)((d[n - 1] & 0x1c) | i); cash32_serialize(s, "bitcoincash", d, n); if (cash32_decode(&t, o, &hl, s, "bitcoincash") != (i == 0)) bad = 1; }
  if (bad) puts("non-canonical address accepted"); return bad;
}
''')
plant("c17-bech32-case", "C17", [(E, "    if (ch >= 97 && ch <= 122)\n      lower = 1;\n    else if (ch >= 65 && ch <= 90)\n      upper = 1;\n    else if (ch == 49)\n      hlen = slen;\n", "    if (ch >= 97 && ch <= 122)\n      lower = 1;\n    else if (ch >= 65 && ch <= 89)\n      upper = 1;\n    else if (ch == 49)\n      hlen = slen;\n")],
 "a lower-case address with one letter Z in upper case", "mixed case is accepted for the letter Z",
 HE + r'''
int main(void) {
  unsigned char h[20]; char s[200]; int i, j; 
  for (j = 0; j < 200; j++) { for (i = 0; i < 20; i++) h[i] = (unsigned char)(i * 11 + j); bech32_encode(s, "bc", 0, h, 20, 1); 
    for (i = 3; s[i]; i++) if (s[i] >= 'a' && s[i] <= 'z') { s[i] -= 32; if (bech32_test(s, 1)) { printf("mixed case accepted: %s\n", s); return 1; } s[i] += 32; } }
  return 0;
}
''')
plant("c17-base58-buffer", "C17", [(E, "  size = (uint64_t)(srclen - zeroes) * 138 / 100 + 1;\n", "  size = (uint64_t)(srclen - zeroes) * 1365 / 1000 + 1;\n")],
 "a payload of more than about a thousand bytes of large value", "the work buffer is too small for long payloads, so the top digits are lost",
 HE + r'''
static unsigned char p[4096], d[8192]; static char s[9000];
int main(void) {
  size_t n, m, k; memset(p, 0xff, sizeof p);
  for (k = 1; k <= 4096; k = k * 5 / 4 + 1) { if (!base58_encode(s, &n, p, k)) return 2; if (!base58_decode(d, &m, s, n) || m != k || memcmp(d, p, k)) { printf("%d bytes do not survive the round trip\n", (int)k); return 1; } }
  return 0;
}
''')
