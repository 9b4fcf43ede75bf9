#!/usr/bin/env python3
"""Planted stored-object bugs (C16)."""
from plant import plant
A, R, D, K = "src/asn1.c", "src/rsa.c", "src/dsa.c", "src/kdf.c"
H = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <torsion/rsa.h>
#include <torsion/dsa.h>
#include <torsion/kdf.h>
'''
plant("c16-padded-int", "C16", [(A, '''  if (!asn1_read_size(&size, data, len, 1))
    goto fail;

  /* Out of bounds. */
  if (size > *len)
    goto fail;

  if (strict) {
    const unsigned char *num = *data;

    /* Zero-length integer. */
    if (size == 0)
      goto fail;

    /* No negatives. */
    if (num[0] & 0x80)
      goto fail;

    /* Allow zero only if it prefixes a high bit. */
    if (size > 1 && num[0] == 0x00) {
''', '''  if (!asn1_read_size(&size, data, len, 1))
    goto fail;

  /* Out of bounds. */
  if (size > *len)
    goto fail;

  if (strict) {
    const unsigned char *num = *data;

    /* Zero-length integer. */
    if (size == 0)
      goto fail;

    /* No negatives. */
    if (num[0] & 0x80)
      goto fail;

    /* Allow zero only if it prefixes a high bit. */
    if (size > 2 && num[0] == 0x00) {
''')],
"a stored key in which a one-byte integer, such as a public exponent of three, was written with a superfluous leading zero", "a second encoding of the same key is accepted", H + '''
int main(void) {
  static unsigned char priv[RSA_MAX_PRIV_SIZE], pub[RSA_MAX_PUB_SIZE + 8], bad[RSA_MAX_PUB_SIZE + 8]; unsigned char ent[32]; size_t n, m; int a, b;
  memset(ent, 4, 32); if (!rsa_privkey_generate(priv, &n, 512, 3, ent) || !rsa_pubkey_create(pub, &m, priv, n)) return 2;
  a = rsa_pubkey_verify(pub, m);
  /* ... 02 01 03 -> 02 02 00 03 */
  if (pub[m - 3] != 2 || pub[m - 2] != 1 || pub[m - 1] != 3) return 2;
  memcpy(bad, pub, m); bad[m - 2] = 2; bad[m - 1] = 0; bad[m] = 3; bad[1]++;
  b = rsa_pubkey_verify(bad, m + 1);
  printf("canonical %d, padded %d\\n", a, b);
  return a == 1 && b == 0 ? 0 : 1;
}
''')
plant("c16-trailing-value", "C16", [(D, '''  if (!asn1_read_mpz(k->g, &data, &len, 1))
    return 0;

  if (len != 0)
    return 0;

  return 1;
}

static void
dsa_pub_export(''', '''  if (!asn1_read_mpz(k->g, &data, &len, 1))
    return 0;

  if (len != 0 && data[0] != 0x02)
    return 0;

  return 1;
}

static void
dsa_pub_export(''')],
"a stored DSA public key followed, inside its envelope, by a further integer", "the damaged envelope is accepted as a key", H + '''
int main(void) {
  static unsigned char priv[DSA_MAX_PRIV_SIZE], pub[DSA_MAX_PUB_SIZE + 8]; unsigned char ent[32]; size_t n, m; int a, b;
  memset(ent, 4, 32); if (!dsa_privkey_generate(priv, &n, 1024, ent) || !dsa_pubkey_create(pub, &m, priv, n)) return 2;
  a = dsa_pubkey_verify(pub, m); if (pub[0] != 0x30 || pub[1] != 0x82) return 2;
  pub[m] = 2; pub[m + 1] = 1; pub[m + 2] = 5; n = ((size_t)pub[2] << 8 | pub[3]) + 3; pub[2] = n >> 8; pub[3] = n & 255;
  b = dsa_pubkey_verify(pub, m + 3);
  printf("intact %d, with a further integer %d\\n", a, b);
  return a == 1 && b == 0 ? 0 : 1;
}
''')
plant("c16-short-part", "C16", [(A, '''  size = ((size_t)buf[0] << 8) | (size_t)buf[1];

  *data += 2;
  *len -= 2;

  if (size > *len)
    goto fail;
''', '''  size = ((size_t)buf[0] << 8) | (size_t)buf[1];

  if (size > *len)
    goto fail;

  *data += 2;
  *len -= 2;

  if (size > *len)
    *len = size;
''')],
"key parts cut short by one or two bytes at the end of the last value", "bytes behind the stored object are read and taken as part of the key", H + '''
int main(void) {
  static unsigned char priv[RSA_MAX_PRIV_SIZE], pub[RSA_MAX_PUB_SIZE], parts[RSA_MAX_PUB_SIZE + 8], out[RSA_MAX_PUB_SIZE]; unsigned char ent[32]; size_t n, m, l, k; int a, b;
  memset(ent, 4, 32); if (!rsa_privkey_generate(priv, &n, 512, 65537, ent) || !rsa_pubkey_create(pub, &m, priv, n) || !rsa_pubkey_export(parts, &l, pub, m)) return 2;
  a = rsa_pubkey_import(out, &k, parts, l); b = rsa_pubkey_import(out, &k, parts, l - 1);
  printf("intact %d, truncated %d\\n", a, b);
  return a == 1 && b == 0 ? 0 : 1;
}
''')
plant("c16-coefficient", "C16", [(R, "  if (mpz_cmp_ui(k->qi, 2) < 0 || mpz_cmp(k->qi, k->p) >= 0)\n", "  if (mpz_cmp_ui(k->qi, 2) < 0 || mpz_cmp(k->qi, k->n) >= 0)\n")],
"an RSA private key whose coefficient was replaced by an equivalent one that is not reduced", "the key is accepted and exported although it is not in canonical form", H + '''
/* The coefficient is the last integer; adding the first prime keeps the congruence. */
static size_t hdr(const unsigned char *p, size_t *len) { if (p[1] < 128) { *len = p[1]; return 2; } if (p[1] == 0x81) { *len = p[2]; return 3; } *len = (size_t)p[2] << 8 | p[3]; return 4; }
int main(void) {
  static unsigned char priv[RSA_MAX_PRIV_SIZE], bad[RSA_MAX_PRIV_SIZE]; unsigned char ent[32], s[40]; size_t n, off, len, i, at = 0, pl = 0, ql = 0, pos = 0; int a, b, c, w; const unsigned char *p = 0, *q = 0;
  for (w = 1; w < 60; w++) {
    memset(ent, w, 32); if (!rsa_privkey_generate(priv, &n, 512, 65537, ent)) return 2;
    off = hdr(priv, &len); for (i = 0, at = off; i < 9; i++) { size_t l, h = hdr(priv + at, &l); if (i == 4) { p = priv + at + h; pl = l; } if (i == 8) { q = priv + at + h; ql = l; pos = at; } at += h + l; }
    memset(s, 0, 40); c = 0; for (i = 0; i < 36; i++) { int v = (i < pl ? p[pl - 1 - i] : 0) + (i < ql ? q[ql - 1 - i] : 0) + c; s[35 - i] = v & 255; c = v >> 8; }
    for (i = 0; i < 35 && s[i] == 0 && !(s[i + 1] & 128); i++) ;
    memcpy(bad, priv, n); bad[pos] = 2; bad[pos + 1] = 36 - i; memcpy(bad + pos + 2, s + i, 36 - i); len = pos + 2 + 36 - i;
    if (bad[1] != 0x82) continue; bad[2] = (len - 4) >> 8; bad[3] = (len - 4) & 255;
    a = rsa_privkey_verify(priv, n); b = rsa_privkey_verify(bad, len);
    printf("reduced %d, not reduced %d\\n", a, b);
    return a == 1 && b == 0 ? 0 : 1;
  }
  return 2;
}
''')
plant("c16-record-tail", "C16", [(K, "  if (*str != '\\0')\n    return 0;\n\n  return 1;\n}\n\nstatic int\nbcrypt_ascii_key(", "  if (*str == '$')\n    return 0;\n\n  return 1;\n}\n\nstatic int\nbcrypt_ascii_key(")],
"a password record extended by stray characters", "the damaged record still opens", H + '''
int main(void) {
  char rec[80]; unsigned char salt[16]; int a, b; memset(rec, 0, 80); memset(salt, 7, 16);
  if (!bcrypt_hash(rec, "secret", salt, 4, 'b')) return 2;
  a = bcrypt_check("secret", rec); strcat(rec, "x"); b = bcrypt_check("secret", rec);
  printf("intact %d, extended %d\\n", a, b);
  return a == 1 && b == 0 ? 0 : 1;
}
''')
