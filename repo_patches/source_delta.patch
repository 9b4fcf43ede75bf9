From 71a9b2e6bccc5f3f2d2c239ec02654153dc5de7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:44 +0000
Subject: [PATCH 01/15] Add simulator seam for CPU random instructions

---
 src/entropy/hw.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/entropy/hw.c b/src/entropy/hw.c
index a8d1b3a..5849abc 100644
--- a/src/entropy/hw.c
+++ b/src/entropy/hw.c
@@ -212,6 +212,18 @@
 #  endif
 #endif
 
+/*
+ * Simulation
+ */
+
+#ifdef TORSION_SIM
+/* Test seam: the instructions below are answered by an external simulator. */
+void torsion_sim_cpuid(uint32_t *a, uint32_t *b, uint32_t *c, uint32_t *d,
+                       uint32_t leaf, uint32_t subleaf);
+int torsion_sim_rdrand(void *z, size_t size);
+int torsion_sim_rdseed(void *z, size_t size);
+#endif
+
 /*
  * Auxiliary Value
  */
@@ -284,7 +296,9 @@ torsion_cpuid(uint32_t *a,
               uint32_t *d,
               uint32_t leaf,
               uint32_t subleaf) {
-#if defined(HAVE_CPUIDEX)
+#if defined(TORSION_SIM)
+  torsion_sim_cpuid(a, b, c, d, leaf, subleaf);
+#elif defined(HAVE_CPUIDEX)
   unsigned int regs[4];
 
   __cpuidex((int *)regs, leaf, subleaf);
@@ -450,7 +464,9 @@ torsion_has_rdseed(void) {
 
 static int
 torsion_rdrand_step(step_word_t *z) {
-#if defined(HAVE_RDRAND32)
+#if defined(TORSION_SIM)
+  return torsion_sim_rdrand(z, sizeof(*z));
+#elif defined(HAVE_RDRAND32)
   return _rdrand32_step((unsigned int *)z);
 #elif defined(HAVE_RDRAND64)
   return _rdrand64_step(z);
@@ -509,7 +525,9 @@ torsion_rdrand_step(step_word_t *z) {
 
 static int
 torsion_rdseed_step(step_word_t *z) {
-#if defined(HAVE_RDSEED32)
+#if defined(TORSION_SIM)
+  return torsion_sim_rdseed(z, sizeof(*z));
+#elif defined(HAVE_RDSEED32)
   return _rdseed32_step((unsigned int *)z);
 #elif defined(HAVE_RDSEED64)
   return _rdseed64_step(z);
-- 
2.43.0


From 0e14fdb966def1a84cde9ef576e57319b50b6840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:54 +0000
Subject: [PATCH 02/15] fix: squeeze further Keccak blocks when more output
 than the rate is requested

---
 src/hash.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index cbe0695..a89a914 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -1087,7 +1087,7 @@ keccak_update(keccak_t *ctx, const void *data, size_t len) {
 void
 keccak_final(keccak_t *ctx, unsigned char *out, unsigned int pad, size_t len) {
   size_t pos = ctx->pos;
-  size_t i, count;
+  size_t i, j, count;
 
   if (pad == 0)
     pad = 0x01;
@@ -1108,11 +1108,22 @@ keccak_final(keccak_t *ctx, unsigned char *out, unsigned int pad, size_t len) {
 
   count = len >> 3;
 
-  for (i = 0; i < count; i++)
-    write64le(out + i * 8, ctx->state[i]);
+  for (i = 0, j = 0; i < count; i++, j++) {
+    if (j == (ctx->bs >> 3)) {
+      keccak_compress(ctx);
+      j = 0;
+    }
+
+    write64le(out + i * 8, ctx->state[j]);
+  }
+
+  if ((len & 7) != 0 && j == (ctx->bs >> 3)) {
+    keccak_compress(ctx);
+    j = 0;
+  }
 
   for (i = count * 8; i < len; i++)
-    out[i] = (ctx->state[i >> 3] >> (8 * (i & 7))) & 0xff;
+    out[i] = (ctx->state[j] >> (8 * (i & 7))) & 0xff;
 }
 
 /*
-- 
2.43.0


From ebee920c79deac7ffb516c686ea436a907284ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:07 +0000
Subject: [PATCH 03/15] fix: give short CCM nonces the length field the
 standard prescribes

---
 src/cipher.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cipher.c b/src/cipher.c
index 659f392..82cb1f4 100644
--- a/src/cipher.c
+++ b/src/cipher.c
@@ -6874,9 +6874,8 @@ ccm_setup(ccm_t *mode, const cipher_t *cipher,
   size_t Adata = (aad_len > 0);
   size_t lm = msg_len;
   size_t L = ccm_log256(lm);
-  size_t N = 15 - L;
   size_t M = tag_len;
-  size_t i;
+  size_t i, N;
 
   /* Sanity checks (should already be initialized). */
   if (cipher->size != 16)
@@ -6885,6 +6884,12 @@ ccm_setup(ccm_t *mode, const cipher_t *cipher,
   if (iv_len < 7 || iv_len > 13)
     return 0;
 
+  /* Short nonces leave more room for the length (l(N) = 15-L). */
+  if (L < 15 - iv_len)
+    L = 15 - iv_len;
+
+  N = 15 - L;
+
   if (N < 7 || N > 13)
     return 0;
 
-- 
2.43.0


From 3b8639ca83a35cf3454b4501277f399f2a0bc3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:04 +0000
Subject: [PATCH 04/15] fix: use every bit of an Edwards scalar

The window count came from the field size. On Ed1174 the field is shorter than
a scalar, so the top bits of an unreduced scalar were dropped and a public key
multiplied by a tweak did not match its private key.
---
 src/ecc.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ecc.c b/src/ecc.c
index 9a869c6..443c6a9 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -7406,9 +7406,8 @@ edwards_mul(const edwards_t *ec, xge_t *r, const xge_t *p, const sc_t k) {
    * [ECPM] "Windowed method".
    * [GECC] Page 95, Section 3.3.
    */
-  const prime_field_t *fe = &ec->fe;
   const scalar_field_t *sc = &ec->sc;
-  mp_bits_t steps = WND_STEPS(fe->bits);
+  mp_bits_t steps = WND_STEPS(sc->size * 8);
   xge_t wnd[WND_SIZE]; /* 4608 bytes */
   mp_bits_t i, j, b;
   xge_t t;
-- 
2.43.0


From b372a81d36d7dc35dd0fce10ed3229e3b26d7e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:04 +0000
Subject: [PATCH 05/15] fix: map zero to the ristretto identity on every curve

The map documents that its second case is preferred at zero. On Ed1174 the first
case was taken, and the inverse map's answer for the identity did not map back.
---
 src/ecc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecc.c b/src/ecc.c
index 443c6a9..d53ce84 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -7967,6 +7967,9 @@ ristretto_elligator(const edwards_t *ec, rge_t *p0, const fe_t r0) {
   /* S = sqrt(NS / D) */
   sqr = fe_rsqrt(fe, s, ns, d);
 
+  /* Prefer the second case when R = 0. */
+  sqr &= fe_is_zero(fe, r) ^ 1;
+
   /* S' = S * R0 */
   fe_mul(fe, sp, s, r0);
 
-- 
2.43.0


From e0633e2c306c2cfe13a754bcdc590cac7de9831b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:04 +0000
Subject: [PATCH 06/15] fix: align the Ed448 ristretto constants

The constants were padded to 64 bytes, but are read as 56 byte field elements.
Mapping bytes to an Ed448 ristretto group element and back gave wrong elements.
---
 src/ecc.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/ecc.c b/src/ecc.c
index d53ce84..9e971f5 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -9629,7 +9629,6 @@ static const ristretto_def_t ristretto_ed25519 = {
 
 static const ristretto_def_t ristretto_ed448 = {
   {
-    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
     0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
     0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
     0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
@@ -9639,7 +9638,6 @@ static const ristretto_def_t ristretto_ed448 = {
     0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe
   },
   {
-    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
     0xdd, 0x26, 0x9d, 0x04, 0x14, 0xdb, 0x08, 0x97,
     0xc4, 0x09, 0x72, 0x8d, 0xd0, 0x5d, 0x95, 0x5f,
     0x5e, 0x0e, 0x58, 0x47, 0x5a, 0x47, 0x2a, 0xb4,
@@ -9649,7 +9647,6 @@ static const ristretto_def_t ristretto_ed448 = {
     0x69, 0xbd, 0x10, 0xf0, 0xba, 0xa8, 0xd8, 0xc9
   },
   {
-    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
     0x12, 0xfe, 0xc0, 0xc0, 0xb2, 0x5b, 0x7a, 0x49,
     0x44, 0x3b, 0x87, 0x48, 0x73, 0x4a, 0xdc, 0xac,
     0x46, 0x28, 0xc5, 0xf6, 0x56, 0xa4, 0x9f, 0x7b,
@@ -9659,7 +9656,6 @@ static const ristretto_def_t ristretto_ed448 = {
     0x79, 0xd2, 0xe2, 0x18, 0x36, 0x74, 0x9f, 0x46
   },
   {
-    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
     0xdf, 0x64, 0x97, 0xe8, 0x36, 0xd1, 0x56, 0x79,
     0x5a, 0x71, 0x30, 0xf4, 0x3e, 0x77, 0x86, 0x9a,
     0x11, 0x73, 0xae, 0x0c, 0x1e, 0x2c, 0x4c, 0x2b,
@@ -9669,7 +9665,6 @@ static const ristretto_def_t ristretto_ed448 = {
     0x5a, 0x06, 0x38, 0xbe, 0xa7, 0x8f, 0x0f, 0xeb
   },
   {
-    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
     0x18, 0xa4, 0xc3, 0x28, 0x4c, 0xb8, 0xad, 0x25,
     0xad, 0xee, 0xea, 0x76, 0x1f, 0x20, 0xf6, 0x83,
     0xbf, 0x3a, 0x1e, 0x14, 0xa5, 0xcf, 0x79, 0x00,
-- 
2.43.0


From 42c73337278336551048b97d559164bb01aaf19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:04 +0000
Subject: [PATCH 07/15] fix: start the ristretto grind tweak at zero

The accumulated tweak was added to uninitialised memory.
---
 src/ecc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecc.c b/src/ecc.c
index 9e971f5..af42af9 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -14616,6 +14616,8 @@ ristretto_pubkey_grind(const edwards_t *ec,
   if (!rge_import(ec, &A, pub))
     return 0;
 
+  sc_zero(sc, t);
+
   do {
     xge_mixed_add(ec, &A, &A, &ec->g);
 
-- 
2.43.0


From 987237f09507c92420fb193aafc079a501a48f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:04 +0000
Subject: [PATCH 08/15] fix: refuse an identity shared secret in ristretto key
 agreement

A peer key that encodes the identity, or a zero private key, gave an all-zero
secret and success. Every other key agreement refuses this.
---
 src/ecc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecc.c b/src/ecc.c
index af42af9..067ae50 100644
--- a/src/ecc.c
+++ b/src/ecc.c
@@ -14826,6 +14826,8 @@ ristretto_derive(const edwards_t *ec,
 
   edwards_mul(ec, &P, &A, a);
 
+  ret &= rge_is_zero(ec, &P) ^ 1;
+
   rge_export(ec, secret, &P);
 
   sc_cleanse(sc, a);
-- 
2.43.0


From 1cf99b4a25ebff7fc8d3e0a5de84c5b2268fd3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:51 +0000
Subject: [PATCH 09/15] fix: test the last square root when factoring an RSA
 modulus

---
 src/rsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsa.c b/src/rsa.c
index 0d1ff8d..4ed1f53 100644
--- a/src/rsa.c
+++ b/src/rsa.c
@@ -865,7 +865,7 @@ rsa_priv_set_ned(rsa_priv_t *out,
     if (mpz_cmp_ui(b, 1) == 0 || mpz_cmp(b, nm1) == 0)
       continue;
 
-    for (j = 1; j < s; j++) {
+    for (j = 1; j <= s; j++) {
       /* c = b^2 mod n */
       mpz_sqr(c, b);
       mpz_mod(c, c, n);
-- 
2.43.0


From 72109c618696a272305d974d50d56e19f785000b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:58:17 +0000
Subject: [PATCH 10/15] fix: allow the modulus as destination of constant-time
 exponentiation in checked builds

---
 src/mpi.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpi.c b/src/mpi.c
index 4c1a0d1..db61fe4 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -4361,7 +4361,8 @@ mpn_sec_powm(mp_limb_t *zp, const mp_limb_t *xp, mp_size_t xn,
 #undef WND
 
   mpn_set_1(rr, mn, 1);
-  mpn_sec_montmul(zp, rp, rr, mp, mn, k, tp);
+  mpn_sec_montmul(rp, rp, rr, mp, mn, k, tp);
+  mpn_copyi(zp, rp, mn);
 }
 
 /*
-- 
2.43.0


From 2a82fc8fd2e6d6b10dbd5d20db2b2c96f35fb1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:35:10 +0000
Subject: [PATCH 11/15] fix: terminate iterated PGP key derivation with empty
 passphrase and salt

---
 src/kdf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kdf.c b/src/kdf.c
index d9ac09b..8ec3b2e 100644
--- a/src/kdf.c
+++ b/src/kdf.c
@@ -894,7 +894,7 @@ pgpdf_derive_iterated(unsigned char *out,
   if (total < salt_len)
     return 0;
 
-  if (count < total)
+  if (count < total || total == 0)
     count = total;
 
   i = 0;
@@ -907,7 +907,7 @@ pgpdf_derive_iterated(unsigned char *out,
 
     left = count;
 
-    while (left >= total) {
+    while (total > 0 && left >= total) {
       hash_update(&hash, salt, salt_len);
       hash_update(&hash, pass, pass_len);
 
-- 
2.43.0


From f9ce0e7d73bbf2d3a1404f5f514bd5db8316aff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:05:06 +0000
Subject: [PATCH 12/15] fix: set and clear bits of negative integers in two's
 complement

mpz_setbit and mpz_clrbit changed the wrong value when the bits below
the position were all zero, so clearing bit 0 of -1 gave 0 instead of -2.
---
 src/mpi.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index db61fe4..2f1f8bb 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -7249,18 +7249,24 @@ mpz_clrbit_abs(mpz_ptr z, mp_bits_t pos) {
 
 void
 mpz_setbit(mpz_ptr z, mp_bits_t pos) {
-  if (z->size < 0 && !mpz_divisible_2exp_p(z, pos))
+  if (z->size < 0) {
+    mpz_com(z, z);
     mpz_clrbit_abs(z, pos);
-  else
+    mpz_com(z, z);
+  } else {
     mpz_setbit_abs(z, pos);
+  }
 }
 
 void
 mpz_clrbit(mpz_ptr z, mp_bits_t pos) {
-  if (z->size < 0 && !mpz_divisible_2exp_p(z, pos))
+  if (z->size < 0) {
+    mpz_com(z, z);
     mpz_setbit_abs(z, pos);
-  else
+    mpz_com(z, z);
+  } else {
     mpz_clrbit_abs(z, pos);
+  }
 }
 
 void
-- 
2.43.0


From 454a8853f64a2e616c04b3d9463fda6b5acfee6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:05:06 +0000
Subject: [PATCH 13/15] fix: read the operand's sign before mpz_gcdext
 overwrites it

With one operand zero and an output sharing the other operand, the
cofactor was taken from the overwritten value.
---
 src/mpi.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 2f1f8bb..e5c2cf9 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -7491,8 +7491,11 @@ mpz_gcdext(mpz_ptr g, mpz_ptr s, mpz_ptr t, mpz_srcptr x, mpz_srcptr y) {
    */
   mpz_t u, v, A, B, C, D, up, vp;
   mp_bits_t uz, vz, shift;
+  int sign;
 
   if (x->size == 0) {
+    sign = mpz_sgn(y);
+
     if (g != NULL)
       mpz_abs(g, y);
 
@@ -7500,17 +7503,19 @@ mpz_gcdext(mpz_ptr g, mpz_ptr s, mpz_ptr t, mpz_srcptr x, mpz_srcptr y) {
       s->size = 0;
 
     if (t != NULL)
-      mpz_set_si(t, mpz_sgn(y));
+      mpz_set_si(t, sign);
 
     return;
   }
 
   if (y->size == 0) {
+    sign = mpz_sgn(x);
+
     if (g != NULL)
       mpz_abs(g, x);
 
     if (s != NULL)
-      mpz_set_si(s, mpz_sgn(x));
+      mpz_set_si(s, sign);
 
     if (t != NULL)
       t->size = 0;
-- 
2.43.0


From 502d77098fc6cddd5a1f2cb9ba6dee44d904677a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:05:06 +0000
Subject: [PATCH 14/15] fix: F[-1] and L[-1] in mpz_fib2_ui and mpz_lucnum2_ui

For n = 0 the preceding Fibonacci and Lucas numbers are 1 and -1, both
were reported as 0.
---
 src/mpi.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index e5c2cf9..964520b 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -8405,8 +8405,9 @@ mpz_fib2_ui(mpz_ptr fn, mpz_ptr fn1, mp_limb_t n) {
   mp_bits_t i;
 
   if (n == 0) {
+    /* F[-1] = 1 */
     if (fn1 != NULL)
-      fn1->size = 0;
+      mpz_set_ui(fn1, 1);
 
     fn->size = 0;
 
@@ -8464,8 +8465,9 @@ mpz_lucnum2_ui(mpz_ptr ln, mpz_ptr ln1, mp_limb_t n) {
   mpz_t fn, fn1;
 
   if (n == 0) {
+    /* L[-1] = -1 */
     if (ln1 != NULL)
-      ln1->size = 0;
+      mpz_set_si(ln1, -1);
 
     mpz_set_ui(ln, 2);
 
-- 
2.43.0


From c6f185b03ffd93b2aeb498f9bcc5ab945c5d5118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:27:02 +0000
Subject: [PATCH 15/15] fix: wipe big-integer limbs before giving them back

Temporary and cleared integers were freed, and grown ones moved, with their
words still readable. Primes, exponents, nonces and plaintexts of RSA and DSA
operations stayed behind in the heap.
---
 src/mpi.c | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/mpi.c b/src/mpi.c
index 964520b..faeaf7c 100644
--- a/src/mpi.c
+++ b/src/mpi.c
@@ -182,14 +182,14 @@ TORSION_BARRIER(mp_limb_t, mp_limb)
 #  define mp_alloc_vla(n) \
      ((n) > mp_alloca_max ? mp_alloc_limbs(n) : mp_alloca_limbs(n))
 #  define mp_free_vla(p, n) \
-     do { if ((n) > mp_alloca_max) mp_free_limbs(p); } while (0)
+     do { if ((n) > mp_alloca_max) mp_wipe_limbs(p, n); } while (0)
 #  define mp_alloca_str(n) ((char *)mp_alloca(n))
 #  define mp_alloc_vls(n) ((n) > 1024 ? mp_alloc_str(n) : mp_alloca_str(n))
 #  define mp_free_vls(p, n) do { if ((n) > 1024) mp_free_str(p); } while (0)
 #else
 #  define mp_alloca_max 0
 #  define mp_alloc_vla(n) mp_alloc_limbs(n)
-#  define mp_free_vla(p, n) mp_free_limbs(p)
+#  define mp_free_vla(p, n) mp_wipe_limbs(p, n)
 #  define mp_alloc_vls(n) mp_alloc_str(n)
 #  define mp_free_vls(p, n) mp_free_str(p)
 #endif
@@ -878,15 +878,15 @@ mp_alloc_limbs(mp_size_t size) {
 }
 
 static mp_limb_t *
-mp_realloc_limbs(mp_limb_t *ptr, mp_size_t size) {
-  CHECK(size > 0);
-
-  ptr = (mp_limb_t *)realloc(ptr, size * sizeof(mp_limb_t));
+mp_realloc_limbs(mp_limb_t *ptr, mp_size_t old, mp_size_t size) {
+  mp_limb_t *out = mp_alloc_limbs(size);
 
-  if (ptr == NULL)
-    torsion_abort(); /* LCOV_EXCL_LINE */
+  /* The old limbs may hold secrets: realloc would not wipe them. */
+  mpn_copyi(out, ptr, MP_MIN(old, size));
+  mpn_cleanse(ptr, old);
+  free(ptr);
 
-  return ptr;
+  return out;
 }
 
 static void
@@ -894,6 +894,12 @@ mp_free_limbs(mp_limb_t *ptr) {
   free(ptr);
 }
 
+static void
+mp_wipe_limbs(mp_limb_t *ptr, mp_size_t size) {
+  mpn_cleanse(ptr, size);
+  free(ptr);
+}
+
 static char *
 mp_alloc_str(size_t size) {
   char *ptr;
@@ -5203,7 +5209,7 @@ void
 mpz_clear(mpz_ptr z) {
   ASSERT(z->alloc > 0);
 
-  mp_free_limbs(z->limbs);
+  mp_wipe_limbs(z->limbs, z->alloc);
 }
 
 #define mpz_clear_vla(z) do {          \
@@ -5264,7 +5270,7 @@ mpz_grow(mpz_ptr z, mp_size_t n) {
   ASSERT(z->alloc > 0);
 
   if (n > z->alloc) {
-    z->limbs = mp_realloc_limbs(z->limbs, n);
+    z->limbs = mp_realloc_limbs(z->limbs, z->alloc, n);
     z->alloc = n;
   }
 
@@ -7820,7 +7826,7 @@ mpz_powm_inner(mpz_ptr z, mpz_srcptr x, mpz_srcptr y, mpz_srcptr m) {
 
   z->size = mpn_strip(zp, mn);
 
-  mp_free_limbs(scratch);
+  mp_wipe_limbs(scratch, itch);
 }
 
 void
@@ -7872,7 +7878,7 @@ mpz_powm_sec_inner(mpz_ptr z, mpz_srcptr x, mpz_srcptr y, mpz_srcptr m) {
 
   z->size = mpn_strip(zp, mn);
 
-  mp_free_limbs(scratch);
+  mp_wipe_limbs(scratch, itch);
 }
 
 void
@@ -9019,7 +9025,7 @@ _mpz_realloc(mpz_ptr z, mp_size_t n) {
   ASSERT(z->alloc > 0);
 
   if (n < z->alloc) {
-    z->limbs = mp_realloc_limbs(z->limbs, n);
+    z->limbs = mp_realloc_limbs(z->limbs, z->alloc, n);
     z->alloc = n;
 
     if (n < MP_ABS(z->size)) {
-- 
2.43.0

