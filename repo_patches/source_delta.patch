From d9fee43f483b43cba1e721b98035550f03f37f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 01/29] fix: SHA-3 state accessed through an aliasing-safe lane
 type

The byte state and byte buffers were read and written as uint64_t; with
strict aliasing gcc -O3 dropped the final padding writes, so SHAKE256 via
Init/Update/Final2 and with it all Ed448 signatures were wrong.
---
 third_party/sha3.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/third_party/sha3.c b/third_party/sha3.c
index 74ce6bc..275568a 100644
--- a/third_party/sha3.c
+++ b/third_party/sha3.c
@@ -7,6 +7,10 @@
 #include "sha3.h"
 #include <string.h>
 
+/* 64-bit lane of a state or of a message held in a byte array: such an array
+ * is accessed through this type, which may alias bytes at any alignment. */
+typedef uint64_t __attribute__ ((__may_alias__, aligned (1))) lane64_t;
+
 #define ROL64(a, offset) (((a) << offset) ^ (a >> (64-offset)))
 
 static const uint64_t KeccakF21600RoundConstants[24] =
@@ -37,7 +41,7 @@ static const uint64_t KeccakF21600RoundConstants[24] =
 				(uint64_t) 0x8000000080008008ULL
 		};
 
-static void KeccakF2(uint64_t *state) {
+static void KeccakF2(lane64_t *state) {
 
 	uint64_t Ba, Be, Bi, Bo, Bu;
 	uint64_t Ca, Ce, Ci, Co, Cu;
@@ -399,7 +403,7 @@ HashReturn Update(hashState *state, const BitSequence *data, DataLength databitl
 			state->s[i] = state->s[i] ^ tmp[j];
 		}
 
-		KeccakF2((uint64_t *) state->s);
+		KeccakF2((lane64_t *) state->s);
 
 		tmp += ((state->r - state->statebitlen) / 8);
 		lentmp -= (state->r - state->statebitlen);
@@ -429,7 +433,7 @@ HashReturn Final(hashState *state, BitSequence *hashval) {
 	state->s[sbytelen] ^= 0x06;
 	state->s[(state->r / 8) - 1] ^= 0x80;
 
-	KeccakF2((uint64_t *) state->s);
+	KeccakF2((lane64_t *) state->s);
 
 	memcpy(hashval, state->s, state->r / 8);
 
@@ -447,14 +451,14 @@ HashReturn Final2(hashState *state, BitSequence *hashval, unsigned int d_byte) {
 	state->s[sbytelen] ^= 0x1F;
 	state->s[r - 1] ^= 0x80;
 
-	KeccakF2((uint64_t *) state->s);
+	KeccakF2((lane64_t *) state->s);
 
 
 	while (d_byte > r) {
 
 		memcpy((hashval + j), state->s, r);
 
-		KeccakF2((uint64_t *) state->s);
+		KeccakF2((lane64_t *) state->s);
 		j += r;
 		d_byte -= r;
 	}
@@ -506,7 +510,7 @@ HashReturn SHAKE128(const BitSequence *data, DataLength databitlen, BitSequence
 
 	for ( /* empty */; inlen >= r; inlen -= r, tmp += r) {
 		for (j = 0; j < nr; j++) {
-			s[j] = s[j] ^ ((uint64_t *) tmp)[j];
+			s[j] = s[j] ^ ((const lane64_t *) tmp)[j];
 		}
 		KeccakF2(s);
 	}
@@ -518,7 +522,7 @@ HashReturn SHAKE128(const BitSequence *data, DataLength databitlen, BitSequence
 	temp[r - 1] |= 0x80;
 
 	for (j = 0; j < nr; j++) {
-		s[j] = s[j] ^ ((uint64_t *) temp)[j];
+		s[j] = s[j] ^ ((const lane64_t *) temp)[j];
 	}
 	KeccakF2(s);
 
@@ -527,7 +531,7 @@ HashReturn SHAKE128(const BitSequence *data, DataLength databitlen, BitSequence
 
 		memcpy((hashval + j), s, r);
 
-		KeccakF2((uint64_t *) s);
+		KeccakF2(s);
 		j += r;
 		d_byte -= r;
 	}
@@ -555,7 +559,7 @@ HashReturn SHAKE256(const BitSequence *data, DataLength databitlen,
 
 	for ( /* empty */; inlen >= r; inlen -= r, tmp += r) {
 		for (j = 0; j < nr; j++) {
-			s[j] = s[j] ^ ((uint64_t *) tmp)[j];
+			s[j] = s[j] ^ ((const lane64_t *) tmp)[j];
 		}
 		KeccakF2(s);
 	}
@@ -567,7 +571,7 @@ HashReturn SHAKE256(const BitSequence *data, DataLength databitlen,
 	temp[r - 1] |= 0x80;
 
 	for (j = 0; j < nr; j++) {
-		s[j] = s[j] ^ ((uint64_t *) temp)[j];
+		s[j] = s[j] ^ ((const lane64_t *) temp)[j];
 	}
 	KeccakF2(s);
 
@@ -576,7 +580,7 @@ HashReturn SHAKE256(const BitSequence *data, DataLength databitlen,
 
 		memcpy((hashval + j), s, r);
 
-		KeccakF2((uint64_t *) s);
+		KeccakF2(s);
 		j += r;
 		d_byte -= r;
 	}
-- 
2.43.0


From 522cbae3870f285e5e558edab284d5fb2ed24392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 02/29] fix: carries lost in the multi-word scalar multiplier

word64_multiplier propagated the carry of each partial product over one word
only. A run of all-ones words above it (the constant 1/4 mod the Ed448 order
has one) lost the carry, e.g. X448 key generation was wrong for every private
key whose low 49 bytes are zero.
---
 src/bytestring.c | 31 ++++++++++++++++++++++---------
 src/edwards448.c | 12 ++++++------
 src/sign255.c    |  2 +-
 src/sign448.c    |  2 +-
 4 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/bytestring.c b/src/bytestring.c
index 0f9f3dc..08c9c69 100644
--- a/src/bytestring.c
+++ b/src/bytestring.c
@@ -65,31 +65,44 @@ static void deallocate_bytes(void *a) {
 }
 
 /**
+ * Calculates:
+ *     C = C + A*B   (mod 2^(64*numC))
+ * where numC >= numA + numB. Carries are propagated up to the last word of C.
  *
  * @param C
+ * @param numC
  * @param A
  * @param numA
  * @param B
  * @param numB
  */
 static inline void word64_multiplier(
-    uint64_t *C,
+    uint64_t *C, const int numC,
     const uint64_t *A, const int numA,
     const uint64_t *B, const int numB) {
   int i, j;
-#define mul64x64(Z, X, Y)    __asm__ __volatile__ (\
-            "movq 0(%3), %%rax     ;"\
-            "mulq 0(%4)            ;"\
+  uint64_t carry;
+/* (H,Z) = Z + X*Y + H */
+#define mul64x64(Z, H, X, Y)    __asm__ __volatile__ (\
+            "movq %2, %%rax        ;"\
+            "mulq %3               ;"\
+            "addq %1, %%rax        ;"\
+            "adcq $0x0, %%rdx      ;"\
             "addq %%rax, %0        ;"\
-            "adcq %%rdx, %1        ;"\
-            "adcq $0x0,  %2        ;"\
-    :/* out  */ "+r" ((Z)[0]),"+r" ((Z)[1]),"+r" ((Z)[2])\
+            "adcq $0x0, %%rdx      ;"\
+            "movq %%rdx, %1        ;"\
+    :/* out  */ "+&r" (Z),"+&r" (H)\
     :/* in   */ "r" (X),"r" (Y)\
-    :/* regs */ "memory","cc","%rax","%rdx");
+    :/* regs */ "cc","%rax","%rdx")
 
   for (i = 0; i < numA; i++) {
+    carry = 0;
     for (j = 0; j < numB; j++) {
-      mul64x64(C + i + j, A + i, B + j);
+      mul64x64(C[i + j], carry, A[i], B[j]);
+    }
+    for (j = i + numB; j < numC; j++) {
+      C[j] += carry;
+      carry = C[j] < carry;
     }
   }
 #undef mul64x64
diff --git a/src/edwards448.c b/src/edwards448.c
index 53c9743..78d1d3c 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -52,28 +52,28 @@ static inline void modular_reduction_ed448(uint8_t *a) {
 	{
 		product[i] = pA[i];
 	}
-	for(i=7;i<13;i++)
+	for(i=7;i<15;i++)
 	{
 		product[i] = 0;
 	}
 
-	word64_multiplier(product,ellx4,4,high,8);
+	word64_multiplier(product,15,ellx4,4,high,8);
 	for(i=0;i<58;i++)
 	{
 		((uint8_t *)high)[i] = ((uint8_t*)product)[i+56];
 		((uint8_t*)product)[i+56]=0;
 	}
-	word64_multiplier(product,ellx4,4,high,4);
+	word64_multiplier(product,15,ellx4,4,high,4);
 	for(i=0;i<58;i++)
 	{
 		((uint8_t *)high)[i] = ((uint8_t*)product)[i+56];
 		((uint8_t*)product)[i+56]=0;
 	}
-	word64_multiplier(product,ellx4,4,high,1);
+	word64_multiplier(product,15,ellx4,4,high,1);
 
 	high[0] = product[6]>>62;
 	product[6] &= (((uint64_t)1)<<62)-1;
-	word64_multiplier(product,ell,4,high,1);
+	word64_multiplier(product,15,ell,4,high,1);
 	for(i=0;i<56;i++)
 	{
 		a[i] = ((uint8_t*)product)[i];
@@ -108,7 +108,7 @@ static inline void div4(uint8_t * number_div_4,const uint8_t * number) {
 	{
 		((uint8_t*)a)[i] = number[i];
 	}
-	word64_multiplier(product,ifour,7,a,7);
+	word64_multiplier(product,16,ifour,7,a,7);
 	modular_reduction_ed448((uint8_t*)product);
 	for(i=0;i<56;i++)
 	{
diff --git a/src/sign255.c b/src/sign255.c
index b4618ca..24614a5 100644
--- a/src/sign255.c
+++ b/src/sign255.c
@@ -251,7 +251,7 @@ static inline void calculate_s_ed25519(uint8_t *s_mod_l, uint8_t *r, uint8_t *k,
     product[i] = ((uint64_t *) r)[i];
   }
 
-  word64_multiplier(product, (uint64_t *) k, 4, (uint64_t *) a, 4);
+  word64_multiplier(product, 12, (uint64_t *) k, 4, (uint64_t *) a, 4);
   modular_reduction_ed25519((uint8_t *) product);
   for (i = 0; i < 4; i++) {
     ((uint64_t *) s_mod_l)[i] = product[i];
diff --git a/src/sign448.c b/src/sign448.c
index 997e7c8..45f3ee6 100644
--- a/src/sign448.c
+++ b/src/sign448.c
@@ -85,7 +85,7 @@ static inline void calculate_s_ed448(uint8_t *s_mod_l, uint8_t *r, uint8_t *h, u
     product[i] = 0;
   }
 
-  word64_multiplier(product, hh, 7, aa, 7);
+  word64_multiplier(product, 16, hh, 7, aa, 7);
   modular_reduction_ed448((uint8_t *) product);
 
   for (i = 0; i < 56; i++) {
-- 
2.43.0


From 9abb1222cd59ce6acf910ccf9e28194f8eaa2e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:44 +0000
Subject: [PATCH 03/29] fix: canonical reduction modulo the Ed25519 group order

reduce64bits left a negative difference as a wrapped 256-bit value, so
modular_reduction_ed25519 was wrong for residues in [2^252, ell).
---
 src/sign255.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/sign255.c b/src/sign255.c
index 24614a5..3b2ef70 100644
--- a/src/sign255.c
+++ b/src/sign255.c
@@ -184,7 +184,8 @@ static inline void reduce256bits(uint64_t *a) {
  * 		'a' = a_257,a_256,a_255,a_254, ... , a_0
  * calculate:
  * 		'a' = a[252:0] - \ell*a_[257:252]
- * 	'a' could be as large as 252 bits.
+ * 	adding \ell when the difference is negative, thus
+ * 	'a' is the canonical residue, i.e. 0 <= 'a' < \ell.
  */
 static inline void reduce64bits(uint64_t *a) {
   const uint64_t ell[2] = {0x5812631a5cf5d3ed, 0x14def9dea2f79cd6};
@@ -207,13 +208,26 @@ static inline void reduce64bits(uint64_t *a) {
   "sbbq    %%rdx,  %%r8  \n\t"
   "sbbq     $0x0,  %%r9  \n\t"
 
+  "movq    %%r9,  %%rdx  \n\t"
+  "sarq      $63, %%rdx  \n\t"
+  "movq    0(%1), %%rax  \n\t"
+  "movq    8(%1), %%r10  \n\t"
+  "andq    %%rdx, %%rax  \n\t"
+  "andq    %%rdx, %%r10  \n\t"
+  "shrq      $63, %%rdx  \n\t"
+  "shlq      $60, %%rdx  \n\t"
+  "addq    %%rax, %%rbx  \n\t"
+  "adcq    %%r10, %%rcx  \n\t"
+  "adcq     $0x0,  %%r8  \n\t"
+  "adcq    %%rdx,  %%r9  \n\t"
+
   "movq    %%rbx,  0(%0) \n\t"
   "movq    %%rcx,  8(%0) \n\t"
   "movq     %%r8, 16(%0) \n\t"
   "movq     %%r9, 24(%0) \n\t"
   :/* out  */
   :/* in   */ "r" (a), "r" (ell)
-  :/* regs */ "memory", "cc", "%rax", "%rbx", "%rcx", "%rdx", "%r8", "%r9"
+  :/* regs */ "memory", "cc", "%rax", "%rbx", "%rcx", "%rdx", "%r8", "%r9", "%r10"
   );
 }
 
-- 
2.43.0


From 6e6ba34b537789848a8640f8b947641f7902180a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 04/29] fix: bias of the 4-way Edwards subtractions covers the
 largest product

The unreduced products of _1way_mixadd_4w_H0H5 reach 2^60.55 in a single
limb, beyond the 2^60 multiple of p added before the subtraction, so that
about one in ten thousand honest Ed25519 signatures failed to verify.
---
 src/edwards255.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/edwards255.c b/src/edwards255.c
index 9cc99e6..fed6e36 100644
--- a/src/edwards255.c
+++ b/src/edwards255.c
@@ -1198,16 +1198,16 @@ static inline int wnaf_256bits(int8_t *K, const uint8_t *p8_r, int w) {
 }
 
 static const ALIGN uint64_t CONST_2_to_35P_4w[4*NUM_DIGITS_FP25519] = {
-		0xfffffb400000000,0xfffffb400000000,0xfffffb400000000,0xfffffb400000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,0xffffffc00000000,
-		0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000,0x7fffffc00000000
+		0x1fffff6800000000,0x1fffff6800000000,0x1fffff6800000000,0x1fffff6800000000,
+		0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,
+		0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,
+		0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,0x1ffffff800000000,
+		0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000,0x0ffffff800000000
 };
 /**
  * Computes the doubling of ONE point
-- 
2.43.0


From f4dde0baaaefb223332bb966c128ceaeb169627e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:29 +0000
Subject: [PATCH 05/29] fix: Ed25519 verification rejects byte strings that do
 not encode a point

point_decoding_ed25519 never checked that a square root exists, that y is
reduced, or that x = 0 carries no sign (RFC 8032, 5.1.3).
---
 src/edwards255.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/edwards255.c b/src/edwards255.c
index fed6e36..5534e2c 100644
--- a/src/edwards255.c
+++ b/src/edwards255.c
@@ -1081,6 +1081,7 @@ static inline void point_multiplication_ed25519(PointXYZT_2w_H0H5 *rB, uint8_t *
  * 		P = (-x,y)
  * @param P
  * @param A
+ * @return 0 on success, -1 if A does not encode a point (RFC 8032, 5.1.3).
  */
 static inline int point_decoding_ed25519(
     PointXYTZ_4w_H0H5 *P_4w,
@@ -1092,8 +1093,10 @@ static inline int point_decoding_ed25519(
       0x8cc740797779e898,
       0x52036cee2b6ffe73
   };
-  EltFp25519_1w_fullradix X, Y, T, u, v;
+  EltFp25519_1w_fullradix X, Y, T, u, v, y2_1, vx2;
   EltFp25519_1w_fullradix one = {0};
+  EltFp25519_1w_fullradix zero = {0};
+  EltFp25519_1w_fullradix canonical;
   uint8_t bit_X;
 
   one[0] = 1;
@@ -1102,6 +1105,11 @@ static inline int point_decoding_ed25519(
   Fp25519._1w_full.arith.misc.copy(u, (argElement_1w) A);
   u[3] &= ((uint64_t) 1 << 63) - 1;
   Fp25519._1w_full.arith.misc.copy(Y, u);
+  Fp25519._1w_full.arith.misc.ser((uint8_t *) canonical, Y);
+  if (cmp_bytes((uint8_t *) canonical, (uint8_t *) Y, SIZE_FP25519) != 0) {
+    /* y is not reduced modulo p */
+    return -1;
+  }
   /*  u = y^2    */
   Fp25519._1w_full.arith.sqr(u);
   /*  v = dy^2   */
@@ -1110,12 +1118,28 @@ static inline int point_decoding_ed25519(
   Fp25519._1w_full.arith.sub(u, u, one);
   /*  v = dy^2+1 */
   Fp25519._1w_full.arith.add(v, v, one);
+  Fp25519._1w_full.arith.misc.copy(y2_1, u);
   /*  X = sqrt(u/v) */
   invsqrt_Fp255_1w_fullradix(X, u, v);
+  /**
+   * Checking whether
+   *      v*x^2 == y^2-1
+   **/
+  Fp25519._1w_full.arith.misc.copy(vx2, X);
+  Fp25519._1w_full.arith.sqr(vx2);
+  Fp25519._1w_full.arith.mul(vx2, vx2, v);
+  if (Fp25519._1w_full.arith.cmp(vx2, y2_1) != 0) {
+    /* no square root exists */
+    return -1;
+  }
   /*  Checking whether
    *  X is positive or negative
    */
   modp_Fp255_1w_fullradix(X);
+  if (bit_X != 0 && cmp_bytes((uint8_t *) X, (uint8_t *) zero, SIZE_FP25519) == 0) {
+    /* x is zero, it has no negative representative */
+    return -1;
+  }
   if (bit_X == (X[0] & 0x1)) {
     Fp25519._1w_full.arith.neg(X);
   }
-- 
2.43.0


From b9a5e79f57a069cbd9056f8c687eb8f342c9e2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 06/29] fix: Ed25519 verification rejects signatures whose
 scalar is not reduced

RFC 8032, 5.1.7: S must be in the range 0 <= S < L; otherwise every
signature is malleable.
---
 src/sign255.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/sign255.c b/src/sign255.c
index 3b2ef70..f9de650 100644
--- a/src/sign255.c
+++ b/src/sign255.c
@@ -461,6 +461,29 @@ static int ed25519ph_signctx(
                           context, context_length, public_key, private_key, 0, 1);
 }
 
+/**
+ * Determines whether an encoded scalar is canonical, i.e. 0 <= s < \ell.
+ * The scalar is public, since it is part of a signature.
+ *
+ * @param s
+ * @return 1 if s is smaller than the order of the main subgroup, otherwise 0.
+ */
+static inline int is_canonical_scalar_ed25519(const uint8_t *s) {
+  const uint8_t ell[ED25519_KEY_SIZE_BYTES_PARAM] = {
+      0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58,
+      0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+      0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
+      0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x10
+  };
+  int i;
+  for (i = ED25519_KEY_SIZE_BYTES_PARAM - 1; i >= 0; i--) {
+    if (s[i] != ell[i]) {
+      return s[i] < ell[i];
+    }
+  }
+  return 0;
+}
+
 /**
  *
  * @param message
@@ -501,6 +524,10 @@ static inline int ed25519_verify_all(
   if(point_decoding_ed25519(&A, NULL, (uint8_t *) public_key)!=0)
     return EDDSA_ERROR_PUBLICKEY;
 
+  if (!is_canonical_scalar_ed25519(signature + ED25519_KEY_SIZE_BYTES_PARAM)) {
+    return EDDSA_INVALID_SIGNATURE;
+  }
+
   sph_sha512_init(&hash_context);
   if (pureEdDSA == 0) {
     sph_sha512(&hash_context, prefix, 34);
-- 
2.43.0


From cb712ef4412f606a52fc0e5b1a491a4bc81384d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 07/29] fix: Ed448 verification rejects signatures whose scalar
 is not reduced

RFC 8032, 5.2.7: S must be in the range 0 <= S < L, which includes its
last octet being zero; otherwise every signature is malleable.
---
 src/sign448.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/sign448.c b/src/sign448.c
index 45f3ee6..e9a9b6c 100644
--- a/src/sign448.c
+++ b/src/sign448.c
@@ -241,6 +241,33 @@ static int ed448ph_signctx(
   return ed448_sign_all(signature, message, message_length, context, context_length, public_key, private_key, 1);
 }
 
+/**
+ * Determines whether an encoded scalar is canonical, i.e. 0 <= s < \ell.
+ * The scalar is public, since it is part of a signature.
+ *
+ * @param s
+ * @return 1 if s is smaller than the order of the main subgroup, otherwise 0.
+ */
+static inline int is_canonical_scalar_ed448(const uint8_t *s) {
+  const uint8_t ell[ED448_KEY_SIZE_BYTES_PARAM] = {
+      0xf3, 0x44, 0x58, 0xab, 0x92, 0xc2, 0x78, 0x23,
+      0x55, 0x8f, 0xc5, 0x8d, 0x72, 0xc2, 0x6c, 0x21,
+      0x90, 0x36, 0xd6, 0xae, 0x49, 0xdb, 0x4e, 0xc4,
+      0xe9, 0x23, 0xca, 0x7c, 0xff, 0xff, 0xff, 0xff,
+      0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+      0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
+      0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x3f,
+      0x00
+  };
+  int i;
+  for (i = ED448_KEY_SIZE_BYTES_PARAM - 1; i >= 0; i--) {
+    if (s[i] != ell[i]) {
+      return s[i] < ell[i];
+    }
+  }
+  return 0;
+}
+
 /**
  *
  * @param message
@@ -297,6 +324,10 @@ static int ed448_verify_all(
     return EDDSA_ERROR_PUBLICKEY;
   }
 
+  if (!is_canonical_scalar_ed448(signature + ED448_KEY_SIZE_BYTES_PARAM)) {
+    return EDDSA_INVALID_SIGNATURE;
+  }
+
   double_point_mult_4w_ed448(Q, signature + ED448_KEY_SIZE_BYTES_PARAM, H_RAM, &A);
   return (memcmp(signature, Q, ED448_KEY_SIZE_BYTES_PARAM) == 0) ? EDDSA_VERIFICATION_OK : EDDSA_INVALID_SIGNATURE;
 }
-- 
2.43.0


From 83355375334febccfcd4605f138bb9ab13a28698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 08/29] fix: Ed448 point decoding follows RFC 8032, 5.2.3

Reject y >= p (including the low bits of the last octet) and x = 0 with
the sign bit set, take the sign from the reduced x, and subtract one in
the field: decrementing the lowest limb wrapped around when it was zero.
---
 src/edwards448.c | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/edwards448.c b/src/edwards448.c
index 78d1d3c..15f3b12 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -766,7 +766,7 @@ static inline void fixed_point_multiplication_ed448(PointXYZT_2w_H0H8 * rB, uint
  * 		P = (-x,y)
  * @param P
  * @param A
- * @return
+ * @return 0 on success, -1 if A does not encode a point (RFC 8032, 5.2.3).
  */
 static int point_decoding_ed448(
     PointXYTZ_4w_H0H8 * P_4w,
@@ -791,20 +791,34 @@ static int point_decoding_ed448(
   EltFp448_1w_redradix a, b, c, d;
   EltFp448_1w_redradix u, v, v2;
   EltFp448_1w_redradix uv, u2, u3v, u5v, u5v3, u5v3_exp;
+  EltFp448_1w_redradix one, zero;
   Ed448_PublicKey buf;
+  ALIGN uint8_t canonical[SIZE_FP448];
 
   memcpy(buf, A, ED448_KEY_SIZE_BYTES_PARAM);
-  int8_t bit_X = buf[ED448_KEY_SIZE_BYTES_PARAM - 1] >> 7;
+  unsigned bit_X = buf[ED448_KEY_SIZE_BYTES_PARAM - 1] >> 7;
 
-  buf[ED448_KEY_SIZE_BYTES_PARAM - 1] &= 0x7F;
+  if ((buf[ED448_KEY_SIZE_BYTES_PARAM - 1] & 0x7F) != 0) {
+    /* y is larger than 2^448 */
+    return -1;
+  }
   Fp448._1w_red.arith.misc.unser(Y, buf);
-  buf[ED448_KEY_SIZE_BYTES_PARAM - 1] |= bit_X << 7;
+  Fp448._1w_red.arith.misc.ser(canonical, Y);
+  if (memcmp(canonical, buf, SIZE_FP448) != 0) {
+    /* y is not reduced modulo p */
+    return -1;
+  }
+  Fp448._1w_red.arith.misc.zero(zero);
+  Fp448._1w_red.arith.misc.zero(one);
+  one[0] = 1;
 
   Fp448._1w_red.arith.misc.copy(u, Y);
   Fp448._1w_red.arith.sqr(u);  /* y^2 */
   Fp448._1w_red.arith.mul(v, u, (argElement_1w) param_curve_d);/* dy^2 */
-  u[0] = u[0] - 1;  /* u=y^2-1 */
-  v[0] = v[0] - 1;  /* v=dy^2-1 */
+  Fp448._1w_red.arith.sub(u, u, one);  /* u=y^2-1 */
+  Fp448._1w_red.arithex.compressfast(u);
+  Fp448._1w_red.arith.sub(v, v, one);  /* v=dy^2-1 */
+  Fp448._1w_red.arithex.compressfast(v);
 
   Fp448._1w_red.arith.mul(uv, u, v);      /* uv */
   Fp448._1w_red.arith.misc.copy(u2, u);
@@ -835,7 +849,12 @@ static int point_decoding_ed448(
    * Checking whether
    *      X is positive or negative
    **/
-  if ((unsigned) bit_X != (X[0] & 0x1)) {
+  if (bit_X != 0 && Fp448._1w_red.arith.cmp(X, zero) == 0) {
+    /* x is zero, it has no negative representative */
+    return -1;
+  }
+  Fp448._1w_red.arith.misc.ser(canonical, X);
+  if (bit_X != (canonical[0] & 0x1u)) {
     Fp448._1w_red.arith.neg(X);
     Fp448._1w_red.arithex.compressfast(X);
   }
-- 
2.43.0


From 0dbe090cf8a9d1d306a691621477298c2734c9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 09/29] fix: bias of the 4-way Ed448 mixed addition covers the
 largest product

Unreduced products reach 2^62.83 per limb, beyond the 2^62 multiple of p
that was added before subtracting them; public keys of small order made
verification fail on about one in four thousand messages.
---
 src/edwards448.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/edwards448.c b/src/edwards448.c
index 15f3b12..9a7336a 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -501,15 +501,24 @@ static inline void _1way_doubling_2w_H0H8(PointXYZT_2w_H0H8 * P) {
 static inline void _1way_mixadd_4w_H0H8(PointXYTZ_4w_H0H8 * Q, PointXYTZ_precompute_4w_H0H8 * P) {
   int i;
   EltFp448_4w_redradix ABCD, subYX_addYX_T_Z;
-  const __m256i CONST_2_to_34P[NUM_DIGITS_FP448] = {
-      SET164(0x3ffffffc00000000), SET164(0x3ffffff800000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000),
-      SET164(0x3ffffffc00000000), SET164(0x3ffffffc00000000)
+  /* Only the differences, i.e. the outermost lanes, need the multiple of p. */
+  const __m256i CONST_2_to_35P[NUM_DIGITS_FP448] = {
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff000000000, 0, 0, 0x7ffffff000000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000),
+      SET64(0x7ffffff800000000, 0, 0, 0x7ffffff800000000)
   };
 
   const __m256i CONST_2P_00_00_00[NUM_DIGITS_FP448] = {
@@ -523,7 +532,7 @@ static inline void _1way_mixadd_4w_H0H8(PointXYTZ_4w_H0H8 * Q, PointXYTZ_precomp
       SET64(0, 0, 0, 0x1ffffffe), SET64(0, 0, 0, 0x1ffffffe)
   };
 
-  argElement_4w _2_to_34P = (argElement_2w) CONST_2_to_34P;
+  argElement_4w _2_to_35P = (argElement_4w) CONST_2_to_35P;
   argElement_4w _2P_00_00_00 = (argElement_2w) CONST_2P_00_00_00;
   argElement_4w XYTZ = Q->XYTZ;
   argElement_4w EGHF = subYX_addYX_T_Z;
@@ -543,7 +552,7 @@ static inline void _1way_mixadd_4w_H0H8(PointXYTZ_4w_H0H8 * Q, PointXYTZ_precomp
   for (i = 0; i < NUM_DIGITS_FP448; i++) {
     __m256i BDBD = PERM64(ABCD[i], 0xDD);
     __m256i ACAC = PERM64(ABCD[i], 0x88);
-    EGHF[i] = ADD(ADD(BDBD, _2_to_34P[i]), SUB(XOR(ACAC, mask_subadd2), mask_subadd2));
+    EGHF[i] = ADD(ADD(BDBD, _2_to_35P[i]), SUB(XOR(ACAC, mask_subadd2), mask_subadd2));
   }
   Fp448._4w_red.arithex.compress(EGHF);
 
-- 
2.43.0


From dde5c27116a8cec5f5ed1c998ae250b18fcd1df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:56 +0000
Subject: [PATCH 10/29] fix: Fp448 serialization propagates the carry of the
 last folding

The excess over 2^448 was added to two words without propagating their
carries, so elements such as 2p-1 were encoded (and compared) wrongly.
---
 src/eltfp448_1w_redradix.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/eltfp448_1w_redradix.c b/src/eltfp448_1w_redradix.c
index 26fecfa..ab6cb27 100644
--- a/src/eltfp448_1w_redradix.c
+++ b/src/eltfp448_1w_redradix.c
@@ -402,7 +402,7 @@ DECL(void, ser)(uint8_t *buf, argElement_1w puA) {
 	* It only accepts positive coefficients.
 	* In order to remove negative coefficients, compute compress()
 	*/
-  int i;
+  int i, j;
   int64_t *pA = (int64_t*)puA;
   __int128_t a[NUM_DIGITS_FP448];
   __int128_t c[NUM_DIGITS_FP448_X64];
@@ -426,9 +426,24 @@ DECL(void, ser)(uint8_t *buf, argElement_1w puA) {
   c[5] = (c[4]>>64) + (a[11]<<(16+BASE_FP448))  + (a[9 ]<<16);
   c[6] = (c[5]>>64) + (a[15]<<(8+BASE_FP448))   + (a[13]<<8);
 
-  tmp = (c[6]>>64);
-  c[0] += tmp;
-  c[3] += tmp<<(4+BASE_FP448);
+  /**
+   * Folding the excess over 2^448 may produce a carry out of any word,
+   * including the last one.
+   */
+  for(j=0;j<2;j++)
+  {
+    tmp = (c[6]>>64);
+    for(i=0;i<NUM_DIGITS_FP448_X64;i++)
+    {
+      c[i] = (__int128_t)(uint64_t)c[i];
+    }
+    c[0] += tmp;
+    c[3] += tmp<<(4+BASE_FP448);
+    for(i=1;i<NUM_DIGITS_FP448_X64;i++)
+    {
+      c[i] += c[i-1]>>64;
+    }
+  }
 
   for(i=0;i<NUM_DIGITS_FP448_X64;i++)
   {
-- 
2.43.0


From 0a7f8b465ccd4dbdbc0b24acef8c3aa458e7c51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:50 +0000
Subject: [PATCH 11/29] fix: word offsets of the double-width Fp448 operations

The second element of intmul2, intsqr2 and reduce2 was addressed with
SIZE_FP448 (56, a byte count) as a count of 64-bit words, and reduce2
had the strides of its operands exchanged.
---
 src/eltfp448_1w_fullradix.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/eltfp448_1w_fullradix.c b/src/eltfp448_1w_fullradix.c
index 2fc565e..38a751e 100644
--- a/src/eltfp448_1w_fullradix.c
+++ b/src/eltfp448_1w_fullradix.c
@@ -863,17 +863,17 @@ DECL(void, reduce)(argElement_1w c, argElement_1w a) {
 
 DECL(void, intmul2_mulxadx)(argElement_1w c, argElement_1w a, argElement_1w b)  {
   FN(intmul_mulxadx)(c,a,b);
-  FN(intmul_mulxadx)(c+2*SIZE_FP448,a+SIZE_FP448,b+SIZE_FP448);
+  FN(intmul_mulxadx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64,b+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intmul2_mulx)(argElement_1w c, argElement_1w a, argElement_1w b) {
   FN(intmul_mulx)(c,a,b);
-  FN(intmul_mulx)(c+2*SIZE_FP448,a+SIZE_FP448,b+SIZE_FP448);
+  FN(intmul_mulx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64,b+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intmul2_mulq)(argElement_1w c, argElement_1w a, argElement_1w b) {
   FN(intmul_mulq)(c,a,b);
-  FN(intmul_mulq)(c+2*SIZE_FP448,a+SIZE_FP448,b+SIZE_FP448);
+  FN(intmul_mulq)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64,b+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intmul2)(argElement_1w c, argElement_1w a, argElement_1w b) {
@@ -890,17 +890,17 @@ DECL(void, intmul2)(argElement_1w c, argElement_1w a, argElement_1w b) {
 
 DECL(void, intsqr2_mulxadx)(argElement_1w c, argElement_1w a) {
   FN(intsqr_mulxadx)(c,a);
-  FN(intsqr_mulxadx)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(intsqr_mulxadx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intsqr2_mulx)(argElement_1w c, argElement_1w a) {
   FN(intsqr_mulx)(c,a);
-  FN(intsqr_mulx)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(intsqr_mulx)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intsqr2_mulq)(argElement_1w c, argElement_1w a) {
   FN(intsqr_mulq)(c,a);
-  FN(intsqr_mulq)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(intsqr_mulq)(c+2*NUM_DIGITS_FP448_X64,a+NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, intsqr2)(argElement_1w c, argElement_1w a) {
@@ -917,12 +917,12 @@ DECL(void, intsqr2)(argElement_1w c, argElement_1w a) {
 
 DECL(void, reduce2_adx)(argElement_1w c, argElement_1w a) {
   FN(reduce_adx)(c,a);
-  FN(reduce_adx)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(reduce_adx)(c+NUM_DIGITS_FP448_X64,a+2*NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, reduce2_leg)(argElement_1w c, argElement_1w a) {
   FN(reduce_leg)(c,a);
-  FN(reduce_leg)(c+2*SIZE_FP448,a+SIZE_FP448);
+  FN(reduce_leg)(c+NUM_DIGITS_FP448_X64,a+2*NUM_DIGITS_FP448_X64);
 }
 
 DECL(void, reduce2)(argElement_1w c, argElement_1w a) {
-- 
2.43.0


From 22835309375be4030968116ae35f9df7bcfe7ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 12/29] fix: Fp25519 reduced-radix serialization propagates the
 carry of the fold

---
 src/eltfp25519_1w_redradix.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eltfp25519_1w_redradix.c b/src/eltfp25519_1w_redradix.c
index b2e733e..ac5e968 100644
--- a/src/eltfp25519_1w_redradix.c
+++ b/src/eltfp25519_1w_redradix.c
@@ -411,6 +411,11 @@ DECL(void, ser)(uint8_t *buf, argElement_1w a) {
   "xorl  %%ecx, %%ecx ;"
   "addq  %%rax,  %%r8 ;"
   "adcq  %%rcx,  %%r9 ;"
+  "adcq     $0, %%r10 ;"
+  "adcq     $0, %%r11 ;"
+  "movl    $38, %%eax ;"
+  "cmovncq %%rcx, %%rax ;"
+  "addq  %%rax,  %%r8 ;"
 
   "movq  %%r8,   (%0) ;"
   "movq  %%r9,  8(%0) ;"
-- 
2.43.0


From d77870f96c39c5cbb20c460376500fd74a2d5c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:39 +0000
Subject: [PATCH 13/29] fix: Fp448 one-way squaring returns a compressed
 element

---
 src/eltfp448_1w_redradix.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eltfp448_1w_redradix.c b/src/eltfp448_1w_redradix.c
index ab6cb27..5adcca2 100644
--- a/src/eltfp448_1w_redradix.c
+++ b/src/eltfp448_1w_redradix.c
@@ -676,6 +676,7 @@ DECL(void, mul)(argElement_1w c, argElement_1w a, argElement_1w b) {
 
 DECL(void, sqr)(argElement_1w c) {
   FN(sqrn)(c, 1);
+  FN(compress)(c);
 }
 
 DECL(void, copy)(argElement_1w c, argElement_1w a) {
-- 
2.43.0


From c943b7205e1d86af3b3c5df9228bf21371bd61a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 14/29] fix: Fp25519 four-way negation negates all four lanes

---
 src/fp255.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp255.c b/src/fp255.c
index 8fe2fce..7ec4d7f 100644
--- a/src/fp255.c
+++ b/src/fp255.c
@@ -138,7 +138,7 @@ const PrimeField Fp25519 = {
             .add = SUFFIX(add,4,redradix),
             .cmp = SUFFIX(cmp,4,redradix),
             .mul = SUFFIX(mul,4,redradix),
-            .neg = SUFFIX(neg,2,redradix),
+            .neg = SUFFIX(neg,4,redradix),
             .ngz = SUFFIX(ngz,4,redradix),
             .sqr = SUFFIX(sqr,4,redradix),
             .srt = SUFFIX(srt,4,redradix),
-- 
2.43.0


From f1d67b8082076a6c9a2a5a87e9fd05bd3db38165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 15/29] fix: Fp25519 reduced-radix comparison detects every
 difference

---
 src/eltfp25519_1w_redradix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eltfp25519_1w_redradix.c b/src/eltfp25519_1w_redradix.c
index ac5e968..be4441a 100644
--- a/src/eltfp25519_1w_redradix.c
+++ b/src/eltfp25519_1w_redradix.c
@@ -439,7 +439,7 @@ DECL(int, cmp)(argElement_1w a, argElement_1w b) {
   ALIGN uint8_t b_bytes[SIZE_FP25519];
   FN(ser)(a_bytes, a);
   FN(ser)(b_bytes, b);
-  return cmp_bytes(a_bytes, b_bytes, SIZE_FP25519) & 0x1;
+  return cmp_bytes(a_bytes, b_bytes, SIZE_FP25519) != 0;
 }
 
 DECL(void, cmv)(int bit, argElement_1w c, argElement_1w a, argElement_1w b) {
-- 
2.43.0


From a4eac03cee0fb867654df2faadf4ffd344a9e5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:52 +0000
Subject: [PATCH 16/29] fix: Fp25519 square roots check the root against the
 numerator they were given

---
 src/eltfp25519_1w_fullradix.c |  4 +++-
 src/eltfp25519_1w_redradix.c  |  4 +++-
 src/eltfp25519_4w_redradix.c  | 15 +++++++++++----
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/eltfp25519_1w_fullradix.c b/src/eltfp25519_1w_fullradix.c
index de0dc1d..52a5d68 100644
--- a/src/eltfp25519_1w_fullradix.c
+++ b/src/eltfp25519_1w_fullradix.c
@@ -1516,7 +1516,9 @@ DECL(void, invsqrt)(argElement_1w uv_p38, argElement_1w u, argElement_1w v) {
 #undef sqrn_Fp255_1w_fullradix
 
 DECL(void, srt)(argElement_1w c, argElement_1w a) {
-  FN(invsqrt)(c, c, a);
+  EltFp25519_1w_fullradix u;
+  FN(copy)(u, c);
+  FN(invsqrt)(c, u, a);
 }
 
 DECL(void, mula24_mulx)(argElement_1w c, argElement_1w a) {
diff --git a/src/eltfp25519_1w_redradix.c b/src/eltfp25519_1w_redradix.c
index be4441a..567001a 100644
--- a/src/eltfp25519_1w_redradix.c
+++ b/src/eltfp25519_1w_redradix.c
@@ -806,7 +806,9 @@ DECL(void, invsqrt)(argElement_1w uv_p38, argElement_1w u, argElement_1w v) {
 }
 
 DECL(void, srt)(argElement_1w c, argElement_1w a) {
-  FN(invsqrt)(c, c, a);
+  EltFp25519_1w_redradix u;
+  FN(copy)(u, c);
+  FN(invsqrt)(c, u, a);
 }
 
 DECL(void, rand)(argElement_1w a) {
diff --git a/src/eltfp25519_4w_redradix.c b/src/eltfp25519_4w_redradix.c
index cc68d79..4bd378d 100644
--- a/src/eltfp25519_4w_redradix.c
+++ b/src/eltfp25519_4w_redradix.c
@@ -814,6 +814,8 @@ DECL(void, invsqrt)(argElement_4w uv_p38, argElement_4w u, argElement_4w v) {
   };
   EltFp25519_4w_redradix v2, uv, uv3, uv7, x2, x9, sqrt;
   argElement_4w Tab[4];
+  __m256i mask;
+  int i = 0;
 
   FN(mul)(uv, u, v);     /* uv */
   FN(copy)(v2, v);
@@ -883,13 +885,18 @@ DECL(void, invsqrt)(argElement_4w uv_p38, argElement_4w u, argElement_4w v) {
   FN(mul)(uv, uv3, v); /* v*B^2 */
   FN(neg)(u);
 
-  // if (FN(cmp)(uv, u) == ZERO) {
-    FN(mul)(uv_p38, uv_p38, sqrt_minus_one);/* (√-1)*B */
-  // }
+  /* (√-1)*B in the lanes where the check succeeds */
+  mask = _mm256_cmpeq_epi64(FN(cmp)(uv, u), ZERO);
+  FN(mul)(uv, uv_p38, sqrt_minus_one);
+  for (i = 0; i < NUM_DIGITS_FP25519; i++) {
+    uv_p38[i] = _mm256_blendv_epi8(uv_p38[i], uv[i], mask);
+  }
 }
 
 DECL(void, srt)(argElement_4w c, argElement_4w a) {
-  FN(invsqrt)(c, c, a);
+  EltFp25519_4w_redradix u;
+  FN(copy)(u, c);
+  FN(invsqrt)(c, u, a);
 }
 
 DECL(argElement_4w,alloc)(void) {
-- 
2.43.0


From 02365df8c9518cedaded626d30968305aa970b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:06 +0000
Subject: [PATCH 17/29] fix: inversion accepts the same element as input and
 output

---
 src/eltfp25519_1w_fullradix.c | 6 ++++--
 src/eltfp25519_1w_redradix.c  | 6 ++++--
 src/eltfp448_1w_fullradix.c   | 6 ++++--
 src/eltfp448_1w_redradix.c    | 6 ++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/eltfp25519_1w_fullradix.c b/src/eltfp25519_1w_fullradix.c
index 52a5d68..d9a93b9 100644
--- a/src/eltfp25519_1w_fullradix.c
+++ b/src/eltfp25519_1w_fullradix.c
@@ -1378,7 +1378,7 @@ DECL(void, sqr)(argElement_1w a) {
   }
 
 DECL(void, inv)(argElement_1w c, argElement_1w a) {
-  EltFp25519_1w_fullradix x0, x1, x2;
+  EltFp25519_1w_fullradix x0, x1, x2, x;
   argElement_1w T[5];
   int counter ;
 
@@ -1386,7 +1386,9 @@ DECL(void, inv)(argElement_1w c, argElement_1w a) {
   T[1] = c; /* x^(-1) */
   T[2] = x1;
   T[3] = x2;
-  T[4] = a; /* x */
+  T[4] = x; /* x, copied since c may be a */
+
+  FN(copy)(x, a);
 
   FN(copy)(T[1], T[4]);
   sqrn_Fp255_1w_fullradix(T[1], 1);
diff --git a/src/eltfp25519_1w_redradix.c b/src/eltfp25519_1w_redradix.c
index 567001a..be6afe8 100644
--- a/src/eltfp25519_1w_redradix.c
+++ b/src/eltfp25519_1w_redradix.c
@@ -669,14 +669,16 @@ DECL(void, copy)(argElement_1w c, argElement_1w a) {
 }
 
 DECL(void, inv)(argElement_1w c, argElement_1w a) {
-  EltFp25519_1w_redradix x0, x1, x2;
+  EltFp25519_1w_redradix x0, x1, x2, x;
   argElement_1w T[5];
 
   T[0] = x0;
   T[1] = c; /* x^(-1) */
   T[2] = x1;
   T[3] = x2;
-  T[4] = a; /* x */
+  T[4] = x; /* x, copied since c may be a */
+
+  FN(copy)(x, a);
 
   FN(copy)(T[1], T[4]);
   FN(sqrn)(T[1], 1);
diff --git a/src/eltfp448_1w_fullradix.c b/src/eltfp448_1w_fullradix.c
index 38a751e..e69b9cb 100644
--- a/src/eltfp448_1w_fullradix.c
+++ b/src/eltfp448_1w_fullradix.c
@@ -1078,13 +1078,15 @@ DECL(void, sqrn)(argElement_1w a, unsigned int times) {
 }
 
 DECL(void, invsqrt)(argElement_1w c, argElement_1w a, const int only_inverse) {
-  EltFp448_1w_fullradix x0, x1;
+  EltFp448_1w_fullradix x0, x1, x;
   argElement_1w T[4];
 
   T[0] = x0;
   T[1] = c;
   T[2] = x1;
-  T[3] = a;
+  T[3] = x; /* a copy, since c may be a */
+
+  FN(copy)(x, a);
 
   FN(copy)(T[1], T[3]);
   FN(sqrn)(T[1], 1);
diff --git a/src/eltfp448_1w_redradix.c b/src/eltfp448_1w_redradix.c
index 5adcca2..4a7397b 100644
--- a/src/eltfp448_1w_redradix.c
+++ b/src/eltfp448_1w_redradix.c
@@ -687,13 +687,15 @@ DECL(void, copy)(argElement_1w c, argElement_1w a) {
 }
 
 DECL(void, invsqrt)(argElement_1w c, argElement_1w a, const int only_inverse) {
-  EltFp448_1w_redradix x0, x1;
+  EltFp448_1w_redradix x0, x1, x;
   argElement_1w T[4];
 
   T[0] = x0;
   T[1] = c;
   T[2] = x1;
-  T[3] = a;
+  T[3] = x; /* a copy, since c may be a */
+
+  FN(copy)(x, a);
 
   FN(copy)(T[1], T[3]);
   FN(sqrn)(T[1], 1);
-- 
2.43.0


From a639ffd56fe8842599ff66edaefebc19a4764ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:38 +0000
Subject: [PATCH 18/29] fix: four-way addition-subtraction accepts an input as
 output

---
 src/eltfp25519_4w_redradix.c | 5 +++--
 src/eltfp448_4w_redradix.c   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/eltfp25519_4w_redradix.c b/src/eltfp25519_4w_redradix.c
index 4bd378d..964a73e 100644
--- a/src/eltfp25519_4w_redradix.c
+++ b/src/eltfp25519_4w_redradix.c
@@ -194,8 +194,9 @@ DECL(void, addsub)(argElement_4w  C,argElement_4w  D, argElement_4w  A, argEleme
 	int i=0;
 	for(i=0;i<NUM_DIGITS_FP25519;i++)
 	{
-		C[i] = ADD(A[i],B[i]);
-		D[i] = ADD(A[i],SUB(_2P[i],B[i]));
+		const __m256i a = A[i], b = B[i]; /* C or D may be A or B */
+		C[i] = ADD(a,b);
+		D[i] = ADD(a,SUB(_2P[i],b));
 	}
 }
 
diff --git a/src/eltfp448_4w_redradix.c b/src/eltfp448_4w_redradix.c
index 67cf7f1..35d8fe4 100644
--- a/src/eltfp448_4w_redradix.c
+++ b/src/eltfp448_4w_redradix.c
@@ -230,8 +230,9 @@ DECL(void, addsub)(argElement_4w  C,argElement_4w  D, argElement_4w  A, argEleme
 	int i=0;
 	for(i=0;i<NUM_DIGITS_FP448;i++)
 	{
-		C[i] = ADD(A[i],B[i]);
-		D[i] = ADD(A[i],SUB(_2P[i],B[i]));
+		const __m256i a = A[i], b = B[i]; /* C or D may be A or B */
+		C[i] = ADD(a,b);
+		D[i] = ADD(a,SUB(_2P[i],b));
 	}
 }
 
-- 
2.43.0


From cfbf22548811b506fb293812b153cc56a465903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:51 +0000
Subject: [PATCH 19/29] fix: two-way doubling of points whose squares have
 maximal limbs

The negated sum -(A+B) was computed as 2p-A-B, which is negative in a limb
when A and B are both (close to) p, e.g. doubling the identity twice.
---
 src/eltfp25519_2w_redradix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eltfp25519_2w_redradix.c b/src/eltfp25519_2w_redradix.c
index 60f8b7b..419bb4e 100644
--- a/src/eltfp25519_2w_redradix.c
+++ b/src/eltfp25519_2w_redradix.c
@@ -711,7 +711,7 @@ DECL(void, naddsub)(argElement_2w C, argElement_2w D,argElement_2w A, argElement
   for(i=0;i<(NUM_DIGITS_FP25519/2);i++)
   {
     __m256i T = SUB(_2P[i],A[i]);
-    C[i] = SUB(T,B[i]);
+    C[i] = ADD(T,SUB(_2P[i],B[i]));
     D[i] = ADD(T,B[i]);
   }
 }
-- 
2.43.0


From 7f47d140bd2ca36a2a6a3135140e1f820f53ac74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:51 +0000
Subject: [PATCH 20/29] fix: SHA-3 digests write only the digest length

Final copied a whole block (rate bytes) to the caller's digest buffer.
---
 third_party/sha3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third_party/sha3.c b/third_party/sha3.c
index 275568a..3e40fde 100644
--- a/third_party/sha3.c
+++ b/third_party/sha3.c
@@ -435,7 +435,7 @@ HashReturn Final(hashState *state, BitSequence *hashval) {
 
 	KeccakF2((lane64_t *) state->s);
 
-	memcpy(hashval, state->s, state->r / 8);
+	memcpy(hashval, state->s, state->hashbitlen / 8);
 
 	return SUCCESS;
 }
-- 
2.43.0


From 1d3a296578fbc4c388bf9469099d78a1c9dcbfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:21 +0000
Subject: [PATCH 21/29] fix: two-way SHA-512 hashes messages of 4 GiB and more

The length was taken as unsigned int, so hash to curve (AVX2) hashed a
truncated message where the x64 implementation hashes the whole one.
---
 third_party/multi_hash.h  | 3 ++-
 third_party/sha512_2way.c | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/third_party/multi_hash.h b/third_party/multi_hash.h
index 2556105..3fb30c2 100644
--- a/third_party/multi_hash.h
+++ b/third_party/multi_hash.h
@@ -1,6 +1,7 @@
 #ifndef MULTI_HASH_H
 #define MULTI_HASH_H
 
+#include <stddef.h>
 #include <stdint.h>
 #include <immintrin.h>
 
@@ -76,7 +77,7 @@
 :/* in   */ "r" (Y)\
 :/* regs */);
 
-void sha512_2w_avx(uint8_t *message_2x[2], unsigned int message_length, uint8_t *digest_2x[2]);
+void sha512_2w_avx(uint8_t *message_2x[2], size_t message_length, uint8_t *digest_2x[2]);
 
 ALIGN static const uint64_t KSHA512[80] =
 {
diff --git a/third_party/sha512_2way.c b/third_party/sha512_2way.c
index b22d99e..2219ca7 100644
--- a/third_party/sha512_2way.c
+++ b/third_party/sha512_2way.c
@@ -265,17 +265,17 @@ void sha512_2w_avx_256b(uint8_t *message_2x[2], uint8_t *digest_2x[2])
     }
 }
 
-void sha512_2w_avx(uint8_t *message_2x[2], unsigned int message_length_bytes, uint8_t *digest_2x[2])
+void sha512_2w_avx(uint8_t *message_2x[2], size_t message_length_bytes, uint8_t *digest_2x[2])
 {
     const __m128i big_endian = _mm_set_epi64x(0x08090a0b0c0d0e0f,0x0001020304050607);
-    const unsigned int num_blocks = message_length_bytes>>7;
-    const unsigned int remainder_bytes = message_length_bytes-(num_blocks<<7);
+    const size_t num_blocks = message_length_bytes>>7;
+    const size_t remainder_bytes = message_length_bytes-(num_blocks<<7);
     const __uint128_t mlen_bits = (__uint128_t)message_length_bytes*8;
     ALIGN __m128i state[8];
     ALIGN __m128i block[80];
     ALIGN uint8_t buffer[BLOCK_SIZE_BYTES*NUM_MSG] = {0};
     int i=0,msg=0;
-    unsigned int b=0;
+    size_t b=0;
 
     initialize(state);
     for(b=0;b<num_blocks;b++)
-- 
2.43.0


From 13f3b1cd017edef01e7e05fa412affd91860634e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:47 +0000
Subject: [PATCH 22/29] fix: full-radix comparison and parity leave their
 operands unchanged

They reduced the caller's elements in place, so comparing two points or
elements wrote to memory the caller passed only to be read.
---
 src/eltfp25519_1w_fullradix.c | 15 ++++++++++-----
 src/eltfp448_1w_fullradix.c   | 15 ++++++++++-----
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/eltfp25519_1w_fullradix.c b/src/eltfp25519_1w_fullradix.c
index d9a93b9..9e94eb2 100644
--- a/src/eltfp25519_1w_fullradix.c
+++ b/src/eltfp25519_1w_fullradix.c
@@ -832,14 +832,19 @@ DECL(void, unser)(argElement_1w c, uint8_t *buffer) {
 }
 
 DECL(int, sgn)(argElement_1w c) {
-  FN(modp)(c);
-  return c[0]&0x1;
+  EltFp25519_1w_fullradix t;
+  FN(copy)(t, c);
+  FN(modp)(t);
+  return t[0]&0x1;
 }
 
 DECL(int, cmp)(argElement_1w a, argElement_1w b) {
-  FN(modp)(a);
-  FN(modp)(b);
-  return cmp_bytes((uint8_t *) a, (uint8_t *) b, SIZE_FP25519);
+  EltFp25519_1w_fullradix s, t;
+  FN(copy)(s, a);
+  FN(copy)(t, b);
+  FN(modp)(s);
+  FN(modp)(t);
+  return cmp_bytes((uint8_t *) s, (uint8_t *) t, SIZE_FP25519);
 }
 
 DECL(void, print)(FILE *file, argElement_1w a) {
diff --git a/src/eltfp448_1w_fullradix.c b/src/eltfp448_1w_fullradix.c
index e69b9cb..0a68e70 100644
--- a/src/eltfp448_1w_fullradix.c
+++ b/src/eltfp448_1w_fullradix.c
@@ -157,8 +157,10 @@ DECL(void, modp)(argElement_1w c) {
 }
 
 DECL(int, sgn)(argElement_1w c) {
-  FN(modp)(c);
-  return c[0]&0x1;
+  EltFp448_1w_fullradix t;
+  FN(copy)(t, c);
+  FN(modp)(t);
+  return t[0]&0x1;
 }
 
 DECL(void, ser)(uint8_t *buffer, argElement_1w c) {
@@ -172,9 +174,12 @@ DECL(void, unser)(argElement_1w c, uint8_t *buffer) {
 }
 
 DECL(int, cmp)(argElement_1w a, argElement_1w b) {
-  FN(modp)(a);
-  FN(modp)(b);
-  return cmp_bytes((uint8_t *) a, (uint8_t *) b, SIZE_FP448);
+  EltFp448_1w_fullradix s, t;
+  FN(copy)(s, a);
+  FN(copy)(t, b);
+  FN(modp)(s);
+  FN(modp)(t);
+  return cmp_bytes((uint8_t *) s, (uint8_t *) t, SIZE_FP448);
 }
 
 DECL(void, print)(FILE *file, argElement_1w a) {
-- 
2.43.0


From 064e9f41fb7bee14f1bac36bf6d3bf5da129d879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:46 +0000
Subject: [PATCH 23/29] fix: sha512_2w_avx_256b reads only the 32 bytes of each
 message

---
 third_party/sha512_2way.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/third_party/sha512_2way.c b/third_party/sha512_2way.c
index 2219ca7..c2140e9 100644
--- a/third_party/sha512_2way.c
+++ b/third_party/sha512_2way.c
@@ -241,7 +241,8 @@ void sha512_2w_avx_256b(uint8_t *message_2x[2], uint8_t *digest_2x[2])
     initialize(state);
     for (msg = 0; msg < NUM_MSG; msg++)
     {
-        for (i = 0; i < 16/(NUM_MSG); i++)
+        /* a 256-bit message fills two vectors */
+        for (i = 0; i < 4/(NUM_MSG); i++)
         {
             block[NUM_MSG*i+msg] = SHUF8(LOAD(message_2x[msg]+i),big_endian);
         }
-- 
2.43.0


From 93fd17bda44a2ae5b1bea35fd16fd3c8e716c616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:53 +0000
Subject: [PATCH 24/29] fix: align the vector constants that are loaded as
 256-bit words

---
 src/edwards255.c             | 2 +-
 src/eltfp25519_4w_redradix.c | 2 +-
 src/eltfp448_4w_redradix.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/edwards255.c b/src/edwards255.c
index 5534e2c..884f774 100644
--- a/src/edwards255.c
+++ b/src/edwards255.c
@@ -438,7 +438,7 @@ static inline void _1way_fulladd_2w_H0H5(PointXYZT_2w_H0H5 *Q, PointXYZT_2w_H0H5
 	argElement_2w XY2 = P->XY;
 	argElement_2w TZ2 = P->TZ;
 
-	const uint64_t param_curve_2d_02[20] = {
+	ALIGN const uint64_t param_curve_2d_02[20] = {
 			0x2b2f159,0x0f3d130,0x2,0x0,
 			0x1a6e509,0x3407977,0x0,0x0,
 			0x22add7a,0x19ce331,0x0,0x0,
diff --git a/src/eltfp25519_4w_redradix.c b/src/eltfp25519_4w_redradix.c
index 964a73e..a010b1b 100644
--- a/src/eltfp25519_4w_redradix.c
+++ b/src/eltfp25519_4w_redradix.c
@@ -219,7 +219,7 @@ DECL(void, addsublar)(argElement_4w  A, argElement_4w  B) {
 }
 
 DECL(void, ngz)(argElement_4w c, argElement_4w a) {
-  const uint64_t CONST_00_00_2P_00_H0H5[4*NUM_DIGITS_FP25519] = {
+  ALIGN const uint64_t CONST_00_00_2P_00_H0H5[4*NUM_DIGITS_FP25519] = {
       0x0000000,0x0000000,0x7ffffda,0x0000000,
       0x0000000,0x0000000,0x3fffffe,0x0000000,
       0x0000000,0x0000000,0x3fffffe,0x0000000,
diff --git a/src/eltfp448_4w_redradix.c b/src/eltfp448_4w_redradix.c
index 35d8fe4..37d4c4e 100644
--- a/src/eltfp448_4w_redradix.c
+++ b/src/eltfp448_4w_redradix.c
@@ -258,7 +258,7 @@ DECL(void, addsublar)(argElement_4w  A, argElement_4w  B) {
 }
 
 DECL(void, ngz)(argElement_4w c, argElement_4w a) {
-  const uint64_t CONST_00_00_2P_00_H0H8[4*NUM_DIGITS_FP448] = {
+  ALIGN const uint64_t CONST_00_00_2P_00_H0H8[4*NUM_DIGITS_FP448] = {
       0x0000000,0x0000000,0x1ffffffe,0x0000000,
       0x0000000,0x0000000,0x3ffffffc,0x0000000,
       0x0000000,0x0000000,0x1ffffffe,0x0000000,
-- 
2.43.0


From e81f915c5074d426b0a21146f867f6fed020004d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:40 +0000
Subject: [PATCH 25/29] fix: square root of a quotient accepts one element as
 both numerator and denominator

---
 src/eltfp25519_1w_fullradix.c | 5 +++--
 src/eltfp25519_1w_redradix.c  | 5 +++--
 src/eltfp25519_4w_redradix.c  | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/eltfp25519_1w_fullradix.c b/src/eltfp25519_1w_fullradix.c
index 9e94eb2..5ce6797 100644
--- a/src/eltfp25519_1w_fullradix.c
+++ b/src/eltfp25519_1w_fullradix.c
@@ -1523,9 +1523,10 @@ DECL(void, invsqrt)(argElement_1w uv_p38, argElement_1w u, argElement_1w v) {
 #undef sqrn_Fp255_1w_fullradix
 
 DECL(void, srt)(argElement_1w c, argElement_1w a) {
-  EltFp25519_1w_fullradix u;
+  EltFp25519_1w_fullradix u, v;
   FN(copy)(u, c);
-  FN(invsqrt)(c, u, a);
+  FN(copy)(v, a); /* c and a may be the same element */
+  FN(invsqrt)(c, u, v);
 }
 
 DECL(void, mula24_mulx)(argElement_1w c, argElement_1w a) {
diff --git a/src/eltfp25519_1w_redradix.c b/src/eltfp25519_1w_redradix.c
index be6afe8..fd9bdaa 100644
--- a/src/eltfp25519_1w_redradix.c
+++ b/src/eltfp25519_1w_redradix.c
@@ -808,9 +808,10 @@ DECL(void, invsqrt)(argElement_1w uv_p38, argElement_1w u, argElement_1w v) {
 }
 
 DECL(void, srt)(argElement_1w c, argElement_1w a) {
-  EltFp25519_1w_redradix u;
+  EltFp25519_1w_redradix u, v;
   FN(copy)(u, c);
-  FN(invsqrt)(c, u, a);
+  FN(copy)(v, a); /* c and a may be the same element */
+  FN(invsqrt)(c, u, v);
 }
 
 DECL(void, rand)(argElement_1w a) {
diff --git a/src/eltfp25519_4w_redradix.c b/src/eltfp25519_4w_redradix.c
index a010b1b..75ade62 100644
--- a/src/eltfp25519_4w_redradix.c
+++ b/src/eltfp25519_4w_redradix.c
@@ -895,9 +895,10 @@ DECL(void, invsqrt)(argElement_4w uv_p38, argElement_4w u, argElement_4w v) {
 }
 
 DECL(void, srt)(argElement_4w c, argElement_4w a) {
-  EltFp25519_4w_redradix u;
+  EltFp25519_4w_redradix u, v;
   FN(copy)(u, c);
-  FN(invsqrt)(c, u, a);
+  FN(copy)(v, a); /* c and a may be the same element */
+  FN(invsqrt)(c, u, v);
 }
 
 DECL(argElement_4w,alloc)(void) {
-- 
2.43.0


From 8dcf3ced95ddd15ba9c142aa851ccc0ca20949e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:33 +0000
Subject: [PATCH 26/29] fix: prgn_random_bytes never returns unwritten bytes
 when /dev/urandom fails or interrupts

---
 third_party/prng.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/third_party/prng.c b/third_party/prng.c
index 17afcde..721d852 100644
--- a/third_party/prng.c
+++ b/third_party/prng.c
@@ -9,24 +9,32 @@
  * @param buffer
  * @param num_bytes
  */
+#include <errno.h>
 #include <fcntl.h>
 #include <unistd.h>
 void prgn_random_bytes(uint8_t *buffer, size_t num_bytes) {
   size_t l = 0;
-  int c, fd = open("/dev/urandom", O_RDONLY);
+  ssize_t c = 0;
+  int fd = -1;
+
+  do {
+    fd = open("/dev/urandom", O_RDONLY);
+  } while (fd == -1 && errno == EINTR);
 
   if (fd == -1) {
-    printf("Error opening /dev/urandom\n");
+    fprintf(stderr, "Error opening /dev/urandom\n");
+    abort();
   }
 
-  l = 0;
-  do {
+  while (l < num_bytes) {
     c = read(fd, buffer + l, num_bytes - l);
-    l += c;
-    if (c == -1) {
-      printf("Error reading /dev/urandom\n");
+    if (c > 0) {
+      l += (size_t) c;
+    } else if (c == 0 || errno != EINTR) {
+      fprintf(stderr, "Error reading /dev/urandom\n");
+      abort();
     }
-  } while (l < num_bytes);
+  }
 
   close(fd);
 }
-- 
2.43.0


From c283ef28132bad53427393581d3fd68b0ce5544c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 27/29] fix: reduced-radix prime of Fp448 has its smaller limb
 at weight 2^224

---
 src/eltfp448_1w_redradix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eltfp448_1w_redradix.c b/src/eltfp448_1w_redradix.c
index 4a7397b..8bc1f7d 100644
--- a/src/eltfp448_1w_redradix.c
+++ b/src/eltfp448_1w_redradix.c
@@ -774,14 +774,14 @@ DECL(argElement_1w, alloc)(void) {
 
 DECL(void, prime)(argElement_1w a) {
   a[0] = 0xfffffff;
-  a[1] = 0xfffffff;
+  a[1] = 0xffffffe;
   a[2] = 0xfffffff;
   a[3] = 0xfffffff;
   a[4] = 0xfffffff;
   a[5] = 0xfffffff;
   a[6] = 0xfffffff;
   a[7] = 0xfffffff;
-  a[8] = 0xffffffe;
+  a[8] = 0xfffffff;
   a[9] = 0xfffffff;
   a[10] = 0xfffffff;
   a[11] = 0xfffffff;
-- 
2.43.0


From ad08b4c6c6267856762fba82fd576e6a724e4b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:18 +0000
Subject: [PATCH 28/29] fix: Final2 keeps an unsigned offset for outputs beyond
 2^31 bytes

---
 third_party/sha3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third_party/sha3.c b/third_party/sha3.c
index 3e40fde..261b58d 100644
--- a/third_party/sha3.c
+++ b/third_party/sha3.c
@@ -445,7 +445,7 @@ HashReturn Final(hashState *state, BitSequence *hashval) {
  */
 HashReturn Final2(hashState *state, BitSequence *hashval, unsigned int d_byte) {
 	int sbytelen = (state->statebitlen / 8);
-	int j = 0;
+	unsigned int j = 0;
 	unsigned int r = (state->r / 8);
 
 	state->s[sbytelen] ^= 0x1F;
-- 
2.43.0


From ce3b0be05651853c40cc82608a35aca1a0145f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:23 +0000
Subject: [PATCH 29/29] fix: erase the scalar divided by 4 in fixed-point
 multiplication

---
 src/edwards448.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/edwards448.c b/src/edwards448.c
index 9a7336a..0e5a636 100644
--- a/src/edwards448.c
+++ b/src/edwards448.c
@@ -115,6 +115,8 @@ static inline void div4(uint8_t * number_div_4,const uint8_t * number) {
 		number_div_4[i] = ((uint8_t*)product)[i];
 	}
 	number_div_4[ED448_KEY_SIZE_BYTES_PARAM-1] = 0;
+	spc_memset(a, 0, sizeof(a));
+	spc_memset(product, 0, sizeof(product));
 }
 
 /**
@@ -767,6 +769,7 @@ static inline void fixed_point_multiplication_ed448(PointXYZT_2w_H0H8 * rB, uint
 	Ed448_PublicKey r_div_4;
 	div4(r_div_4,r);
 	point_multiplication_fold4w4(rB,r_div_4);
+	spc_memset(r_div_4, 0, sizeof(r_div_4));
 }
 
 /**
-- 
2.43.0

