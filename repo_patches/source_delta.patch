From df435928bf2ad021edc64a99d85da2248c754f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 01/22] fix: ParallelHash: no overflow when the block length
 times the parallelism exceeds size_t

With a block length of 2^61 bytes or more (2^29 on 32-bit platforms) the product wrapped to zero and the
parallel loop never ended.
---
 lib/high/Keccak/SP800-185/SP800-185.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/high/Keccak/SP800-185/SP800-185.inc b/lib/high/Keccak/SP800-185/SP800-185.inc
index 0c6d4c8..ac1cd4e 100644
--- a/lib/high/Keccak/SP800-185/SP800-185.inc
+++ b/lib/high/Keccak/SP800-185/SP800-185.inc
@@ -237,7 +237,7 @@ int KMAC(const BitSequence *key, BitLength keyBitLen, const BitSequence *input,
 #define ParallelHash_Squeeze      JOIN(ParallelHash,_Squeeze)
 
 #define ParallelSpongeFastLoop( Parallellism ) \
-    while ( inputByteLen >= Parallellism * phi->blockLen ) { \
+    while ( inputByteLen / Parallellism >= phi->blockLen ) { \
         KeccakP1600times##Parallellism##_states states; \
         unsigned char intermediate[Parallellism*capacityInBytes]; \
         size_t localBlockLen = phi->blockLen; \
@@ -263,7 +263,7 @@ int KMAC(const BitSequence *key, BitLength keyBitLen, const BitSequence *input,
     }
 
 #define ParallelSpongeLoop( Parallellism ) \
-    while ( inputByteLen >= Parallellism * phi->blockLen ) { \
+    while ( inputByteLen / Parallellism >= phi->blockLen ) { \
         KeccakP1600times##Parallellism##_states states; \
         unsigned char intermediate[Parallellism*capacityInBytes]; \
         size_t localBlockLen = phi->blockLen; \
-- 
2.43.0


From d04e4f2e3443e86c32b7f94a36d709160fc549ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 02/22] fix: duplex: fetching zero bytes after the last partial
 byte no longer writes before the output buffer

---
 lib/high/Keccak/KeccakDuplex.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/high/Keccak/KeccakDuplex.inc b/lib/high/Keccak/KeccakDuplex.inc
index cdacc0a..3af1a61 100644
--- a/lib/high/Keccak/KeccakDuplex.inc
+++ b/lib/high/Keccak/KeccakDuplex.inc
@@ -161,7 +161,7 @@ int DuplexingGetFurtherOutput(DuplexInstance *instance, unsigned char *output, u
 
     SnP_ExtractBytes(&instance->state, output, instance->byteOutputIndex, outputByteLen);
     instance->byteOutputIndex += outputByteLen;
-    if (instance->byteOutputIndex*8 > instance->rate) {
+    if ((outputByteLen > 0) && (instance->byteOutputIndex*8 > instance->rate)) {
         unsigned char mask = (1 << (instance->rate % 8)) - 1;
         output[outputByteLen-1] &= mask;
     }
@@ -175,7 +175,7 @@ int DuplexingGetFurtherOutputAndAdd(DuplexInstance *instance, const unsigned cha
 
     SnP_ExtractAndAddBytes(&instance->state, input, output, instance->byteOutputIndex, outputByteLen);
     instance->byteOutputIndex += outputByteLen;
-    if (instance->byteOutputIndex*8 > instance->rate) {
+    if ((outputByteLen > 0) && (instance->byteOutputIndex*8 > instance->rate)) {
         unsigned char mask = (1 << (instance->rate % 8)) - 1;
         output[outputByteLen-1] &= mask;
     }
-- 
2.43.0


From c8eecb43ee22c3c12af40ee666f2113024114dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 03/22] fix: duplex: trailing bits are limited by the rate also
 when input was queued before

---
 lib/high/Keccak/KeccakDuplex.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/high/Keccak/KeccakDuplex.inc b/lib/high/Keccak/KeccakDuplex.inc
index 3af1a61..9732642 100644
--- a/lib/high/Keccak/KeccakDuplex.inc
+++ b/lib/high/Keccak/KeccakDuplex.inc
@@ -60,8 +60,8 @@ int Duplexing(DuplexInstance *instance, const unsigned char *sigmaBegin, unsigne
         return 1;
     if ((instance->byteInputIndex+sigmaBeginByteLen)*8 > rho_max)
         return 1;
-    if (rho_max - sigmaBeginByteLen*8 < 7) {
-        unsigned int maxBitsInDelimitedSigmaEnd = rho_max - sigmaBeginByteLen*8;
+    if (rho_max - (instance->byteInputIndex+sigmaBeginByteLen)*8 < 7) {
+        unsigned int maxBitsInDelimitedSigmaEnd = rho_max - (instance->byteInputIndex+sigmaBeginByteLen)*8;
         if (delimitedSigmaEnd >= (1 << (maxBitsInDelimitedSigmaEnd+1)))
             return 1;
     }
-- 
2.43.0


From 605ee20f54721b2df08125fd9e8b5664f9de8332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:06 +0000
Subject: [PATCH 04/22] fix: Kravatte: bits of the last input byte beyond the
 given length have no influence

---
 lib/high/Kravatte/Kravatte.c      | 2 +-
 lib/high/Kravatte/KravatteModes.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/high/Kravatte/Kravatte.c b/lib/high/Kravatte/Kravatte.c
index 6cd49d1..b3192f1 100644
--- a/lib/high/Kravatte/Kravatte.c
+++ b/lib/high/Kravatte/Kravatte.c
@@ -328,7 +328,7 @@ static const unsigned char * Kra_Compress( unsigned char *k, unsigned char *x, c
         message += messageByteLen;
         *messageBitLen %= 8;
         if (*messageBitLen != 0) /* padding */
-            KeccakP1600_AddByte(&state, *message++ | (1 << *messageBitLen), (unsigned int)messageByteLen);
+            KeccakP1600_AddByte(&state, (*message++ & ((1 << *messageBitLen) - 1)) | (1 << *messageBitLen), (unsigned int)messageByteLen);
         else
             KeccakP1600_AddByte(&state, 1, (unsigned int)messageByteLen);
         KeccakP1600_Permute_Nrounds(&state, 6);
diff --git a/lib/high/Kravatte/KravatteModes.c b/lib/high/Kravatte/KravatteModes.c
index 50cc5f7..4a1753b 100644
--- a/lib/high/Kravatte/KravatteModes.c
+++ b/lib/high/Kravatte/KravatteModes.c
@@ -151,11 +151,11 @@ static int Kravatte_SANE_AddToHistory(Kravatte_SANE_Instance *kp, const BitSeque
         dataBitLen = 2;
     }
     else if (dataBitLen <= 6) {
-        lastByte[0] = (BitSequence)(*data | (appendix << dataBitLen) | (kp->e << (dataBitLen + 1)));
+        lastByte[0] = (BitSequence)((*data & ((1 << dataBitLen) - 1)) | (appendix << dataBitLen) | (kp->e << (dataBitLen + 1)));
         dataBitLen += 2;
     }
     else { /* dataBitLen == 7 */
-        lastByte[0] = (BitSequence)(*data | (appendix << 7));
+        lastByte[0] = (BitSequence)((*data & 0x7F) | (appendix << 7));
         if ( Kra(&kp->kravatte, lastByte, 8, KRAVATTE_FLAG_NONE) != 0) {
             return 1;
         }
-- 
2.43.0


From dd1b89933e65983491be87aa7eb450261ec8084a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:06 +0000
Subject: [PATCH 05/22] fix: Xoofff: bits of the last input byte beyond the
 given length have no influence

---
 lib/high/Xoofff/Xoofff.c      | 2 +-
 lib/high/Xoofff/XoofffModes.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/high/Xoofff/Xoofff.c b/lib/high/Xoofff/Xoofff.c
index 5069627..2205a62 100644
--- a/lib/high/Xoofff/Xoofff.c
+++ b/lib/high/Xoofff/Xoofff.c
@@ -430,7 +430,7 @@ static const unsigned char * Xoodoo_CompressBlocks( unsigned char *k, unsigned c
         message += messageByteLen;
         *messageBitLen %= 8;
         if (*messageBitLen != 0) /* padding */
-            Xoodoo_AddByte(&state, *message++ | (1 << *messageBitLen), messageByteLen);
+            Xoodoo_AddByte(&state, (*message++ & ((1 << *messageBitLen) - 1)) | (1 << *messageBitLen), messageByteLen);
         else
             Xoodoo_AddByte(&state, 1, messageByteLen);
         Xoodoo_Permute_6rounds(&state);
diff --git a/lib/high/Xoofff/XoofffModes.c b/lib/high/Xoofff/XoofffModes.c
index bc6180b..232e9f5 100644
--- a/lib/high/Xoofff/XoofffModes.c
+++ b/lib/high/Xoofff/XoofffModes.c
@@ -278,11 +278,11 @@ static int XoofffSANE_AddToHistory(XoofffSANE_Instance *xp, const BitSequence *d
         dataBitLen = 2;
     }
     else if (dataBitLen <= 6) {
-        lastByte[0] = (BitSequence)(*data | (appendix << dataBitLen) | (xp->e << (dataBitLen + 1)));
+        lastByte[0] = (BitSequence)((*data & ((1 << dataBitLen) - 1)) | (appendix << dataBitLen) | (xp->e << (dataBitLen + 1)));
         dataBitLen += 2;
     }
     else { /* dataBitLen == 7 */
-        lastByte[0] = (BitSequence)(*data | (appendix << 7));
+        lastByte[0] = (BitSequence)((*data & 0x7F) | (appendix << 7));
         if ( Xoofff_Compress(&xp->xoofff, lastByte, 8, Xoofff_FlagNone) != 0) {
             return 1;
         }
-- 
2.43.0


From 7da87908b1b0b1db160a4cdf3e4861183057951f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 06/22] fix: Xoodyak: decrypting in place with the SSE2 and
 AVX-512 full-block loops

The last 8 bytes of each 24-byte ciphertext block were read again after the
plaintext was written, so that with P == C the state absorbed the wrong value
and the session lost synchronisation, unlike the generic code.
---
 .../AVX512/Xoodyak-full-block-SIMD512.c       | 20 +++++++----
 .../Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c  | 35 ++++++++++++-------
 2 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/lib/low/Xoodoo/AVX512/Xoodyak-full-block-SIMD512.c b/lib/low/Xoodoo/AVX512/Xoodyak-full-block-SIMD512.c
index c5275d8..b407147 100644
--- a/lib/low/Xoodoo/AVX512/Xoodyak-full-block-SIMD512.c
+++ b/lib/low/Xoodoo/AVX512/Xoodyak-full-block-SIMD512.c
@@ -294,6 +294,11 @@ size_t Xoodyak_DecryptFullBlocks(Xoodoo_align128plain32_state *state, const uint
     size_t  initialLength = IOLen;
     V128    o0;
     V128    one = _mm_set_epi32(0, 1, 0, 0); 
+#if defined(__i386__) || defined(_M_IX86)
+    uint32_t i1, i2; /* ciphertext words, read before O is written as it may be equal to I */
+#else
+    uint64_t i1; /* ciphertext words, read before O is written as it may be equal to I */
+#endif
     DeclareVars;
 
     State2Vars(state);
@@ -312,13 +317,16 @@ size_t Xoodyak_DecryptFullBlocks(Xoodoo_align128plain32_state *state, const uint
         Round(_rc1);
         o0 = XOR(a0, LOAD128u(I[0]));
 #if defined(__i386__) || defined(_M_IX86)
-        *((uint32_t*)(O+16)) = *((uint32_t*)(I+16)) ^ _mm_extract_epi32(a1, 0);
-        *((uint32_t*)(O+20)) = *((uint32_t*)(I+20)) ^ _mm_extract_epi32(a1, 1);
-        a1 = _mm_insert_epi32(a1, *((uint32_t*)(I+16)), 0);
-        a1 = _mm_insert_epi32(a1, *((uint32_t*)(I+20)), 1);
+        i1 = *((uint32_t*)(I+16));
+        i2 = *((uint32_t*)(I+20));
+        *((uint32_t*)(O+16)) = i1 ^ _mm_extract_epi32(a1, 0);
+        *((uint32_t*)(O+20)) = i2 ^ _mm_extract_epi32(a1, 1);
+        a1 = _mm_insert_epi32(a1, i1, 0);
+        a1 = _mm_insert_epi32(a1, i2, 1);
 #else
-        *((uint64_t*)(O+16)) = *((uint64_t*)(I+16)) ^ _mm_extract_epi64(a1, 0);
-        a1 = _mm_insert_epi64(a1, *((uint64_t*)(I+16)), 0);
+        i1 = *((uint64_t*)(I+16));
+        *((uint64_t*)(O+16)) = i1 ^ _mm_extract_epi64(a1, 0);
+        a1 = _mm_insert_epi64(a1, i1, 0);
 #endif
         STORE128u(O[0], o0);
         a0 = XOR(a0, o0); 
diff --git a/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c b/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c
index 3306823..ea6e038 100644
--- a/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c
+++ b/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c
@@ -317,6 +317,11 @@ size_t Xoodyak_DecryptFullBlocks(Xoodoo_align128plain32_state *state, const uint
     size_t  initialLength = IOLen;
     V128    o0;
     V128    one = _mm_set_epi32(0, 1, 0, 0); 
+#if defined(__i386__) || defined(_M_IX86)
+    uint32_t i1, i2; /* ciphertext words, read before O is written as it may be equal to I */
+#else
+    uint64_t i1; /* ciphertext words, read before O is written as it may be equal to I */
+#endif
     DeclareVars;
 
     State2Vars(state);
@@ -336,30 +341,36 @@ size_t Xoodyak_DecryptFullBlocks(Xoodoo_align128plain32_state *state, const uint
         o0 = XOR128(a0, LOAD128u(I[0]));
 #if defined(__SSE41__) || defined(__SSE4_1__)
 #if defined(__i386__) || defined(_M_IX86)
-        *((uint32_t*)(O+16)) = *((uint32_t*)(I+16)) ^ _mm_extract_epi32(a1, 0);
-        *((uint32_t*)(O+20)) = *((uint32_t*)(I+20)) ^ _mm_extract_epi32(a1, 1);
-        a1 = _mm_insert_epi32(a1, *((uint32_t*)(I+16)), 0);
-        a1 = _mm_insert_epi32(a1, *((uint32_t*)(I+20)), 1);
+        i1 = *((uint32_t*)(I+16));
+        i2 = *((uint32_t*)(I+20));
+        *((uint32_t*)(O+16)) = i1 ^ _mm_extract_epi32(a1, 0);
+        *((uint32_t*)(O+20)) = i2 ^ _mm_extract_epi32(a1, 1);
+        a1 = _mm_insert_epi32(a1, i1, 0);
+        a1 = _mm_insert_epi32(a1, i2, 1);
 #else
-        *((uint64_t*)(O+16)) = *((uint64_t*)(I+16)) ^ _mm_extract_epi64(a1, 0);
-        a1 = _mm_insert_epi64(a1, *((uint64_t*)(I+16)), 0);
+        i1 = *((uint64_t*)(I+16));
+        *((uint64_t*)(O+16)) = i1 ^ _mm_extract_epi64(a1, 0);
+        a1 = _mm_insert_epi64(a1, i1, 0);
 #endif
 #else
 #if defined(__i386__) || defined(_M_IX86)
-        *((uint32_t*)(O+16)) = *((uint32_t*)(I+16)) ^ _mm_cvtsi128_si32(a1);
-        *((uint32_t*)(O+20)) = *((uint32_t*)(I+20)) ^ _mm_cvtsi128_si32(_mm_srli_si128(a1,4));
+        i1 = *((uint32_t*)(I+16));
+        i2 = *((uint32_t*)(I+20));
+        *((uint32_t*)(O+16)) = i1 ^ _mm_cvtsi128_si32(a1);
+        *((uint32_t*)(O+20)) = i2 ^ _mm_cvtsi128_si32(_mm_srli_si128(a1,4));
         a1 = _mm_set_epi32(
             // preserve high words
             _mm_cvtsi128_si32(_mm_srli_si128(a1,12), 3),
             _mm_cvtsi128_si32(_mm_srli_si128(a1,8), 2),
-            *((uint32_t*)(I+20)),
-            *((uint32_t*)(I+16)));
+            i2,
+            i1);
 #else
-        *((uint64_t*)(O+16)) = *((uint64_t*)(I+16)) ^ _mm_cvtsi128_si64(a1);
+        i1 = *((uint64_t*)(I+16));
+        *((uint64_t*)(O+16)) = i1 ^ _mm_cvtsi128_si64(a1);
         a1 = _mm_set_epi64x(
             // preserve high words
              _mm_cvtsi128_si64(_mm_srli_si128(a1,8)),
-            *((uint64_t*)(I+16)));
+            i1);
 #endif
 #endif
         STORE128u(O[0], o0);
-- 
2.43.0


From 2054b0c8a0ed8562b423b43959f3f33f7a397784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:30 +0000
Subject: [PATCH 07/22] fix: TupleHash_Update refuses partial bytes before
 absorbing any element

---
 lib/high/Keccak/SP800-185/SP800-185.inc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/high/Keccak/SP800-185/SP800-185.inc b/lib/high/Keccak/SP800-185/SP800-185.inc
index ac1cd4e..689bc39 100644
--- a/lib/high/Keccak/SP800-185/SP800-185.inc
+++ b/lib/high/Keccak/SP800-185/SP800-185.inc
@@ -507,10 +507,12 @@ int TupleHash_Initialize(TupleHash_Instance *thi, BitLength outputBitLen,
 int TupleHash_Update(TupleHash_Instance *thi, const TupleElement *tuple, size_t numberOfElements)
 {
     unsigned char encbuf[sizeof(BitLength)+1];
+    size_t i;
 
-    while (numberOfElements-- != 0) {
-        if ((tuple->inputBitLen & 7) != 0) /* Only full bytes are supported */
+    for (i = 0; i < numberOfElements; ++i)
+        if ((tuple[i].inputBitLen & 7) != 0) /* Only full bytes are supported */
             return 1;
+    while (numberOfElements-- != 0) {
         if (cSHAKE_Update(&thi->csi, encbuf, left_encode(encbuf, tuple->inputBitLen)*8) != 0)
             return 1;
         if (cSHAKE_Update(&thi->csi, tuple->input, tuple->inputBitLen) != 0)
-- 
2.43.0


From 989518d6bdd6f2b75f05b11855481283c09466c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:13 +0000
Subject: [PATCH 08/22] fix: SANE/SANSE initialization with an over-long key
 leaves the session unchanged

---
 lib/high/Kravatte/KravatteModes.c | 6 ++++--
 lib/high/Xoofff/XoofffModes.c     | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/high/Kravatte/KravatteModes.c b/lib/high/Kravatte/KravatteModes.c
index 4a1753b..6673976 100644
--- a/lib/high/Kravatte/KravatteModes.c
+++ b/lib/high/Kravatte/KravatteModes.c
@@ -129,9 +129,9 @@ static void memxor(BitSequence *target, const BitSequence *source1, const BitSeq
 int Kravatte_SANE_Initialize(Kravatte_SANE_Instance *kp, const BitSequence *Key, BitLength KeyBitLen, 
                             const BitSequence *Nonce, BitLength NonceBitLen, unsigned char *tag)
 {
-    kp->e = 0;
     if (Kravatte_MaskDerivation(&kp->kravatte, Key, KeyBitLen) != 0)
         return 1;
+    kp->e = 0;
     if (Kra(&kp->kravatte, Nonce, NonceBitLen, KRAVATTE_FLAG_INIT | KRAVATTE_FLAG_LAST_PART) != 0)
         return 1;
     return Vatte(&kp->kravatte, tag, Kravatte_SANE_TagLength * 8, KRAVATTE_FLAG_NONE);
@@ -229,8 +229,10 @@ int Kravatte_SANE_Unwrap(Kravatte_SANE_Instance *kp, const BitSequence *cipherte
 
 int Kravatte_SANSE_Initialize(Kravatte_SANSE_Instance *kp, const BitSequence *Key, BitLength KeyBitLen)
 {
+    if (Kravatte_MaskDerivation(&kp->kravatte, Key, KeyBitLen) != 0)
+        return 1;
     kp->e = 0;
-    return Kravatte_MaskDerivation(&kp->kravatte, Key, KeyBitLen);
+    return 0;
 }
 
 static int Kravatte_SANSE_AddToHistory(Kravatte_SANSE_Instance *kp, const BitSequence *data, BitLength dataBitLen, unsigned char appendix, unsigned int appendixLen)
diff --git a/lib/high/Xoofff/XoofffModes.c b/lib/high/Xoofff/XoofffModes.c
index 232e9f5..4b896bd 100644
--- a/lib/high/Xoofff/XoofffModes.c
+++ b/lib/high/Xoofff/XoofffModes.c
@@ -256,9 +256,9 @@ int XoofffWBCAE_Decipher(Xoofff_Instance *xp, const BitSequence *ciphertext, Bit
 int XoofffSANE_Initialize(XoofffSANE_Instance *xp, const BitSequence *Key, BitLength KeyBitLen, 
                             const BitSequence *Nonce, BitLength NonceBitLen, unsigned char *tag)
 {
-    xp->e = 0;
     if (Xoofff_MaskDerivation(&xp->xoofff, Key, KeyBitLen) != 0)
         return 1;
+    xp->e = 0;
     if (Xoofff_Compress(&xp->xoofff, Nonce, NonceBitLen, Xoofff_FlagInit | Xoofff_FlagLastPart) != 0)
         return 1;
     return Xoofff_Expand(&xp->xoofff, tag, XoofffSANE_TagLength * 8, Xoofff_FlagNone);
@@ -388,8 +388,10 @@ static int XoofffSANSE_AddToHistory(XoofffSANSE_Instance *xp, const BitSequence
 
 int XoofffSANSE_Initialize(XoofffSANSE_Instance *xp, const BitSequence *Key, BitLength KeyBitLen)
 {
+    if (Xoofff_MaskDerivation(&xp->xoofff, Key, KeyBitLen) != 0)
+        return 1;
     xp->e = 0;
-    return Xoofff_MaskDerivation(&xp->xoofff, Key, KeyBitLen);
+    return 0;
 }
 
 int XoofffSANSE_Wrap(XoofffSANSE_Instance *xp, const BitSequence *plaintext, BitSequence *ciphertext, BitLength dataBitLen, 
-- 
2.43.0


From fbc6899cca85e8003d494c817bb61edc9aa9d112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 09/22] fix: reference Keccak-p[1600]: round constants in use
 by other instances are never set to intermediate values

---
 .../KeccakP-1600/ref-32bits/KeccakP-1600-reference32BI.c   | 7 +++++--
 lib/low/KeccakP-1600/ref-64bits/KeccakP-1600-reference.c   | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/low/KeccakP-1600/ref-32bits/KeccakP-1600-reference32BI.c b/lib/low/KeccakP-1600/ref-32bits/KeccakP-1600-reference32BI.c
index da12dfb..e414dd5 100644
--- a/lib/low/KeccakP-1600/ref-32bits/KeccakP-1600-reference32BI.c
+++ b/lib/low/KeccakP-1600/ref-32bits/KeccakP-1600-reference32BI.c
@@ -105,7 +105,7 @@ void KeccakP1600_InitializeRoundConstants(void)
 {
     uint8_t LFSRstate = 0x01;
     unsigned int i, j, bitPosition;
-    uint32_t low, high;
+    uint32_t low, high, even, odd;
 
     for(i=0; i<maxNrRounds; i++) {
         low = high = 0;
@@ -118,7 +118,10 @@ void KeccakP1600_InitializeRoundConstants(void)
                     high ^= (uint32_t)1 << (bitPosition-32);
             }
         }
-        toBitInterleaving(low, high, &(KeccakRoundConstants[i][0]), &(KeccakRoundConstants[i][1]));
+        toBitInterleaving(low, high, &even, &odd);
+        /* The table is only ever set to its final value, as other instances may be using it already */
+        KeccakRoundConstants[i][0] = even;
+        KeccakRoundConstants[i][1] = odd;
     }
 }
 
diff --git a/lib/low/KeccakP-1600/ref-64bits/KeccakP-1600-reference.c b/lib/low/KeccakP-1600/ref-64bits/KeccakP-1600-reference.c
index 9cca99f..48fdb18 100644
--- a/lib/low/KeccakP-1600/ref-64bits/KeccakP-1600-reference.c
+++ b/lib/low/KeccakP-1600/ref-64bits/KeccakP-1600-reference.c
@@ -66,14 +66,17 @@ void KeccakP1600_InitializeRoundConstants(void)
 {
     uint8_t LFSRstate = 0x01;
     unsigned int i, j, bitPosition;
+    tKeccakLane roundConstant;
 
     for(i=0; i<maxNrRounds; i++) {
-        KeccakRoundConstants[i] = 0;
+        roundConstant = 0;
         for(j=0; j<7; j++) {
             bitPosition = (1<<j)-1; /* 2^j-1 */
             if (LFSR86540(&LFSRstate))
-                KeccakRoundConstants[i] ^= (tKeccakLane)1<<bitPosition;
+                roundConstant ^= (tKeccakLane)1<<bitPosition;
         }
+        /* The table is only ever set to its final value, as other instances may be using it already */
+        KeccakRoundConstants[i] = roundConstant;
     }
 }
 
-- 
2.43.0


From c6755222a5fb857e9bf7892f93a69e6a1002b394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 10/22] fix: ARMv6M Xoodyak: use the byte-wise path when only
 one of input and output is misaligned

The alignment test of Xoodyak_EncryptFullBlocks and Xoodyak_DecryptFullBlocks
combined the two pointers with AND, so a misaligned input with an aligned
output (or the reverse) took the word path, whose ldmia/stmia trap on
misaligned addresses.
---
 lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-armcc.s | 4 ++--
 lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-gcc.s   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-armcc.s b/lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-armcc.s
index 41981b0..d12d654 100644
--- a/lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-armcc.s
+++ b/lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-armcc.s
@@ -877,7 +877,7 @@ Xoodyak_EncryptFullBlocks_Ret
     ldr     r5, [sp, #XoodyakCrypt_offsetI+8]
     ldr     r4, [sp, #XoodyakCrypt_offsetO+8]
     mov     r0, r4
-    ands    r0, r0, r5
+    orrs    r0, r0, r5
     lsls    r0, r0, #30
     bne     Xoodyak_EncryptFullBlocks_Unaligned
 Xoodyak_EncryptFullBlocks_Aligned
@@ -1047,7 +1047,7 @@ Xoodyak_DecryptFullBlocks_Ret
     ldr     r5, [sp, #XoodyakCrypt_offsetI+8]
     ldr     r4, [sp, #XoodyakCrypt_offsetO+8]
     mov     r0, r4
-    ands    r0, r0, r5
+    orrs    r0, r0, r5
     lsls    r0, r0, #30
     bne     Xoodyak_DecryptFullBlocks_Unaligned
 Xoodyak_DecryptFullBlocks_Aligned
diff --git a/lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-gcc.s b/lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-gcc.s
index 994affa..f11bf8f 100644
--- a/lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-gcc.s
+++ b/lib/low/Xoodoo/ARM/Xoodyak-u1-armv6m-le-gcc.s
@@ -878,7 +878,7 @@ Xoodyak_EncryptFullBlocks_Ret:
     ldr     r5, [sp, #XoodyakCrypt_offsetI+8]
     ldr     r4, [sp, #XoodyakCrypt_offsetO+8]
     mov     r0, r4
-    ands    r0, r0, r5
+    orrs    r0, r0, r5
     lsls    r0, r0, #30
     bne     Xoodyak_EncryptFullBlocks_Unaligned
 Xoodyak_EncryptFullBlocks_Aligned:
@@ -1049,7 +1049,7 @@ Xoodyak_DecryptFullBlocks_Ret:
     ldr     r5, [sp, #XoodyakCrypt_offsetI+8]
     ldr     r4, [sp, #XoodyakCrypt_offsetO+8]
     mov     r0, r4
-    ands    r0, r0, r5
+    orrs    r0, r0, r5
     lsls    r0, r0, #30
     bne     Xoodyak_DecryptFullBlocks_Unaligned
 Xoodyak_DecryptFullBlocks_Aligned:
-- 
2.43.0


From 13c27eb63c4f8585f9cb082073f4d554b9377659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:16 +0000
Subject: [PATCH 11/22] fix: KeccakSum: pass the security level to
 KangarooTwelve_Initialize

KangarooTwelve_Initialize takes the security level since KT256 was added, so
KeccakSum did not compile any more.  --k12 stands for KT128.
---
 util/KeccakSum/KeccakSum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/KeccakSum/KeccakSum.c b/util/KeccakSum/KeccakSum.c
index f921259..440d6c8 100644
--- a/util/KeccakSum/KeccakSum.c
+++ b/util/KeccakSum/KeccakSum.c
@@ -67,7 +67,7 @@ int hashInitialize(Instance *instance, const Specifications *specs)
             return 0;
     }
     else if (specs->algorithm == algorithm_K12) {
-        if (KangarooTwelve_Initialize(&instance->k12, specs->hashbitlen/8)) {
+        if (KangarooTwelve_Initialize(&instance->k12, 128, specs->hashbitlen/8)) {
             printf("Incorrect KangarooTwelve parameters.\n");
             return -1;
         }
-- 
2.43.0


From b5279f135641cb6dac961d145b4f2052c6d15787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:16 +0000
Subject: [PATCH 12/22] fix: KeccakSum: an algorithm option after --k12,
 --ph128 or --ph256 selects its algorithm

The options are processed in order, but --shake128, --shake256, --sha3-* and
--ethereum left specs.algorithm as it was, so that after --k12 or --ph* the
digest was still that of KangarooTwelve or ParallelHash.
---
 util/KeccakSum/KeccakSum.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/util/KeccakSum/KeccakSum.c b/util/KeccakSum/KeccakSum.c
index 440d6c8..ccc31ba 100644
--- a/util/KeccakSum/KeccakSum.c
+++ b/util/KeccakSum/KeccakSum.c
@@ -269,6 +269,7 @@ int process(int argc, char* argv[])
             }
         }
         else if (strcmp("--shake128", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 1344;
             specs.capacity = 256;
             specs.hashbitlen = 264;
@@ -276,6 +277,7 @@ int process(int argc, char* argv[])
             base64 = 1;
         }
         else if (strcmp("--shake256", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 1088;
             specs.capacity = 512;
             specs.hashbitlen = 528;
@@ -283,6 +285,7 @@ int process(int argc, char* argv[])
             base64 = 1;
         }
         else if (strcmp("--sha3-224", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 1152;
             specs.capacity = 448;
             specs.hashbitlen = 224;
@@ -290,6 +293,7 @@ int process(int argc, char* argv[])
             base64 = 0;
         }
         else if (strcmp("--sha3-256", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 1088;
             specs.capacity = 512;
             specs.hashbitlen = 256;
@@ -297,6 +301,7 @@ int process(int argc, char* argv[])
             base64 = 0;
         }
         else if (strcmp("--sha3-384", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 832;
             specs.capacity = 768;
             specs.hashbitlen = 384;
@@ -304,6 +309,7 @@ int process(int argc, char* argv[])
             base64 = 0;
         }
         else if (strcmp("--sha3-512", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 576;
             specs.capacity = 1024;
             specs.hashbitlen = 512;
@@ -314,6 +320,7 @@ int process(int argc, char* argv[])
             specs.delimitedSuffix = 0x01;
         }
         else if (strcmp("--ethereum", argv[i]) == 0) {
+            specs.algorithm = algorithm_Keccak;
             specs.rate = 1088;
             specs.capacity = 512;
             specs.hashbitlen = 256;
-- 
2.43.0


From 4126bfbf5f31b2faf33f4ac0b9ca908bbfe89ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:16 +0000
Subject: [PATCH 13/22] fix: KeccakSum: report read errors

When reading failed, for instance because the name is that of a directory,
the digest of the part read so far was printed as that of the file.
---
 util/KeccakSum/KeccakSum.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/util/KeccakSum/KeccakSum.c b/util/KeccakSum/KeccakSum.c
index ccc31ba..d8eceb7 100644
--- a/util/KeccakSum/KeccakSum.c
+++ b/util/KeccakSum/KeccakSum.c
@@ -157,6 +157,13 @@ int processFile(const char *fileName, const Specifications *specs, int base64)
         if (read > 0)
             hashUpdate(&instance, specs, buffer, read);
     } while(read>0);
+    if (ferror(fp)) {
+        printf("File '%s' could not be read.\n", fileName);
+        if (fp != stdin) {
+            fclose(fp);
+        }
+        return -1;
+    }
     if (fp != stdin) {
         fclose(fp);
     }
-- 
2.43.0


From 8eab664d77c52234bf26898d5baf6d13948c776d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 14/22] fix: KeccakSum: print digests of 65536 bytes in
 hexadecimal

Such a digest fits in the buffers, but the size given for its display left no
place for the terminating zero.
---
 util/KeccakSum/KeccakSum.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/util/KeccakSum/KeccakSum.c b/util/KeccakSum/KeccakSum.c
index d8eceb7..7906171 100644
--- a/util/KeccakSum/KeccakSum.c
+++ b/util/KeccakSum/KeccakSum.c
@@ -169,13 +169,13 @@ int processFile(const char *fileName, const Specifications *specs, int base64)
     }
     hashFinal(&instance, specs, buffer);
     if (base64) {
-        if (base64encode(buffer, (specs->hashbitlen+7)/8, display, bufferSize*2)) {
+        if (base64encode(buffer, (specs->hashbitlen+7)/8, display, sizeof(display))) {
             printf("Error while converting to base64.\n");
             return -1;
         }
     }
     else {
-        if (hexencode(buffer, (specs->hashbitlen+7)/8, display, bufferSize*2)) {
+        if (hexencode(buffer, (specs->hashbitlen+7)/8, display, sizeof(display))) {
             printf("Error while converting to hex.\n");
             return -1;
         }
@@ -201,13 +201,13 @@ int processString(const char *input, const Specifications *specs, int base64)
     hashUpdate(&instance, specs, input, strlen(input));
     hashFinal(&instance, specs, buffer);
     if (base64) {
-        if (base64encode(buffer, (specs->hashbitlen+7)/8, display, bufferSize*2)) {
+        if (base64encode(buffer, (specs->hashbitlen+7)/8, display, sizeof(display))) {
             printf("Error while converting to base64.\n");
             return -1;
         }
     }
     else {
-        if (hexencode(buffer, (specs->hashbitlen+7)/8, display, bufferSize*2)) {
+        if (hexencode(buffer, (specs->hashbitlen+7)/8, display, sizeof(display))) {
             printf("Error while converting to hex.\n");
             return -1;
         }
-- 
2.43.0


From bf1104a6f0b568c8e3f5ef69bb8b32d1b529a275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:27 +0000
Subject: [PATCH 15/22] fix: x86-64 assembly: do not rely on the upper 32 bits
 of 32-bit arguments

The System V ABI leaves them undefined, and compilers use this, e.g. when an
argument is a size_t value converted to unsigned int.  The AVX2, AVX512 and
x86-64 implementations used the whole registers as offsets, lengths and counts.
---
 lib/low/KeccakP-1600/AVX2/KeccakP-1600-AVX2.s        |  8 ++++++++
 lib/low/KeccakP-1600/AVX512/KeccakP-1600-AVX512.s    | 12 ++++++++++++
 .../KeccakP-1600/x86-64/KeccakP-1600-x86-64-gas.s    | 10 ++++++++++
 .../x86-64/KeccakP-1600-x86-64-gas_Apple.s           | 10 ++++++++++
 .../x86-64/KeccakP-1600-x86-64-shld-gas.s            | 10 ++++++++++
 5 files changed, 50 insertions(+)

diff --git a/lib/low/KeccakP-1600/AVX2/KeccakP-1600-AVX2.s b/lib/low/KeccakP-1600/AVX2/KeccakP-1600-AVX2.s
index cb57bb1..68c044f 100644
--- a/lib/low/KeccakP-1600/AVX2/KeccakP-1600-AVX2.s
+++ b/lib/low/KeccakP-1600/AVX2/KeccakP-1600-AVX2.s
@@ -82,6 +82,7 @@ _KeccakP1600_AddByte:
 KeccakP1600_AddBytes:
 _KeccakP1600_AddBytes:
 .balign 32
+    mov         %ecx, %ecx                              # the upper 32 bits of a 32-bit argument are undefined
     cmp         $0, %rcx
     jz          KeccakP1600_AddBytes_Exit
     mov         %rdx, %rax                              # rax offset in lane
@@ -147,6 +148,7 @@ KeccakP1600_AddBytes_Exit:
 KeccakP1600_OverwriteBytes:
 _KeccakP1600_OverwriteBytes:
 .balign 32
+    mov         %ecx, %ecx                              # the upper 32 bits of a 32-bit argument are undefined
     cmp         $0, %rcx
     jz          KeccakP1600_OverwriteBytes_Exit
     mov         %rdx, %rax                              # rax offset in lane
@@ -212,6 +214,7 @@ KeccakP1600_OverwriteBytes_Exit:
 KeccakP1600_OverwriteWithZeroes:
 _KeccakP1600_OverwriteWithZeroes:
 .balign 32
+    mov         %esi, %esi                              # the upper 32 bits of a 32-bit argument are undefined
     cmp         $0, %rsi
     jz          KeccakP1600_OverwriteWithZeroes_Exit
     lea         mapState(%rip), %rdx                          # rdx pointer into state index mapper
@@ -253,6 +256,7 @@ KeccakP1600_OverwriteWithZeroes_Exit:
 KeccakP1600_ExtractBytes:
 _KeccakP1600_ExtractBytes:
 .balign 32
+    mov         %ecx, %ecx                              # the upper 32 bits of a 32-bit argument are undefined
     push        %rbx
     cmp         $0, %rcx
     jz          KeccakP1600_ExtractBytes_Exit
@@ -321,6 +325,7 @@ KeccakP1600_ExtractBytes_Exit:
 KeccakP1600_ExtractAndAddBytes:
 _KeccakP1600_ExtractAndAddBytes:
 .balign 32
+    mov         %r8d, %r8d                              # the upper 32 bits of a 32-bit argument are undefined
     push        %rbx
     push        %r10
     cmp         $0, %r8
@@ -627,6 +632,7 @@ _KeccakP1600_Permute_12rounds:
 KeccakP1600_Permute_Nrounds:
 _KeccakP1600_Permute_Nrounds:
 .balign 32
+    mov         %esi, %esi                              # the upper 32 bits of a 32-bit argument are undefined
     lea             rhotates_left+96(%rip),%r8
     lea             rhotates_right+96(%rip),%r9
     lea             iotas+24*4*8(%rip),%r10
@@ -669,6 +675,7 @@ _KeccakP1600_Permute_Nrounds:
 KeccakF1600_FastLoop_Absorb:
 _KeccakF1600_FastLoop_Absorb:
 .balign 32
+    mov         %esi, %esi                              # the upper 32 bits of a 32-bit argument are undefined
     push            %rbx
     push            %r10
     shr             $3, %rcx                # rcx = data length in lanes
@@ -848,6 +855,7 @@ KeccakF1600_FastLoop_Absorb_LanesAddLoop:
 KeccakP1600_12rounds_FastLoop_Absorb:
 _KeccakP1600_12rounds_FastLoop_Absorb:
 .balign 32
+    mov         %esi, %esi                              # the upper 32 bits of a 32-bit argument are undefined
     push            %rbx
     push            %r10
     shr             $3, %rcx                # rcx = data length in lanes
diff --git a/lib/low/KeccakP-1600/AVX512/KeccakP-1600-AVX512.s b/lib/low/KeccakP-1600/AVX512/KeccakP-1600-AVX512.s
index a61499d..38d1241 100644
--- a/lib/low/KeccakP-1600/AVX512/KeccakP-1600-AVX512.s
+++ b/lib/low/KeccakP-1600/AVX512/KeccakP-1600-AVX512.s
@@ -72,6 +72,8 @@ _KeccakP1600_Initialize:
 KeccakP1600_AddBytes:
 _KeccakP1600_AddBytes:
 .balign 32
+    mov         %edx, %edx                              # the upper 32 bits of a 32-bit argument are undefined
+    mov         %ecx, %ecx
     cmp         $0, %rcx
     jz          KeccakP1600_AddBytes_Exit
     add            %rdx, %rdi                                # state += offset
@@ -127,6 +129,8 @@ KeccakP1600_AddBytes_Exit:
 KeccakP1600_OverwriteBytes:
 _KeccakP1600_OverwriteBytes:
 .balign 32
+    mov         %edx, %edx                              # the upper 32 bits of a 32-bit argument are undefined
+    mov         %ecx, %ecx
     cmp         $0, %rcx
     jz          KeccakP1600_OverwriteBytes_Exit
     add         %rdx, %rdi                              # state += offset
@@ -182,6 +186,7 @@ KeccakP1600_OverwriteBytes_Exit:
 KeccakP1600_OverwriteWithZeroes:
 _KeccakP1600_OverwriteWithZeroes:
 .balign 32
+    mov         %esi, %esi                              # the upper 32 bits of a 32-bit argument are undefined
     cmp         $0, %rsi
     jz          KeccakP1600_OverwriteWithZeroes_Exit
     jmp         KeccakP1600_OverwriteWithZeroes_LaneAlignedCheck
@@ -218,6 +223,8 @@ KeccakP1600_OverwriteWithZeroes_Exit:
 KeccakP1600_ExtractBytes:
 _KeccakP1600_ExtractBytes:
 .balign 32
+    mov         %edx, %edx                              # the upper 32 bits of a 32-bit argument are undefined
+    mov         %ecx, %ecx
     cmp         $0, %rcx
     jz          KeccakP1600_ExtractBytes_Exit
     add         %rdx, %rdi                              # state += offset
@@ -273,6 +280,8 @@ KeccakP1600_ExtractBytes_Exit:
 KeccakP1600_ExtractAndAddBytes:
 _KeccakP1600_ExtractAndAddBytes:
 .balign 32
+    mov         %ecx, %ecx                              # the upper 32 bits of a 32-bit argument are undefined
+    mov         %r8d, %r8d
     push        %rbx
     cmp         $0, %r8
     jz          KeccakP1600_ExtractAndAddBytes_Exit
@@ -580,6 +589,7 @@ _KeccakP1600_Permute_12rounds:
 KeccakP1600_Permute_Nrounds:
 _KeccakP1600_Permute_Nrounds:
 .balign 32
+    mov         %esi, %esi                              # the upper 32 bits of a 32-bit argument are undefined
     lea         96(%rdi),%rdi
     lea         theta_perm(%rip),%r8
     kxnorw      %k6,%k6,%k6
@@ -713,6 +723,7 @@ _KeccakP1600_Permute_Nrounds:
 KeccakF1600_FastLoop_Absorb:
 _KeccakF1600_FastLoop_Absorb:
 .balign 32
+    mov         %esi, %esi                              # the upper 32 bits of a 32-bit argument are undefined
     push            %rbx
     push            %r10
     shr             $3, %rcx                # rcx = data length in lanes
@@ -852,6 +863,7 @@ KeccakF1600_FastLoop_Absorb_LanesAddLoop:
 KeccakP1600_12rounds_FastLoop_Absorb:
 _KeccakP1600_12rounds_FastLoop_Absorb:
 .balign 32
+    mov         %esi, %esi                              # the upper 32 bits of a 32-bit argument are undefined
     push            %rbx
     push            %r10
     shr             $3, %rcx                # rcx = data length in lanes
diff --git a/lib/low/KeccakP-1600/x86-64/KeccakP-1600-x86-64-gas.s b/lib/low/KeccakP-1600/x86-64/KeccakP-1600-x86-64-gas.s
index 3ccf9f4..057eded 100644
--- a/lib/low/KeccakP-1600/x86-64/KeccakP-1600-x86-64-gas.s
+++ b/lib/low/KeccakP-1600/x86-64/KeccakP-1600-x86-64-gas.s
@@ -643,6 +643,7 @@ KeccakP1600_Initialize:
     .global KeccakP1600_AddByte
     .type   KeccakP1600_AddByte, %function
 KeccakP1600_AddByte:
+    movl    %edx, %edx                  # the upper 32 bits of a 32-bit argument are undefined
     addq    arg3, arg1
     mov     arg2, %rax
     xorb    %al, (arg1)
@@ -657,6 +658,7 @@ KeccakP1600_AddByte:
     .global KeccakP1600_AddBytes
     .type   KeccakP1600_AddBytes, %function
 KeccakP1600_AddBytes:
+    movl    %edx, %edx                  # the upper 32 bits of a 32-bit argument are undefined
     pushq   rT1e
     pushq   rT1i
     pushq   rT1o
@@ -753,6 +755,8 @@ KeccakLaneComplementTable:
     .global KeccakP1600_OverwriteBytes
     .type   KeccakP1600_OverwriteBytes, %function
 KeccakP1600_OverwriteBytes:
+    movl    %edx, %edx                  # the upper 32 bits of a 32-bit argument are undefined
+    movl    %ecx, %ecx
     addq    arg3, arg1
     leaq    KeccakLaneComplementTable(%rip), arg5
     addq    arg3, arg5
@@ -791,6 +795,7 @@ KeccakP1600_OverwriteBytes_Exit:
     .global KeccakP1600_OverwriteWithZeroes
     .type   KeccakP1600_OverwriteWithZeroes, %function
 KeccakP1600_OverwriteWithZeroes:
+    movl    %esi, %esi                  # the upper 32 bits of a 32-bit argument are undefined
     leaq    KeccakLaneComplementTable(%rip), arg5
     subq    $8, arg2
     jc      KeccakP1600_OverwriteWithZeroes_Bytes
@@ -825,6 +830,8 @@ KeccakP1600_OverwriteWithZeroes_Exit:
     .global KeccakP1600_ExtractBytes
     .type   KeccakP1600_ExtractBytes, %function
 KeccakP1600_ExtractBytes:
+    movl    %edx, %edx                  # the upper 32 bits of a 32-bit argument are undefined
+    movl    %ecx, %ecx
     addq    arg3, arg1
     leaq    KeccakLaneComplementTable(%rip), arg5
     addq    arg3, arg5
@@ -863,6 +870,8 @@ KeccakP1600_ExtractBytes_Exit:
     .global KeccakP1600_ExtractAndAddBytes
     .type   KeccakP1600_ExtractAndAddBytes, %function
 KeccakP1600_ExtractAndAddBytes:
+    movl    %ecx, %ecx                  # the upper 32 bits of a 32-bit argument are undefined
+    movl    %r8d, %r8d
     addq    arg4, arg1
     leaq    KeccakLaneComplementTable(%rip), arg6
     addq    arg4, arg6
@@ -905,6 +914,7 @@ KeccakP1600_ExtractAndAddBytes_Exit:
     .global KeccakP1600_Permute_Nrounds
     .type   KeccakP1600_Permute_Nrounds, %function
 KeccakP1600_Permute_Nrounds:
+    movl    %esi, %esi                  # the upper 32 bits of a 32-bit argument are undefined
     mPushRegs
     subq    $8*25, %rsp
     movq    arg2, rT1
diff --git a/lib/low/KeccakP-1600/x86-64/KeccakP-1600-x86-64-gas_Apple.s b/lib/low/KeccakP-1600/x86-64/KeccakP-1600-x86-64-gas_Apple.s
index 777e01a..543215d 100644
--- a/lib/low/KeccakP-1600/x86-64/KeccakP-1600-x86-64-gas_Apple.s
+++ b/lib/low/KeccakP-1600/x86-64/KeccakP-1600-x86-64-gas_Apple.s
@@ -589,6 +589,7 @@ _KeccakP1600_Initialize:
     .align  8
     .globl _KeccakP1600_AddByte
 _KeccakP1600_AddByte:
+    movl    %edx, %edx                  # the upper 32 bits of a 32-bit argument are undefined
     addq    arg3, arg1
     mov     arg2, %rax
     xorb    %al, (arg1)
@@ -601,6 +602,7 @@ _KeccakP1600_AddByte:
     .align  8
     .globl _KeccakP1600_AddBytes
 _KeccakP1600_AddBytes:
+    movl    %edx, %edx                  # the upper 32 bits of a 32-bit argument are undefined
     pushq   rT1e
     pushq   rT1i
     pushq   rT1o
@@ -695,6 +697,8 @@ KeccakLaneComplementTable:
     .align  8
     .globl _KeccakP1600_OverwriteBytes
 _KeccakP1600_OverwriteBytes:
+    movl    %edx, %edx                  # the upper 32 bits of a 32-bit argument are undefined
+    movl    %ecx, %ecx
     addq    arg3, arg1
     leaq    KeccakLaneComplementTable(%rip), arg5
     addq    arg3, arg5
@@ -731,6 +735,7 @@ KeccakP1600_OverwriteBytes_Exit:
     .align  8
     .globl _KeccakP1600_OverwriteWithZeroes
 _KeccakP1600_OverwriteWithZeroes:
+    movl    %esi, %esi                  # the upper 32 bits of a 32-bit argument are undefined
     leaq    KeccakLaneComplementTable(%rip), arg5
     subq    $8, arg2
     jc      KeccakP1600_OverwriteWithZeroes_Bytes
@@ -763,6 +768,8 @@ KeccakP1600_OverwriteWithZeroes_Exit:
     .align  8
     .globl _KeccakP1600_ExtractBytes
 _KeccakP1600_ExtractBytes:
+    movl    %edx, %edx                  # the upper 32 bits of a 32-bit argument are undefined
+    movl    %ecx, %ecx
     addq    arg3, arg1
     leaq    KeccakLaneComplementTable(%rip), arg5
     addq    arg3, arg5
@@ -799,6 +806,8 @@ KeccakP1600_ExtractBytes_Exit:
     .align  8
     .globl _KeccakP1600_ExtractAndAddBytes
 _KeccakP1600_ExtractAndAddBytes:
+    movl    %ecx, %ecx                  # the upper 32 bits of a 32-bit argument are undefined
+    movl    %r8d, %r8d
     addq    arg4, arg1
     leaq    KeccakLaneComplementTable(%rip), arg6
     addq    arg4, arg6
@@ -839,6 +848,7 @@ KeccakP1600_ExtractAndAddBytes_Exit:
     .align  8
     .globl _KeccakP1600_Permute_Nrounds
 _KeccakP1600_Permute_Nrounds:
+    movl    %esi, %esi                  # the upper 32 bits of a 32-bit argument are undefined
     mPushRegs
     subq    $8*25, %rsp
     movq    arg2, rT1
diff --git a/lib/low/KeccakP-1600/x86-64/KeccakP-1600-x86-64-shld-gas.s b/lib/low/KeccakP-1600/x86-64/KeccakP-1600-x86-64-shld-gas.s
index 784bcf0..9237308 100644
--- a/lib/low/KeccakP-1600/x86-64/KeccakP-1600-x86-64-shld-gas.s
+++ b/lib/low/KeccakP-1600/x86-64/KeccakP-1600-x86-64-shld-gas.s
@@ -643,6 +643,7 @@ KeccakP1600_Initialize:
     .global KeccakP1600_AddByte
     .type   KeccakP1600_AddByte, %function
 KeccakP1600_AddByte:
+    movl    %edx, %edx                  # the upper 32 bits of a 32-bit argument are undefined
     addq    arg3, arg1
     mov     arg2, %rax
     xorb    %al, (arg1)
@@ -657,6 +658,7 @@ KeccakP1600_AddByte:
     .global KeccakP1600_AddBytes
     .type   KeccakP1600_AddBytes, %function
 KeccakP1600_AddBytes:
+    movl    %edx, %edx                  # the upper 32 bits of a 32-bit argument are undefined
     pushq   rT1e
     pushq   rT1i
     pushq   rT1o
@@ -753,6 +755,8 @@ KeccakLaneComplementTable:
     .global KeccakP1600_OverwriteBytes
     .type   KeccakP1600_OverwriteBytes, %function
 KeccakP1600_OverwriteBytes:
+    movl    %edx, %edx                  # the upper 32 bits of a 32-bit argument are undefined
+    movl    %ecx, %ecx
     addq    arg3, arg1
     leaq    KeccakLaneComplementTable(%rip), arg5
     addq    arg3, arg5
@@ -791,6 +795,7 @@ KeccakP1600_OverwriteBytes_Exit:
     .global KeccakP1600_OverwriteWithZeroes
     .type   KeccakP1600_OverwriteWithZeroes, %function
 KeccakP1600_OverwriteWithZeroes:
+    movl    %esi, %esi                  # the upper 32 bits of a 32-bit argument are undefined
     leaq    KeccakLaneComplementTable(%rip), arg5
     subq    $8, arg2
     jc      KeccakP1600_OverwriteWithZeroes_Bytes
@@ -825,6 +830,8 @@ KeccakP1600_OverwriteWithZeroes_Exit:
     .global KeccakP1600_ExtractBytes
     .type   KeccakP1600_ExtractBytes, %function
 KeccakP1600_ExtractBytes:
+    movl    %edx, %edx                  # the upper 32 bits of a 32-bit argument are undefined
+    movl    %ecx, %ecx
     addq    arg3, arg1
     leaq    KeccakLaneComplementTable(%rip), arg5
     addq    arg3, arg5
@@ -863,6 +870,8 @@ KeccakP1600_ExtractBytes_Exit:
     .global KeccakP1600_ExtractAndAddBytes
     .type   KeccakP1600_ExtractAndAddBytes, %function
 KeccakP1600_ExtractAndAddBytes:
+    movl    %ecx, %ecx                  # the upper 32 bits of a 32-bit argument are undefined
+    movl    %r8d, %r8d
     addq    arg4, arg1
     leaq    KeccakLaneComplementTable(%rip), arg6
     addq    arg4, arg6
@@ -905,6 +914,7 @@ KeccakP1600_ExtractAndAddBytes_Exit:
     .global KeccakP1600_Permute_Nrounds
     .type   KeccakP1600_Permute_Nrounds, %function
 KeccakP1600_Permute_Nrounds:
+    movl    %esi, %esi                  # the upper 32 bits of a 32-bit argument are undefined
     mPushRegs
     subq    $8*25, %rsp
     movq    arg2, rT1
-- 
2.43.0


From 7868b85355b29ee07605e7218650686b6c859a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:27 +0000
Subject: [PATCH 16/22] fix: ARMv8A assembly: do not rely on the upper 32 bits
 of 32-bit arguments

The procedure call standard leaves them undefined.
---
 .../KeccakP-1600/ARMv8A/KeccakP-1600-armv8a-neon.s | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/low/KeccakP-1600/ARMv8A/KeccakP-1600-armv8a-neon.s b/lib/low/KeccakP-1600/ARMv8A/KeccakP-1600-armv8a-neon.s
index 2dbd30f..1118131 100644
--- a/lib/low/KeccakP-1600/ARMv8A/KeccakP-1600-armv8a-neon.s
+++ b/lib/low/KeccakP-1600/ARMv8A/KeccakP-1600-armv8a-neon.s
@@ -284,9 +284,9 @@ KeccakP1600_Initialize:
 .align 8
 .global   KeccakP1600_AddByte
 KeccakP1600_AddByte:
-    ldrb    w3, [x0, x2]
+    ldrb    w3, [x0, w2, uxtw] // The upper 32 bits of a 32-bit argument are undefined
     eor     w3, w3, w1
-    strb    w3, [x0, x2]
+    strb    w3, [x0, w2, uxtw]
     ret
 
 
@@ -297,7 +297,7 @@ KeccakP1600_AddByte:
 .align 8
 .global   KeccakP1600_AddBytes
 KeccakP1600_AddBytes:
-    add     x0, x0, x2
+    add     x0, x0, w2, uxtw
     subs    w4, w3, #1
     b.cc    KeccakP1600_AddBytes_Exit // length 0, move along
 KeccakP1600_AddBytes_8LanesLoop: // Go 8 lanes=64 bytes at a time
@@ -341,7 +341,7 @@ KeccakP1600_AddBytes_Exit:
 .align 8
 .global   KeccakP1600_OverwriteBytes
 KeccakP1600_OverwriteBytes:
-    add     x0, x0, x2
+    add     x0, x0, w2, uxtw
     subs    w4, w3, #1
     b.cc    KeccakP1600_OverwriteBytes_Exit
 KeccakP1600_OverwriteBytes_8LanesLoop:
@@ -414,7 +414,7 @@ KeccakP1600_OverwriteWithZeroes_Exit:
 .align 8
 .global   KeccakP1600_ExtractBytes
 KeccakP1600_ExtractBytes:
-    add     x0, x0, x2
+    add     x0, x0, w2, uxtw
     subs    w4, w3, #1
     b.cc    KeccakP1600_ExtractBytes_Exit
 KeccakP1600_ExtractBytes_8LanesLoop:
@@ -450,7 +450,7 @@ KeccakP1600_ExtractBytes_Exit:
 .align 8
 .global   KeccakP1600_ExtractAndAddBytes
 KeccakP1600_ExtractAndAddBytes:
-    add     x0, x0, x3
+    add     x0, x0, w3, uxtw
     subs    w5, w4, #1
     b.cc    KeccakP1600_ExtractAndAddBytes_Exit
 KeccakP1600_ExtractAndAddBytes_8LanesLoop:
@@ -494,7 +494,7 @@ KeccakP1600_ExtractAndAddBytes_Exit:
 .align 8
 .global   KeccakP1600_Permute_Nrounds
 KeccakP1600_Permute_Nrounds:
-    mov     x2, x1
+    mov     w2, w1
     adr     x1, KeccakP1600_Permute_RoundConstants0
 	lsl		x3, x2, #3
 	sub		x1, x1, x3
-- 
2.43.0


From 5bf3a5d2d86d41d031ee448b19b70ccde198efa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:27 +0000
Subject: [PATCH 17/22] fix: Xoodoo-times4 ARMv7A: preserve d8-d15 in
 AddLanesAll

The path for 12 aligned lanes used these callee-saved registers without saving them.
---
 lib/low/Xoodoo-times4/ARMv7A-NEON/Xoodoo-times4-ARMv7A.s | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/low/Xoodoo-times4/ARMv7A-NEON/Xoodoo-times4-ARMv7A.s b/lib/low/Xoodoo-times4/ARMv7A-NEON/Xoodoo-times4-ARMv7A.s
index 555e3e3..d75c0ef 100644
--- a/lib/low/Xoodoo-times4/ARMv7A-NEON/Xoodoo-times4-ARMv7A.s
+++ b/lib/low/Xoodoo-times4/ARMv7A-NEON/Xoodoo-times4-ARMv7A.s
@@ -174,6 +174,7 @@ Xt4_AddLanesAll_Unaligned_Loop:
   bcs       Xt4_AddLanesAll_Unaligned_Loop
   pop       {r4-r7,pc}
 Xt4_AddLanesAll_Full:
+  vpush     {d8-d15}
   vldm      r1!, {d0-d15}
   vuzp.32   q0, q6
   vldm      r1, {d16-d23}
@@ -209,6 +210,7 @@ Xt4_AddLanesAll_Full:
   veor      q14, q5, q14
   veor      q15, q11, q15
   vstm      r0, {d24-d31}
+  vpop      {d8-d15}
   mov       pc, r3
 
 @ Xoodootimes4_OverwriteBytes: Xoodootimes4_SIMD128_states * states -> uint instanceIndex -> const uchar * data -> uint offset -> uint length -> void
-- 
2.43.0


From 8063363959b1184a87471dddf5a972a9aa0ae095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:46 +0000
Subject: [PATCH 18/22] fix: Xoodoo-times4 and -times8 AVX-512 compression read
 the accumulator without assuming 64-byte alignment

Xoofff only aligns it on 16 (times 4) or 32 (times 8) bytes when no higher
parallelism is selected, so that the aligned load could fault.
---
 lib/low/Xoodoo-times4/AVX512/Xoodoo-times4-SIMD512.c | 8 ++++----
 lib/low/Xoodoo-times8/AVX512/Xoodoo-times8-SIMD512.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/low/Xoodoo-times4/AVX512/Xoodoo-times4-SIMD512.c b/lib/low/Xoodoo-times4/AVX512/Xoodoo-times4-SIMD512.c
index d51fbbc..a6e1715 100644
--- a/lib/low/Xoodoo-times4/AVX512/Xoodoo-times4-SIMD512.c
+++ b/lib/low/Xoodoo-times4/AVX512/Xoodoo-times4-SIMD512.c
@@ -40,7 +40,7 @@ typedef struct
     uint32_t x[16];
 } __m512i;
 
-static void _mm512_mask_store_epi64(void *mem_addr, uint8_t k, __m512i a)
+static void _mm512_mask_storeu_epi64(void *mem_addr, uint8_t k, __m512i a)
 {
     uint64_t *p64 = (uint64_t *)mem_addr;
     unsigned int i;
@@ -51,7 +51,7 @@ static void _mm512_mask_store_epi64(void *mem_addr, uint8_t k, __m512i a)
     }
 }
 
-static __m512i _mm512_maskz_load_epi64(uint8_t k, const void *mem_addr)
+static __m512i _mm512_maskz_loadu_epi64(uint8_t k, const void *mem_addr)
 {
     __m512i r;
     const uint64_t *p64 = (const uint64_t *)mem_addr;
@@ -1092,8 +1092,8 @@ size_t Xooffftimes4_CompressFastLoop(unsigned char *k, unsigned char *x, const u
     x512 = _mm512_inserti64x4 (_mm512_castsi256_si512(x256), _mm256_castsi128_si256(x20), 1);
 
     /*  load xAccu, xor and store 12 lanes */
-    x512 = XOR512(x512, _mm512_maskz_load_epi64(0x3F, x32));
-    _mm512_mask_store_epi64(x32, 0x3F, x512);
+    x512 = XOR512(x512, _mm512_maskz_loadu_epi64(0x3F, x32));
+    _mm512_mask_storeu_epi64(x32, 0x3F, x512);
     DUMP32_12("x32",x32);
 
     /* Save new k */
diff --git a/lib/low/Xoodoo-times8/AVX512/Xoodoo-times8-SIMD512.c b/lib/low/Xoodoo-times8/AVX512/Xoodoo-times8-SIMD512.c
index d2eaa93..b9a20fc 100644
--- a/lib/low/Xoodoo-times8/AVX512/Xoodoo-times8-SIMD512.c
+++ b/lib/low/Xoodoo-times8/AVX512/Xoodoo-times8-SIMD512.c
@@ -41,7 +41,7 @@ typedef struct
     uint32_t x[16];
 } __m512i;
 
-static void _mm512_mask_store_epi64(void *mem_addr, uint8_t k, __m512i a)
+static void _mm512_mask_storeu_epi64(void *mem_addr, uint8_t k, __m512i a)
 {
     uint64_t *p64 = (uint64_t *)mem_addr;
     unsigned int i;
@@ -52,7 +52,7 @@ static void _mm512_mask_store_epi64(void *mem_addr, uint8_t k, __m512i a)
     }
 }
 
-static __m512i _mm512_maskz_load_epi64(uint8_t k, const void *mem_addr)
+static __m512i _mm512_maskz_loadu_epi64(uint8_t k, const void *mem_addr)
 {
     __m512i r;
     const uint64_t *p64 = (const uint64_t *)mem_addr;
@@ -1110,8 +1110,8 @@ size_t Xooffftimes8_CompressFastLoop(unsigned char *k, unsigned char *x, const u
     x512 = _mm512_inserti64x4 (_mm512_castsi256_si512(x00), x20, 1);
 
     /*  load xAccu, xor and store 12 lanes */
-    x512 = XOR512(x512, _mm512_maskz_load_epi64(0x3F, x32));
-    _mm512_mask_store_epi64(x32, 0x3F, x512);
+    x512 = XOR512(x512, _mm512_maskz_loadu_epi64(0x3F, x32));
+    _mm512_mask_storeu_epi64(x32, 0x3F, x512);
     DUMP32_12("x32",x32);
 
     /* Save new k */
-- 
2.43.0


From 2fe775e86412051732f669590a13c145e1af31c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:18 +0000
Subject: [PATCH 19/22] fix: Xoofff aligns its buffers as the serial Xoodoo
 implementation needs

With Xoodoo-AVX512 and no parallel implementation, the compression and expansion
loops use aligned 128-bit accesses on buffers that were only 4-byte aligned.
---
 lib/high/Xoofff/Xoofff.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/high/Xoofff/Xoofff.h b/lib/high/Xoofff/Xoofff.h
index ea3c61f..1f7cf44 100644
--- a/lib/high/Xoofff/Xoofff.h
+++ b/lib/high/Xoofff/Xoofff.h
@@ -69,7 +69,11 @@ typedef enum
     #endif
 #else
     #define XoodooMaxParallellism   1
-    #define XoodooAlignment         4
+    #if defined(Xoodoo_stateAlignment) && (Xoodoo_stateAlignment > 4)
+        #define XoodooAlignment     Xoodoo_stateAlignment
+    #else
+        #define XoodooAlignment     4
+    #endif
 #endif
 
 typedef struct {
-- 
2.43.0


From ef2b26af8f07a685ab59c68c1fe702c919ac941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:18 +0000
Subject: [PATCH 20/22] fix: KeccakP-1600-times8 AVX-512 with 4 rounds unrolled
 did not compile

---
 .../AVX512/KeccakP-1600-times8-SIMD512.c           | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c b/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c
index 9784f5a..03fc875 100644
--- a/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c
+++ b/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c
@@ -1209,6 +1209,9 @@ void KeccakP1600times8_KT128ProcessLeaves(const unsigned char *input, unsigned c
 {
     KeccakP_DeclareVars;
     unsigned int j;
+    #if (KeccakP1600times8_unrolling < 12)
+    unsigned int i;
+    #endif
     const uint64_t *outputAsLanes = (const uint64_t *)output;
     __m256i index;
     __m512i t0, t1, t2, t3, t4, t5, t6, t7;
@@ -1219,14 +1222,14 @@ void KeccakP1600times8_KT128ProcessLeaves(const unsigned char *input, unsigned c
     index = LOAD8_32(7*(chunkSize / 8), 6*(chunkSize / 8), 5*(chunkSize / 8), 4*(chunkSize / 8), 3*(chunkSize / 8), 2*(chunkSize / 8), 1*(chunkSize / 8), 0*(chunkSize / 8));
     for(j = 0; j < (chunkSize - KT128_rateInBytes); j += KT128_rateInBytes) {
         XORdata21(_, index, (const uint64_t *)input);
-        rounds12
+        rounds12;
         input += KT128_rateInBytes;
     }
 
     XORdata16(_, index, (const uint64_t *)input);
     XOReq(_me, CONST_64(0x0BULL));
     XOReq(_sa, CONST_64(0x8000000000000000ULL));
-    rounds12
+    rounds12;
 
     index = LOAD8_32(7*4, 6*4, 5*4, 4*4, 3*4, 2*4, 1*4, 0*4);
     STORE_SCATTER8_64(outputAsLanes+0, index, _ba);
@@ -1239,6 +1242,9 @@ void KeccakP1600times8_KT256ProcessLeaves(const unsigned char *input, unsigned c
 {
     KeccakP_DeclareVars;
     unsigned int j;
+    #if (KeccakP1600times8_unrolling < 12)
+    unsigned int i;
+    #endif
     const uint64_t *outputAsLanes = (const uint64_t *)output;
     __m256i index;
     __m512i t0, t1, t2, t3, t4, t5, t6, t7;
@@ -1249,14 +1255,14 @@ void KeccakP1600times8_KT256ProcessLeaves(const unsigned char *input, unsigned c
     index = LOAD8_32(7*(chunkSize / 8), 6*(chunkSize / 8), 5*(chunkSize / 8), 4*(chunkSize / 8), 3*(chunkSize / 8), 2*(chunkSize / 8), 1*(chunkSize / 8), 0*(chunkSize / 8));
     for(j = 0; j < (chunkSize - KT256_rateInBytes); j += KT256_rateInBytes) {
         XORdata17(_, index, (const uint64_t *)input);
-        rounds12
+        rounds12;
         input += KT256_rateInBytes;
     }
 
     XORdata4(_, index, (const uint64_t *)input);
     XOReq(_bu, CONST_64(0x0BULL));
     XOReq(_me, CONST_64(0x8000000000000000ULL));
-    rounds12
+    rounds12;
 
     index = LOAD8_32(7*8, 6*8, 5*8, 4*8, 3*8, 2*8, 1*8, 0*8);
     STORE_SCATTER8_64(outputAsLanes+0, index, _ba);
-- 
2.43.0


From 20f34908a4766be384d444b52fa569a1258f4d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:24 +0000
Subject: [PATCH 21/22] fix: Kravatte with AVX2 or AVX-512 in 32-bit x86 builds
 combined 64-bit words with a logical or

---
 lib/low/KeccakP-1600-times4/AVX2/KeccakP-1600-times4-SIMD256.c  | 2 +-
 .../KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/low/KeccakP-1600-times4/AVX2/KeccakP-1600-times4-SIMD256.c b/lib/low/KeccakP-1600-times4/AVX2/KeccakP-1600-times4-SIMD256.c
index a3e3a86..6372df1 100644
--- a/lib/low/KeccakP-1600-times4/AVX2/KeccakP-1600-times4-SIMD256.c
+++ b/lib/low/KeccakP-1600-times4/AVX2/KeccakP-1600-times4-SIMD256.c
@@ -1156,7 +1156,7 @@ size_t KeccakP1600times4_12rounds_FastLoop_Absorb(KeccakP1600times4_states *stat
 
 #if defined(__i386__) || defined(_M_IX86)
 #define _mm256_extract_epi64(a, index) \
-    ((uint64_t)_mm256_extract_epi32((a), (index)*2) || ((uint64_t)_mm256_extract_epi32((a), (index)*2+1) << 32))
+    ((uint64_t)(uint32_t)_mm256_extract_epi32((a), (index)*2) | ((uint64_t)(uint32_t)_mm256_extract_epi32((a), (index)*2+1) << 32))
 #endif
 
 #define ExtrAccu( lanes, p, argIndex ) p[argIndex] ^= _mm256_extract_epi64(lanes, 0) ^ _mm256_extract_epi64(lanes, 1) \
diff --git a/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c b/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c
index 03fc875..53be079 100644
--- a/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c
+++ b/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c
@@ -1336,7 +1336,7 @@ ALIGN(32) static const uint32_t     oGatherScatter[]= {0*25, 1*25, 2*25, 3*25, 4
 
 #if defined(__i386__) || defined(_M_IX86)
 #define _mm256_extract_epi64(a, index) \
-    ((uint64_t)_mm256_extract_epi32((a), (index)*2) || ((uint64_t)_mm256_extract_epi32((a), (index)*2+1) << 32))
+    ((uint64_t)(uint32_t)_mm256_extract_epi32((a), (index)*2) | ((uint64_t)(uint32_t)_mm256_extract_epi32((a), (index)*2+1) << 32))
 #endif
 
 size_t KeccakP1600times8_KravatteCompress(uint64_t *xAccu, uint64_t *kRoll, const unsigned char *input, size_t inputByteLen)
-- 
2.43.0


From 0d7bb0a8e45f179ab7bc6b987a7c44d71aae6b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:24 +0000
Subject: [PATCH 22/22] fix: Xoodyak with SSE2 in 32-bit x86 builds did not
 compile (extra arguments of _mm_cvtsi128_si32)

---
 lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c b/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c
index ea6e038..f5aeee6 100644
--- a/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c
+++ b/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c
@@ -360,8 +360,8 @@ size_t Xoodyak_DecryptFullBlocks(Xoodoo_align128plain32_state *state, const uint
         *((uint32_t*)(O+20)) = i2 ^ _mm_cvtsi128_si32(_mm_srli_si128(a1,4));
         a1 = _mm_set_epi32(
             // preserve high words
-            _mm_cvtsi128_si32(_mm_srli_si128(a1,12), 3),
-            _mm_cvtsi128_si32(_mm_srli_si128(a1,8), 2),
+            _mm_cvtsi128_si32(_mm_srli_si128(a1,12)),
+            _mm_cvtsi128_si32(_mm_srli_si128(a1,8)),
             i2,
             i1);
 #else
-- 
2.43.0

