From c72b3d963f0de421a4dd847b3a9099ce992b2a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:29 +0000
Subject: [PATCH 01/11] fix: Crop and CropAbs accepted areas outside the frame
 when offset plus size overflowed

---
 src/core/simplefilters.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 6b82c43..9569a6a 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -119,7 +119,7 @@ static int cropVerify(int x, int y, int width, int height, int srcwidth, int src
         snprintf(msg, len, "Crop: negative/zero cropping dimensions not allowed");
 
     if (srcheight > 0 && srcwidth > 0)
-        if (srcheight < height + y || srcwidth < width + x)
+        if (srcheight < static_cast<int64_t>(height) + y || srcwidth < static_cast<int64_t>(width) + x)
             snprintf(msg, len, "Crop: cropped area extends beyond frame dimensions");
 
     if (fi) {
@@ -228,8 +228,8 @@ static void VS_CC cropRelCreate(const VSMap *in, VSMap *out, void *userData, VSC
     d->x = vsapi->mapGetIntSaturated(in, "left", 0, &err);
     d->y = vsapi->mapGetIntSaturated(in, "top", 0, &err);
 
-    d->height = d->vi->height - d->y - vsapi->mapGetIntSaturated(in, "bottom", 0, &err);
-    d->width = d->vi->width - d->x - vsapi->mapGetIntSaturated(in, "right", 0, &err);
+    d->height = int64ToIntS(static_cast<int64_t>(d->vi->height) - d->y - vsapi->mapGetIntSaturated(in, "bottom", 0, &err));
+    d->width = int64ToIntS(static_cast<int64_t>(d->vi->width) - d->x - vsapi->mapGetIntSaturated(in, "right", 0, &err));
 
     // passthrough for the no cropping case
     if (d->x == 0 && d->y == 0 && d->width == d->vi->width && d->height == d->vi->height) {
-- 
2.43.0


From 7831d41d49a36dc4b64f3bd55d9692d57d3c735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:29 +0000
Subject: [PATCH 02/11] fix: ShufflePlanes accepted a plane ratio of 32, which
 no format can describe, and returned a clip without format

---
 src/core/simplefilters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 9569a6a..cb56e41 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -504,7 +504,7 @@ static const VSFrame *VS_CC shufflePlanesGetframe(int n, int activationReason, v
 }
 
 static int findSubSampling(int s1, int s2) {
-    for (int i = 0; i < 6; i++)
+    for (int i = 0; i < 5; i++)
         if (s1 - (s2 << i) == 0)
             return i;
     return -1;
-- 
2.43.0


From 0cebfa3528c6aedc81fd87f9142814a5a18f0d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:01 +0000
Subject: [PATCH 03/11] fix: Merge writes past its weight array when more than
 three weights are given

---
 src/core/mergefilters.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/mergefilters.cpp b/src/core/mergefilters.cpp
index e54e37f..6e1978c 100644
--- a/src/core/mergefilters.cpp
+++ b/src/core/mergefilters.cpp
@@ -389,6 +389,8 @@ static void VS_CC mergeCreate(const VSMap *in, VSMap *out, void *userData, VSCor
     std::unique_ptr<MergeData> d(new MergeData(vsapi));
 
     int nweight = vsapi->mapNumElements(in, "weight");
+    if (nweight > 3)
+        RETERROR("Merge: more weights given than the number of planes to merge");
     for (int i = 0; i < 3; i++)
         d->fweight[i] = 0.5f;
     for (int i = 0; i < nweight; i++)
-- 
2.43.0


From 130d055ee2f35ee43e1e7464b6661b78af67b49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:01 +0000
Subject: [PATCH 04/11] fix: MaskedMerge accepts a mask whose sample type
 differs from the clips

---
 src/core/mergefilters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/mergefilters.cpp b/src/core/mergefilters.cpp
index 6e1978c..8ef63ad 100644
--- a/src/core/mergefilters.cpp
+++ b/src/core/mergefilters.cpp
@@ -611,7 +611,7 @@ static void VS_CC maskedMergeCreate(const VSMap *in, VSMap *out, void *userData,
     if (!isConstantVideoFormat(d->vi) || !isSameVideoInfo(d->vi, vsapi->getVideoInfo(d->nodes[1])))
         RETERROR(("MaskedMerge: both clips must have the same constant format and dimensions, passed " + videoInfoToString(d->vi, vsapi) + " and " + videoInfoToString(vsapi->getVideoInfo(d->nodes[1]), vsapi)).c_str());
 
-    if (maskvi->width != d->vi->width || maskvi->height != d->vi->height || maskvi->format.bitsPerSample != d->vi->format.bitsPerSample
+    if (maskvi->width != d->vi->width || maskvi->height != d->vi->height || maskvi->format.bitsPerSample != d->vi->format.bitsPerSample || maskvi->format.sampleType != d->vi->format.sampleType
         || (!isSameVideoFormat(&maskvi->format, &d->vi->format) && maskvi->format.colorFamily != cfGray && !d->first_plane))
         RETERROR(("MaskedMerge: mask clip must have same dimensions as main clip and be the same format or grayscale, passed " + videoInfoToString(d->vi, vsapi) + " and " + videoInfoToString(maskvi, vsapi)).c_str());
 
-- 
2.43.0


From 3be505d502b9989250095a164daef3e91e754cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:29 +0000
Subject: [PATCH 05/11] fix: reject Lut/Lut2 calls that share planes across
 sample sizes or index planes missing from the second clip

Unprocessed planes are shared with the input frame, so with an output of a
different sample size the output plane extended past its buffer. Lut2 dereferenced
a null plane pointer when the second clip had fewer planes.
---
 src/core/lutfilters.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/core/lutfilters.cpp b/src/core/lutfilters.cpp
index d1dd677..0f8bd9a 100644
--- a/src/core/lutfilters.cpp
+++ b/src/core/lutfilters.cpp
@@ -281,6 +281,11 @@ static void VS_CC lutCreate(const VSMap *in, VSMap *out, void *userData, VSCore
 
         getPlanesArg(in, d->process, vsapi);
 
+        // unprocessed planes are shared with the input frame and can't change sample size
+        for (int plane = 0; plane < d->vi->format.numPlanes; plane++)
+            if (!d->process[plane] && d->vi_out.format.bytesPerSample != d->vi->format.bytesPerSample)
+                RETERROR("Lut: all planes must be processed when the output sample size differs from the input");
+
         VSFunction *func = vsapi->mapGetFunction(in, "function", 0, &err);
         int lut_elem = vsapi->mapNumElements(in, "lut");
         int lutf_elem = vsapi->mapNumElements(in, "lutf");
@@ -592,6 +597,14 @@ static void VS_CC lut2Create(const VSMap *in, VSMap *out, void *userData, VSCore
 
         getPlanesArg(in, d->process, vsapi);
 
+        for (int plane = 0; plane < d->vi[0]->format.numPlanes; plane++) {
+            if (d->process[plane] && plane >= d->vi[1]->format.numPlanes)
+                RETERROR("Lut2: all processed planes must exist in both clips");
+            // unprocessed planes are shared with the first input frame and can't change sample size
+            if (!d->process[plane] && d->vi_out.format.bytesPerSample != d->vi[0]->format.bytesPerSample)
+                RETERROR("Lut2: all planes must be processed when the output sample size differs from the first clip");
+        }
+
         VSFunction *func = vsapi->mapGetFunction(in, "function", 0, &err);
         int lut_elem = vsapi->mapNumElements(in, "lut");
         int lutf_elem = vsapi->mapNumElements(in, "lutf");
-- 
2.43.0


From d590776e2a97a86f8974510fa330c94f5b1cc1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:36 +0000
Subject: [PATCH 06/11] fix: clamp before the float to int conversion in the
 SIMD convolution and edge kernels

---
 src/core/kernel/x86/convolution_avx2.cpp   | 25 +++++++++++++---------
 src/core/kernel/x86/convolution_avx512.cpp | 25 +++++++++++++---------
 src/core/kernel/x86/convolution_sse2.cpp   | 13 +++++++----
 src/core/kernel/x86/generic_avx2.cpp       |  3 ++-
 src/core/kernel/x86/generic_avx512.cpp     |  3 ++-
 src/core/kernel/x86/generic_sse2.cpp       |  3 ++-
 src/core/kernel/x86/square_vnni_impl.h     |  4 ++--
 7 files changed, 47 insertions(+), 29 deletions(-)

diff --git a/src/core/kernel/x86/convolution_avx2.cpp b/src/core/kernel/x86/convolution_avx2.cpp
index b28d773..3cbf450 100644
--- a/src/core/kernel/x86/convolution_avx2.cpp
+++ b/src/core/kernel/x86/convolution_avx2.cpp
@@ -81,12 +81,17 @@ struct ISA_AVX2 {
     {
         return _mm256_and_ps(_mm256_fmadd_ps(x, scale, bias), mask);
     }
+    // Clamped first: values outside the int32 range all convert to INT32_MIN.
+    static ivec cvt_sat(fvec x)
+    {
+        return _mm256_cvtps_epi32(_mm256_min_ps(_mm256_max_ps(x, _mm256_setzero_ps()), _mm256_set1_ps(65535.0f)));
+    }
 
     static void store_u8(uint8_t *dst, ivec lo, ivec hi, fvec scale, fvec bias, fvec mask)
     {
         fvec t;
-        t = scale_bias_sat(_mm256_cvtepi32_ps(lo), scale, bias, mask); lo = _mm256_cvtps_epi32(t);
-        t = scale_bias_sat(_mm256_cvtepi32_ps(hi), scale, bias, mask); hi = _mm256_cvtps_epi32(t);
+        t = scale_bias_sat(_mm256_cvtepi32_ps(lo), scale, bias, mask); lo = cvt_sat(t);
+        t = scale_bias_sat(_mm256_cvtepi32_ps(hi), scale, bias, mask); hi = cvt_sat(t);
         lo = _mm256_packs_epi32(lo, hi);
         lo = _mm256_packus_epi16(lo, lo);
         lo = _mm256_permute4x64_epi64(lo, _MM_SHUFFLE(3, 1, 2, 0));
@@ -95,8 +100,8 @@ struct ISA_AVX2 {
     static void store_u16(uint16_t *dst, ivec lo, ivec hi, fvec scale, fvec bias, fvec mask, ivec maxval)
     {
         fvec t;
-        t = scale_bias_sat(_mm256_cvtepi32_ps(lo), scale, bias, mask); lo = _mm256_cvtps_epi32(t);
-        t = scale_bias_sat(_mm256_cvtepi32_ps(hi), scale, bias, mask); hi = _mm256_cvtps_epi32(t);
+        t = scale_bias_sat(_mm256_cvtepi32_ps(lo), scale, bias, mask); lo = cvt_sat(t);
+        t = scale_bias_sat(_mm256_cvtepi32_ps(hi), scale, bias, mask); hi = cvt_sat(t);
         lo = _mm256_packus_epi32(lo, hi);
         lo = _mm256_min_epu16(lo, maxval);
         _mm256_store_si256((__m256i *)dst, lo);
@@ -107,8 +112,8 @@ struct ISA_AVX2 {
     static void storeu_u8(uint8_t *dst, ivec lo, ivec hi, fvec scale, fvec bias, fvec mask)
     {
         fvec t;
-        t = scale_bias_sat(_mm256_cvtepi32_ps(lo), scale, bias, mask); lo = _mm256_cvtps_epi32(t);
-        t = scale_bias_sat(_mm256_cvtepi32_ps(hi), scale, bias, mask); hi = _mm256_cvtps_epi32(t);
+        t = scale_bias_sat(_mm256_cvtepi32_ps(lo), scale, bias, mask); lo = cvt_sat(t);
+        t = scale_bias_sat(_mm256_cvtepi32_ps(hi), scale, bias, mask); hi = cvt_sat(t);
         lo = _mm256_packs_epi32(lo, hi);
         lo = _mm256_packus_epi16(lo, lo);
         lo = _mm256_permute4x64_epi64(lo, _MM_SHUFFLE(3, 1, 2, 0));
@@ -117,8 +122,8 @@ struct ISA_AVX2 {
     static void storeu_u16(uint16_t *dst, ivec lo, ivec hi, fvec scale, fvec bias, fvec mask, ivec maxval)
     {
         fvec t;
-        t = scale_bias_sat(_mm256_cvtepi32_ps(lo), scale, bias, mask); lo = _mm256_cvtps_epi32(t);
-        t = scale_bias_sat(_mm256_cvtepi32_ps(hi), scale, bias, mask); hi = _mm256_cvtps_epi32(t);
+        t = scale_bias_sat(_mm256_cvtepi32_ps(lo), scale, bias, mask); lo = cvt_sat(t);
+        t = scale_bias_sat(_mm256_cvtepi32_ps(hi), scale, bias, mask); hi = cvt_sat(t);
         lo = _mm256_packus_epi32(lo, hi);
         lo = _mm256_min_epu16(lo, maxval);
         _mm256_storeu_si256((__m256i *)dst, lo);
@@ -146,8 +151,8 @@ struct ISA_AVX2 {
     {
         fvec flo = _mm256_insertf128_ps(_mm256_castps128_ps256(_mm256_cvtpd_ps(i64_to_pd(la))), _mm256_cvtpd_ps(i64_to_pd(lb)), 1);
         fvec fhi = _mm256_insertf128_ps(_mm256_castps128_ps256(_mm256_cvtpd_ps(i64_to_pd(ha))), _mm256_cvtpd_ps(i64_to_pd(hb)), 1);
-        flo = scale_bias_sat(flo, scale, bias, mask); ivec ilo = _mm256_cvtps_epi32(flo);
-        fhi = scale_bias_sat(fhi, scale, bias, mask); ivec ihi = _mm256_cvtps_epi32(fhi);
+        flo = scale_bias_sat(flo, scale, bias, mask); ivec ilo = cvt_sat(flo);
+        fhi = scale_bias_sat(fhi, scale, bias, mask); ivec ihi = cvt_sat(fhi);
         ivec out = _mm256_packus_epi32(ilo, ihi);
         out = _mm256_min_epu16(out, maxval);
         _mm256_storeu_si256((__m256i *)dst, out);
diff --git a/src/core/kernel/x86/convolution_avx512.cpp b/src/core/kernel/x86/convolution_avx512.cpp
index 929a128..7a1ee10 100644
--- a/src/core/kernel/x86/convolution_avx512.cpp
+++ b/src/core/kernel/x86/convolution_avx512.cpp
@@ -87,12 +87,17 @@ struct ISA_AVX512 {
     {
         return _mm512_and_ps(_mm512_fmadd_ps(x, scale, bias), mask);
     }
+    // Clamped first: values outside the int32 range all convert to INT32_MIN.
+    static ivec cvt_sat(fvec x)
+    {
+        return _mm512_cvtps_epi32(_mm512_min_ps(_mm512_max_ps(x, _mm512_setzero_ps()), _mm512_set1_ps(65535.0f)));
+    }
 
     static void store_u8(uint8_t *dst, ivec lo, ivec hi, fvec scale, fvec bias, fvec mask)
     {
         fvec t;
-        t = scale_bias_sat(_mm512_cvtepi32_ps(lo), scale, bias, mask); lo = _mm512_cvtps_epi32(t);
-        t = scale_bias_sat(_mm512_cvtepi32_ps(hi), scale, bias, mask); hi = _mm512_cvtps_epi32(t);
+        t = scale_bias_sat(_mm512_cvtepi32_ps(lo), scale, bias, mask); lo = cvt_sat(t);
+        t = scale_bias_sat(_mm512_cvtepi32_ps(hi), scale, bias, mask); hi = cvt_sat(t);
         lo = _mm512_packs_epi32(lo, hi);          // per-lane: 32 i16 linear [0..31]
         lo = _mm512_packus_epi16(lo, lo);         // per-lane: valid bytes in low qword
         // Gather the low qword of each 128-bit lane (qwords 0,2,4,6) into the low 256.
@@ -103,8 +108,8 @@ struct ISA_AVX512 {
     static void store_u16(uint16_t *dst, ivec lo, ivec hi, fvec scale, fvec bias, fvec mask, ivec maxval)
     {
         fvec t;
-        t = scale_bias_sat(_mm512_cvtepi32_ps(lo), scale, bias, mask); lo = _mm512_cvtps_epi32(t);
-        t = scale_bias_sat(_mm512_cvtepi32_ps(hi), scale, bias, mask); hi = _mm512_cvtps_epi32(t);
+        t = scale_bias_sat(_mm512_cvtepi32_ps(lo), scale, bias, mask); lo = cvt_sat(t);
+        t = scale_bias_sat(_mm512_cvtepi32_ps(hi), scale, bias, mask); hi = cvt_sat(t);
         lo = _mm512_packus_epi32(lo, hi);         // per-lane: 32 u16 linear [0..31]
         lo = _mm512_min_epu16(lo, maxval);
         _mm512_store_si512((void *)dst, lo);
@@ -115,8 +120,8 @@ struct ISA_AVX512 {
     static void storeu_u8(uint8_t *dst, ivec lo, ivec hi, fvec scale, fvec bias, fvec mask)
     {
         fvec t;
-        t = scale_bias_sat(_mm512_cvtepi32_ps(lo), scale, bias, mask); lo = _mm512_cvtps_epi32(t);
-        t = scale_bias_sat(_mm512_cvtepi32_ps(hi), scale, bias, mask); hi = _mm512_cvtps_epi32(t);
+        t = scale_bias_sat(_mm512_cvtepi32_ps(lo), scale, bias, mask); lo = cvt_sat(t);
+        t = scale_bias_sat(_mm512_cvtepi32_ps(hi), scale, bias, mask); hi = cvt_sat(t);
         lo = _mm512_packs_epi32(lo, hi);
         lo = _mm512_packus_epi16(lo, lo);
         ivec idx = _mm512_setr_epi64(0, 2, 4, 6, 1, 3, 5, 7);
@@ -126,8 +131,8 @@ struct ISA_AVX512 {
     static void storeu_u16(uint16_t *dst, ivec lo, ivec hi, fvec scale, fvec bias, fvec mask, ivec maxval)
     {
         fvec t;
-        t = scale_bias_sat(_mm512_cvtepi32_ps(lo), scale, bias, mask); lo = _mm512_cvtps_epi32(t);
-        t = scale_bias_sat(_mm512_cvtepi32_ps(hi), scale, bias, mask); hi = _mm512_cvtps_epi32(t);
+        t = scale_bias_sat(_mm512_cvtepi32_ps(lo), scale, bias, mask); lo = cvt_sat(t);
+        t = scale_bias_sat(_mm512_cvtepi32_ps(hi), scale, bias, mask); hi = cvt_sat(t);
         lo = _mm512_packus_epi32(lo, hi);
         lo = _mm512_min_epu16(lo, maxval);
         _mm512_storeu_si512((void *)dst, lo);
@@ -146,8 +151,8 @@ struct ISA_AVX512 {
     {
         fvec flo = _mm512_insertf32x8(_mm512_castps256_ps512(_mm512_cvtepi64_ps(la)), _mm512_cvtepi64_ps(lb), 1);
         fvec fhi = _mm512_insertf32x8(_mm512_castps256_ps512(_mm512_cvtepi64_ps(ha)), _mm512_cvtepi64_ps(hb), 1);
-        flo = scale_bias_sat(flo, scale, bias, mask); ivec ilo = _mm512_cvtps_epi32(flo);
-        fhi = scale_bias_sat(fhi, scale, bias, mask); ivec ihi = _mm512_cvtps_epi32(fhi);
+        flo = scale_bias_sat(flo, scale, bias, mask); ivec ilo = cvt_sat(flo);
+        fhi = scale_bias_sat(fhi, scale, bias, mask); ivec ihi = cvt_sat(fhi);
         ivec out = _mm512_packus_epi32(ilo, ihi);
         out = _mm512_min_epu16(out, maxval);
         _mm512_storeu_si512((void *)dst, out);
diff --git a/src/core/kernel/x86/convolution_sse2.cpp b/src/core/kernel/x86/convolution_sse2.cpp
index ff41156..7692a0c 100644
--- a/src/core/kernel/x86/convolution_sse2.cpp
+++ b/src/core/kernel/x86/convolution_sse2.cpp
@@ -84,12 +84,17 @@ struct ISA_SSE2 {
     {
         return _mm_and_ps(_mm_add_ps(_mm_mul_ps(x, scale), bias), mask);
     }
+    // Clamped first: values outside the int32 range all convert to INT32_MIN.
+    static ivec cvt_sat(fvec x)
+    {
+        return _mm_cvtps_epi32(_mm_min_ps(_mm_max_ps(x, _mm_setzero_ps()), _mm_set_ps1(65535.0f)));
+    }
 
     static void store_u8(uint8_t *dst, ivec lo, ivec hi, fvec scale, fvec bias, fvec mask)
     {
         fvec t;
-        t = scale_bias_sat(_mm_cvtepi32_ps(lo), scale, bias, mask); lo = _mm_cvtps_epi32(t);
-        t = scale_bias_sat(_mm_cvtepi32_ps(hi), scale, bias, mask); hi = _mm_cvtps_epi32(t);
+        t = scale_bias_sat(_mm_cvtepi32_ps(lo), scale, bias, mask); lo = cvt_sat(t);
+        t = scale_bias_sat(_mm_cvtepi32_ps(hi), scale, bias, mask); hi = cvt_sat(t);
         lo = _mm_packs_epi32(lo, hi);
         lo = _mm_packus_epi16(lo, lo);
         _mm_storel_epi64((__m128i *)dst, lo);
@@ -98,9 +103,9 @@ struct ISA_SSE2 {
     {
         fvec t;
         t = scale_bias_sat(_mm_cvtepi32_ps(lo), scale, bias, mask);
-        lo = _mm_cvtps_epi32(t); lo = _mm_add_epi32(lo, _mm_set1_epi32(INT16_MIN));
+        lo = cvt_sat(t); lo = _mm_add_epi32(lo, _mm_set1_epi32(INT16_MIN));
         t = scale_bias_sat(_mm_cvtepi32_ps(hi), scale, bias, mask);
-        hi = _mm_cvtps_epi32(t); hi = _mm_add_epi32(hi, _mm_set1_epi32(INT16_MIN));
+        hi = cvt_sat(t); hi = _mm_add_epi32(hi, _mm_set1_epi32(INT16_MIN));
         lo = _mm_packs_epi32(lo, hi);
         lo = _mm_min_epi16(lo, maxval);
         lo = _mm_sub_epi16(lo, _mm_set1_epi16(INT16_MIN));
diff --git a/src/core/kernel/x86/generic_avx2.cpp b/src/core/kernel/x86/generic_avx2.cpp
index 50bc8ba..fcbaf7e 100644
--- a/src/core/kernel/x86/generic_avx2.cpp
+++ b/src/core/kernel/x86/generic_avx2.cpp
@@ -92,7 +92,8 @@ struct Backend_AVX2 {
 
     // Float.
     static fvec cvt_f(ivec x) { return _mm256_cvtepi32_ps(x); }
-    static ivec cvt_i(fvec x) { return _mm256_cvtps_epi32(x); }
+    // Clamped first: values outside the int32 range all convert to INT32_MIN.
+    static ivec cvt_i(fvec x) { return _mm256_cvtps_epi32(_mm256_min_ps(_mm256_max_ps(x, _mm256_setzero_ps()), _mm256_set1_ps(65535.0f))); }
     static fvec set1_f(float x) { return _mm256_set1_ps(x); }
     static fvec fadd(fvec a, fvec b) { return _mm256_add_ps(a, b); }
     static fvec fsub(fvec a, fvec b) { return _mm256_sub_ps(a, b); }
diff --git a/src/core/kernel/x86/generic_avx512.cpp b/src/core/kernel/x86/generic_avx512.cpp
index b8ae2bb..76cba4a 100644
--- a/src/core/kernel/x86/generic_avx512.cpp
+++ b/src/core/kernel/x86/generic_avx512.cpp
@@ -95,7 +95,8 @@ struct Backend_AVX512 {
 
     // Float.
     static fvec cvt_f(ivec x) { return _mm512_cvtepi32_ps(x); }
-    static ivec cvt_i(fvec x) { return _mm512_cvtps_epi32(x); }
+    // Clamped first: values outside the int32 range all convert to INT32_MIN.
+    static ivec cvt_i(fvec x) { return _mm512_cvtps_epi32(_mm512_min_ps(_mm512_max_ps(x, _mm512_setzero_ps()), _mm512_set1_ps(65535.0f))); }
     static fvec set1_f(float x) { return _mm512_set1_ps(x); }
     static fvec fadd(fvec a, fvec b) { return _mm512_add_ps(a, b); }
     static fvec fsub(fvec a, fvec b) { return _mm512_sub_ps(a, b); }
diff --git a/src/core/kernel/x86/generic_sse2.cpp b/src/core/kernel/x86/generic_sse2.cpp
index 0f02096..5388149 100644
--- a/src/core/kernel/x86/generic_sse2.cpp
+++ b/src/core/kernel/x86/generic_sse2.cpp
@@ -78,7 +78,8 @@ struct Backend_SSE2 {
 
     // Float.
     static fvec cvt_f(ivec x) { return _mm_cvtepi32_ps(x); }
-    static ivec cvt_i(fvec x) { return _mm_cvtps_epi32(x); }
+    // Clamped first: values outside the int32 range all convert to INT32_MIN.
+    static ivec cvt_i(fvec x) { return _mm_cvtps_epi32(_mm_min_ps(_mm_max_ps(x, _mm_setzero_ps()), _mm_set_ps1(65535.0f))); }
     static fvec set1_f(float x) { return _mm_set_ps1(x); }
     static fvec fadd(fvec a, fvec b) { return _mm_add_ps(a, b); }
     static fvec fsub(fvec a, fvec b) { return _mm_sub_ps(a, b); }
diff --git a/src/core/kernel/x86/square_vnni_impl.h b/src/core/kernel/x86/square_vnni_impl.h
index 29c50e9..5fb0c53 100644
--- a/src/core/kernel/x86/square_vnni_impl.h
+++ b/src/core/kernel/x86/square_vnni_impl.h
@@ -64,10 +64,10 @@ static unsigned sq_interior_byte_vnni(const uint8_t *const *rows, uint8_t *dst,
         for (unsigned d = 0; d < 4; ++d) { unsigned k = g * 4 + d; int8_t cv = k < N ? static_cast<int8_t>(m[r * N + k]) : 0; c |= static_cast<uint32_t>(static_cast<uint8_t>(cv)) << (8 * d); }
         pk[r][g] = c;
     }
-    const __m512i zero = _mm512_setzero_si512(), v255 = _mm512_set1_epi32(255);
+    const __m512 zero = _mm512_setzero_ps(), v255 = _mm512_set1_ps(255.0f);
     auto store16 = [&](unsigned col, __m512i acc) {
         __m512 f = _mm512_and_ps(_mm512_fmadd_ps(_mm512_cvtepi32_ps(acc), sc, bi), sm);
-        __m512i o = _mm512_min_epi32(_mm512_max_epi32(_mm512_cvtps_epi32(f), zero), v255);
+        __m512i o = _mm512_cvtps_epi32(_mm512_min_ps(_mm512_max_ps(f, zero), v255));   // clamped first: values outside the int32 range all convert to INT32_MIN
         _mm_storeu_si128(reinterpret_cast<__m128i *>(dst + col), _mm512_cvtepi32_epi8(o));
     };
     unsigned end = W > S ? W - S : 0, j = S;
-- 
2.43.0


From a4e80e7a74396c907df434427b32473527c56091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:53 +0000
Subject: [PATCH 07/11] fix: 7x7 convolution of 16-bit clips overflowed its
 32-bit sum in the AVX2 and AVX-512 kernels

---
 src/core/kernel/x86/square_impl.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/kernel/x86/square_impl.h b/src/core/kernel/x86/square_impl.h
index 3f23c2a..10b8b1f 100644
--- a/src/core/kernel/x86/square_impl.h
+++ b/src/core/kernel/x86/square_impl.h
@@ -30,8 +30,8 @@
 * is bit-exact with the scalar reference), so the bit-exactness / mirror behaviour
 * matches kernel/generic.cpp conv_plane_square exactly. Integer paths pair
 * two taps per pmaddwd (a trick the auto-vectoriser does not apply). byte accumulates in
-* int32 (never overflows). word at N<=7 accumulates in int32 (worst case N*N*1023*32768 <
-* INT32_MAX at 7x7); word at N>=9 sums each row in int32 (a single row is always safe) and
+* int32 (never overflows). word at N<=5 accumulates in int32 (the final unbiased sum is at most
+* N*N*1023*65535 < INT32_MAX at 5x5); word at N>=7 sums each row in int32 (a single row is always safe) and
 * spills into int64 accumulators, converting int64 -> float exactly at the end -- all
 * bit-exact with the C reference. Float uses FMA -> not bit-exact with the scalar/SSE2
 * tiers, matching convolution_impl.h's float behaviour.
@@ -178,7 +178,7 @@ static unsigned sq_interior_word(const uint16_t *const *rows, uint16_t *dst, uns
     return j;
 }
 
-// Word path for N>=9, where N*N taps overflow int32: each row summed in int32 (always safe),
+// Word path for N>=7, where N*N taps overflow int32: each row summed in int32 (always safe),
 // spilled into int64 accumulators, exact int64 -> float at the end -- bit-exact with the int64 C
 // reference. One run of BLK independent blocks (b loop innermost for ILP). The 64-bit accumulators
 // are heavy, so the 512-bit tier uses 2 blocks (4 spills registers past 9x9); 256-bit stays at 1.
@@ -288,7 +288,7 @@ static void sq_plane(const void *src, ptrdiff_t ss, void *dst, ptrdiff_t ds, con
             aend = sq_interior_byte<ISA, N>(rows, d, S, W, p.matrix, sc, bi, sm);
         else if constexpr (std::is_same<T, uint16_t>::value) {
             typename ISA::ivec mv = ISA::word_maxval(p.maxval);
-            if constexpr (N > 7)
+            if constexpr (N > 5)
                 aend = sq_interior_word_i64<ISA, N>(rows, d, S, W, p.matrix, sc, bi, sm, mv);
             else
                 aend = sq_interior_word<ISA, N>(rows, d, S, W, p.matrix, sc, bi, sm, mv);
-- 
2.43.0


From 84d8406f3c918ae7bd7ebc09740aca9f97ca3f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:16 +0000
Subject: [PATCH 08/11] fix: don't free the map twice when trimming fails in
 vspipe

---
 src/vspipe/vspipe.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index 5c19fd7..9eeeb2c 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -1199,7 +1199,6 @@ int main(int argc, char **argv) {
 
             if (mapError) {
                 fprintf(stderr, "%s\n", vsapi->mapGetError(mapError));
-                vsapi->freeMap(mapError);
                 vsapi->freeMap(result);
                 vsapi->freeMap(alphaResult);
                 vsapi->freeNode(node);
-- 
2.43.0


From 2634cab5066349cc193e8e89863d332fbba5df89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:16 +0000
Subject: [PATCH 09/11] fix: always emit valid JSON values for frame properties
 in vspipe

---
 src/vspipe/vsjson.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/vspipe/vsjson.cpp b/src/vspipe/vsjson.cpp
index bc06c81..edbb6bc 100644
--- a/src/vspipe/vsjson.cpp
+++ b/src/vspipe/vsjson.cpp
@@ -20,6 +20,7 @@
 
 #include "vsjson.h"
 #include <charconv>
+#include <cmath>
 
 static bool isAsciiPrintable(const std::string &s) {
     for (const auto c : s)
@@ -29,7 +30,11 @@ static bool isAsciiPrintable(const std::string &s) {
 }
 
 static std::string doubleToString(double v) {
-    char buffer[100];
+    // JSON has no way to express these
+    if (!std::isfinite(v))
+        return "null";
+    // has to fit every finite double in fixed notation
+    char buffer[400];
     auto res = std::to_chars(buffer, buffer + sizeof(buffer), v, std::chars_format::fixed);
     return std::string(buffer, res.ptr - buffer);
 }
@@ -100,6 +105,10 @@ std::string convertVSMapToJSON(const VSMap *map, const VSAPI *vsapi) {
                         jsonStr += "\"[binary data size: " + std::to_string(vsapi->mapGetDataSize(map, key, j, nullptr)) + "]\"";
                 }
                 break;
+            default: // nodes, frames and functions have no representation
+                for (int j = 0; j < numElems; j++)
+                    jsonStr += (j ? ", null" : "null");
+                break;
             }
 
             if (numElems > 1)
-- 
2.43.0


From c5890cec8e97d95bbb66c245115825d39b694c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:59 +0000
Subject: [PATCH 10/11] fix: BlankAudio with keep returned a frame of the wrong
 length when the last frame is shorter

---
 src/core/audiofilters.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/audiofilters.cpp b/src/core/audiofilters.cpp
index 7e967c5..0e0f0a0 100644
--- a/src/core/audiofilters.cpp
+++ b/src/core/audiofilters.cpp
@@ -1246,14 +1246,17 @@ static const VSFrame *VS_CC blankAudioGetframe(int n, int activationReason, void
             return frame;
         }
 
+        // the last frame can be shorter than the others and must not be mixed up with the kept one
+        bool keep = d->keep && samples == VS_AUDIO_FRAME_SAMPLES;
+
         VSFrame *frame = nullptr;
-        if (!d->f) {
+        if (!keep || !d->f) {
             frame = vsapi->newAudioFrame(&d->ai.format, samples, nullptr, core);
             for (int channel = 0; channel < d->ai.format.numChannels; channel++)
                 memset(vsapi->getWritePtr(frame, channel), 0, samples * d->ai.format.bytesPerSample);
         }
 
-        if (d->keep) {
+        if (keep) {
             if (frame)
                 d->f = frame;
             return vsapi->addFrameRef(d->f);
-- 
2.43.0


From 1b5aaac7a4b856e403898b10add0ce3c30178683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:59 +0000
Subject: [PATCH 11/11] fix: AudioTrim length check overflowed for huge lengths

---
 src/core/audiofilters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/audiofilters.cpp b/src/core/audiofilters.cpp
index 0e0f0a0..f4486ad 100644
--- a/src/core/audiofilters.cpp
+++ b/src/core/audiofilters.cpp
@@ -123,7 +123,7 @@ static void VS_CC audioTrimCreate(const VSMap *in, VSMap *out, void *userData, V
     if (lengthset && length < 1)
         RETERROR("AudioTrim: invalid length specified (less than 1)");
 
-    if ((lastset && last >= d->ai.numSamples) || (lengthset && (d->first + length) > d->ai.numSamples))
+    if ((lastset && last >= d->ai.numSamples) || (lengthset && length > d->ai.numSamples - d->first))
         RETERROR("AudioTrim: last sample beyond clip end");
 
     if (lastset) {
-- 
2.43.0

