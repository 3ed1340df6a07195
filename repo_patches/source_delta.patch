From 916c9d8ea2c1d663fc43bc90ca097092fb0eac21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:26 +0000
Subject: [PATCH 01/21] fix: OKLab LMS matrix has the wrong sign on its
 second-row X coefficient

---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 28704ee..218fc50 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1419,7 +1419,7 @@ static const Tristimulus ICtCp_to_XYZ(const Tristimulus &icc)
 static const Tristimulus XYZ_to_OKLAB(const Tristimulus &xyz)
 {
     // https://bottosson.github.io/posts/oklab/
-    constexpr auto m1  = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, -0.0329845436f, 0.9293118715f,
+    constexpr auto m1  = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, 0.0329845436f, 0.9293118715f,
          0.0361456387f, 0.0482003018f, 0.2643662691f, 0.6338517070f);
     constexpr auto m2  = Matrix3(0.2104542553f, 0.7936177850f, -0.0040720468f, 1.9779984951f, -2.4285922050f,
          0.4505937099f, 0.0259040371f, 0.7827717662f, -0.8086757660f);
@@ -1454,7 +1454,7 @@ static const Tristimulus XYZ_to_OKLAB(const Tristimulus &xyz)
 
 static const Tristimulus OKLAB_to_XYZ(const Tristimulus &lab)
 {
-    constexpr auto    m1   = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, -0.0329845436f, 0.9293118715f,
+    constexpr auto    m1   = Matrix3(0.8189330101f, 0.3618667424f, -0.1288597137f, 0.0329845436f, 0.9293118715f,
              0.0361456387f, 0.0482003018f, 0.2643662691f, 0.6338517070f);
     constexpr auto    m2   = Matrix3(0.2104542553f, 0.7936177850f, -0.0040720468f, 1.9779984951f, -2.4285922050f,
              0.4505937099f, 0.0259040371f, 0.7827717662f, -0.8086757660f);
-- 
2.43.0


From 286f207a590a6da64fb385940979f213129327f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:26 +0000
Subject: [PATCH 02/21] fix: XYZ_to_OKLAB printed its matrices to stdout on
 every call

---
 include/colorsystem.hpp | 23 -----------------------
 1 file changed, 23 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 218fc50..9236510 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1423,29 +1423,6 @@ static const Tristimulus XYZ_to_OKLAB(const Tristimulus &xyz)
          0.0361456387f, 0.0482003018f, 0.2643662691f, 0.6338517070f);
     constexpr auto m2  = Matrix3(0.2104542553f, 0.7936177850f, -0.0040720468f, 1.9779984951f, -2.4285922050f,
          0.4505937099f, 0.0259040371f, 0.7827717662f, -0.8086757660f);
-    constexpr auto m1i = m1.invert();
-    constexpr auto m2i = m2.invert();
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m1[i]);
-    }
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m2[i]);
-    }
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m1i[i]);
-    }
-    printf("\n");
-    for (int i = 0; i < 9; i++)
-    {
-        printf("%f,", m2i[i]);
-    }
-    printf("\n");
 
     const Tristimulus lms = xyz.apply(m1);
     const Tristimulus dash(cbrtf(lms[0]), cbrtf(lms[1]), cbrtf(lms[2]));
-- 
2.43.0


From 05ca08a2ed03b4fe1fa99b84d43e1fe513bf5167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:26 +0000
Subject: [PATCH 03/21] fix: S-Log3 encoder scaled inside the logarithm, so
 decode(encode(x)) != x above the toe

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 9236510..f5fe076 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -669,7 +669,7 @@ class OTF
 
     static const float Y_to_SLog3(const float &x)
     {
-        const auto y = x > 0.01125f ? (420.f + log10f((x + 0.01f) / (0.19f) * 261.5f))
+        const auto y = x > 0.01125f ? (420.f + log10f((x + 0.01f) / (0.19f)) * 261.5f)
                                     : (x * (171.2102946929f - 95.f) / 0.01125f + 95.f);
         return y / 1023.f;
     }
-- 
2.43.0


From 9f092b030497f223af652dd3740a7ff16c944ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:26 +0000
Subject: [PATCH 04/21] fix: CIE standard illuminant B has X = 0.99072, not
 1.99072

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index f5fe076..5bb4974 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1352,7 +1352,7 @@ class Spectrum
 
 // standard illuminants
 static constexpr Tristimulus Illuminant_A(1.09850f, 1.f, 0.35585f);
-static constexpr Tristimulus Illuminant_B(1.99072f, 1.f, 0.85223f);
+static constexpr Tristimulus Illuminant_B(0.99072f, 1.f, 0.85223f);
 static constexpr Tristimulus Illuminant_C(0.98074f, 1.0f, 1.18232f);
 static constexpr Tristimulus Illuminant_D50(0.96422f, 1.0f, 0.82521f);
 static constexpr Tristimulus Illuminant_D55(0.95682f, 1.0f, 0.92149f);
-- 
2.43.0


From 1b6e905547834c3970688875cfa10ccde92672e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:26 +0000
Subject: [PATCH 05/21] fix: MemoryStream::put_at truncated the buffer and
 wrote past its end

---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 5bb4974..1858543 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -872,8 +872,8 @@ class MemoryStream
     }
     void put_at(size_t abs, uint8_t val)
     {
-        if (abs < buffer_.size())
-            buffer_.resize(abs);
+        if (abs >= buffer_.size())
+            buffer_.resize(abs + 1);
         buffer_[abs] = val;
     }
     size_t read_at(void *buffer, size_t s, Pointer p)
-- 
2.43.0


From 60cef1b025d1d614f4af94d0bb56ba2feb083c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:26 +0000
Subject: [PATCH 06/21] fix: MemoryStream::putUint8 did not advance the cursor
 when overwriting

---
 include/colorsystem.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 1858543..c7254af 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -923,6 +923,7 @@ class MemoryStream
         if (ptr_ < s)
         {
             buffer_[ptr_] = uc;
+            ptr_++;
             return;
         }
         else if (ptr_ == s)
-- 
2.43.0


From f5ea8fcf780d7e4f5b3096dd5a97a8f07b749933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:26 +0000
Subject: [PATCH 07/21] fix: MemoryStream::putSubstr ran away on length 0 and
 read past short strings

---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index c7254af..4cc573c 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1218,9 +1218,9 @@ class MemoryStream
     void putDouble(const double v) { putUint64(*(uint64_t *)&v); }
     void putSubstr(const std::string &str, size_t len)
     {
-        for (int i = 0; i < len - 1; i++)
+        for (size_t i = 0; i + 1 < len; i++)
         {
-            putUint8(str[i]);
+            putUint8((i < str.size()) ? str[i] : 0);
         }
         if (len > 0)
             putUint8(0);
-- 
2.43.0


From 96135319d923921707cc377510b9d7442e3b4b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:26 +0000
Subject: [PATCH 08/21] fix: MemoryStream::putString lost the last character
 and the length get_string expects

---
 include/colorsystem.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 4cc573c..5c5775e 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1225,7 +1225,11 @@ class MemoryStream
         if (len > 0)
             putUint8(0);
     }
-    void putString(const std::string &str) { putSubstr(str, str.size()); }
+    void putString(const std::string &str)
+    {
+        putUint32((uint32_t)str.size() + 1);
+        putSubstr(str, str.size() + 1);
+    }
 };
 
 static Gamut loadGamutFromICCProfileMemory(const void *mem, size_t size)
-- 
2.43.0


From 631b841dc8928bfed25dbe0068924eab48acc077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:26 +0000
Subject: [PATCH 09/21] fix: Spectrum::fetch did not interpolate inside the
 first sample interval

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 5c5775e..6c244df 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1255,7 +1255,7 @@ class Spectrum
         const float l     = index * (hi - lo) / count;
         const float h     = (index + 1) * (hi - lo) / count;
         return (index >= count) ? sample[count]
-               : (index <= 0)   ? sample[0]
+               : (t <= lo)      ? sample[0]
                                 : lerp(sample[index], sample[index + 1], (t - l - lo) / (h - l));
     }
     constexpr float fetch(const float &lambda) const { return fetch(s_.data(), 400, 380.f, 779.f, lambda); }
-- 
2.43.0


From 268a5463daaec46a6ac08563092c38927c4c0cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:26 +0000
Subject: [PATCH 10/21] fix: fromPlanckianLocus used the low-temperature cubic
 for 2222K-4000K too

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 6c244df..b2eebb9 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -358,7 +358,7 @@ class Tristimulus
         const float y =
             (T < 2222.f)
                 ? ((-1.1063814f * x * x * x) - (1.34811020f * x * x) + (2.18555832f * x) - 0.20219683f)
-                : ((T < 4000.f) ? ((-1.1063814f * x * x * x - 1.34811020f * x * x + 2.18555832f * x - 0.20219683f))
+                : ((T < 4000.f) ? ((-0.9549476f * x * x * x - 1.37418593f * x * x + 2.09137015f * x - 0.16748867f))
                                 : ((3.0817580f * x * x * x - 5.87338670f * x * x + 3.75112997f * x - 0.37001483f)));
         return Tristimulus(Y, x, y).fromYxy();
     }
-- 
2.43.0


From 40a32bf4f344ec2b677527a87f318601210cfab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:26 +0000
Subject: [PATCH 11/21] fix: svdcmp left the cancelled super-diagonal
 untouched, corrupting rank-deficient systems

---
 include/colorsystem.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index b2eebb9..31c2555 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7608,7 +7608,8 @@ namespace SOLVER
                     s = 1.0;
                     for (int i = l; i <= k; i++)
                     {
-                        f = s * rv1[i];
+                        f      = s * rv1[i];
+                        rv1[i] = c * rv1[i];
                         if (fabs(f) + anorm != anorm)
                         {
                             g    = w[i];
-- 
2.43.0


From 2f0680f617b81e36e0d7328629da69a56427298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:26 +0000
Subject: [PATCH 12/21] fix: SOLVER::solve reported success when the
 decomposition failed

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 31c2555..a3dc446 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7741,7 +7741,7 @@ namespace SOLVER
         float  wmax, thresh;
 
         int r = svdcmp(A, W, V);
-        if (r == 0)
+        if (r < 0)
         {
             return r;
         }
-- 
2.43.0


From b604f623559056093aa8e00305a900f3bcf80009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:26 +0000
Subject: [PATCH 13/21] fix: Corrector::makeGamut passed the device-to-XYZ
 matrix as the XYZ-to-device one

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index a3dc446..f4b621b 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7843,7 +7843,7 @@ class Corrector
     static Gamut makeGamut(const char *name, std::vector<Tristimulus> &patch, const Spectrum &light = CIE_D65,
         const Observer &observer = CIE1931)
     {
-        return Gamut(name, solve(patch, light, observer));
+        return Gamut(name, solve(patch, light, observer).invert());
     }
 };
 
-- 
2.43.0


From 1ec57f49f0002aab1a91ac8c41cf2650835e8100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:26 +0000
Subject: [PATCH 14/21] fix: hue wrap-around never terminated for very large
 hues

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index f4b621b..89cf22d 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -441,7 +441,7 @@ class Tristimulus
     // HSV
     static constexpr float mod360(const float &r)
     {
-        return (r < 0.f) ? mod360(r + 360.f) : ((r > 360.f) ? mod360(r - 360.f) : r);
+        return (r < 0.f) ? fmodf(r, 360.f) + 360.f : ((r > 360.f) ? fmodf(r, 360.f) : r);
     }
     static Tristimulus toHSV_atan(const Tristimulus &t)
     {
-- 
2.43.0


From 0a2da04503740b9b57a636b42c0643aa8eff6cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:29 +0000
Subject: [PATCH 15/21] fix: Planck radiance used a value of h*c^2 that is
 0.08% too small

---
 include/colorsystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 89cf22d..172672d 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1278,7 +1278,7 @@ class Spectrum
         static const double c    = 2.99792458e+8;  // Speed of light         m/s
         static const double k    = 1.38064880e-23; // Boltzmann constant     J/K
         static const double hc   = 1.984832809e-25;
-        static const double hcc  = 5.950379064e-17;
+        static const double hcc  = 5.955213792e-17;
         static const double hc_k = 1.438776827e-2;
         static const double arg1 = 2 * hcc;                                     // J*s*m/s*m/s                 = J*m^2/s
         static const double arg2 = (h * c) / k;                                 // J*s*m/s / (J/K) = J*m/(J/K) = m * K
-- 
2.43.0


From 969f7a0f5ce6fd5ae28dc213faeacbb08e329f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:39 +0000
Subject: [PATCH 16/21] fix: ST2084_to_Y returned NaN for signals rounded below
 zero

---
 include/colorsystem.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 172672d..97622b9 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -577,6 +577,8 @@ class OTF
     static float       degamma(const float &v, const float &g) { return powf(v, g); }
     static const float ST2084_to_Y(const float &pixel) // pixel should be 0-1
     {
+        if (pixel <= 0.f)
+            return 0.f;
         const float pq_m1 = 0.1593017578125f; // ( 2610.0 / 4096.0 ) / 4.0;
         const float pq_m2 = 78.84375f;        // ( 2523.0 / 4096.0 ) * 128.0;
         const float pq_c1 = 0.8359375f;       // 3424.0 / 4096.0 or pq_c3 - pq_c2 + 1.0;
-- 
2.43.0


From 3c03991009f1a6415c132b1d06782a7d1b8a4cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:39 +0000
Subject: [PATCH 17/21] fix: Spectrum::fetch read out of bounds for wavelengths
 far above the range

---
 include/colorsystem.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 97622b9..4559c2d 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -1253,6 +1253,10 @@ class Spectrum
         const float *sample, const int samples, const float &lo, const float &hi, const float &t)
     {
         const int   count = samples - 1;
+        if (!(t > lo))
+            return sample[0];
+        if (t >= hi)
+            return sample[count];
         const int   index = (int)(count * (t - lo) / (hi - lo));
         const float l     = index * (hi - lo) / count;
         const float h     = (index + 1) * (hi - lo) / count;
-- 
2.43.0


From ef06bd1c323e24116b78b9bf5226233150e39a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:39 +0000
Subject: [PATCH 18/21] fix: svdcmp corrupted the decomposition of
 rank-deficient matrices

The cancellation loop for a zero singular value kept going after the
rotated super-diagonal element became negligible, scaling the following
super-diagonal elements with stale rotation values, so the factors no
longer multiplied to the input. Stop there, as the published algorithm does.
---
 include/colorsystem.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 4559c2d..bb055c5 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7616,7 +7616,9 @@ namespace SOLVER
                     {
                         f      = s * rv1[i];
                         rv1[i] = c * rv1[i];
-                        if (fabs(f) + anorm != anorm)
+                        if (fabs(f) + anorm == anorm)
+                            break;
+                        else
                         {
                             g    = w[i];
                             h    = PYTHAG(f, g);
-- 
2.43.0


From e9f197c63421af73298fdef07c482276946b1ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:57 +0000
Subject: [PATCH 19/21] fix: svdcmp overflowed on columns left with subnormal
 rounding noise

A matrix with a zero column can leave a row or column whose norm is
subnormal. Its reciprocal overflowed and the factors (and the solution
computed from them) became NaN. Treat such a row or column as zero.
---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index bb055c5..9ee85e6 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7468,7 +7468,7 @@ namespace SOLVER
             {
                 for (k = i; k < m; k++)
                     scale += fabs(a[k][i]);
-                if (scale)
+                if (!(scale < std::numeric_limits<float>::min()))
                 {
                     for (k = i; k < m; k++)
                     {
@@ -7502,7 +7502,7 @@ namespace SOLVER
             {
                 for (k = l; k < n; k++)
                     scale += fabs(a[i][k]);
-                if (scale)
+                if (!(scale < std::numeric_limits<float>::min()))
                 {
                     for (k = l; k < n; k++)
                     {
-- 
2.43.0


From 79d4a51bf0c4edfd3371da284ecdc81a3ab97a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:53 +0000
Subject: [PATCH 20/21] fix: svdcmp could fail to converge and then drop a
 singular value

With repeated singular values the super-diagonal element can oscillate at
half a unit in the last place of the norm and never pass the
'x + anorm == anorm' test. After 30 iterations the loop was left silently
with an unconverged, possibly negative singular value, which solve()
discarded, returning a wrong solution (and Corrector a wrong matrix).
Compare with epsilon * anorm, as later editions of the algorithm do.
---
 include/colorsystem.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 9ee85e6..51fdc81 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -7592,6 +7592,7 @@ namespace SOLVER
         }
 
         /* diagonalize the bidiagonal form */
+        const float eps = std::numeric_limits<float>::epsilon() * anorm;
         for (k = n - 1; k >= 0; k--)
         { /* loop over singular values */
             for (its = 0; its < 30; its++)
@@ -7600,12 +7601,12 @@ namespace SOLVER
                 for (l = k; l >= 0; l--)
                 { /* test for splitting */
                     nm = l - 1;
-                    if (fabs(rv1[l]) + anorm == anorm)
+                    if (fabsf(rv1[l]) <= eps)
                     {
                         flag = 0;
                         break;
                     }
-                    if (fabs(w[nm]) + anorm == anorm)
+                    if (fabsf(w[nm]) <= eps)
                         break;
                 }
                 if (flag)
@@ -7616,7 +7617,7 @@ namespace SOLVER
                     {
                         f      = s * rv1[i];
                         rv1[i] = c * rv1[i];
-                        if (fabs(f) + anorm == anorm)
+                        if (fabsf(f) <= eps)
                             break;
                         else
                         {
-- 
2.43.0


From e233837248a8b891d35db646e17e4f0f739fecee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:25 +0000
Subject: [PATCH 21/21] fix: MemoryStream::read_at converted the position to
 int, so a read at a position beyond 2^31 (such as size_t(-1)) left the buffer

---
 include/colorsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/colorsystem.hpp b/include/colorsystem.hpp
index 51fdc81..32d2644 100644
--- a/include/colorsystem.hpp
+++ b/include/colorsystem.hpp
@@ -880,9 +880,9 @@ class MemoryStream
     }
     size_t read_at(void *buffer, size_t s, Pointer p)
     {
-        int r = (int)buffer_.size() - (int)p;
-        if (r < 0)
+        if (p >= buffer_.size())
             return 0;
+        size_t r      = buffer_.size() - p;
         size_t remain = (s < r) ? s : r;
         memcpy(buffer, ptr(p), remain);
         return remain;
-- 
2.43.0

