From 29ec886a5076dbbe262f75b070b3a860299345b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 01/18] fix: exp2 computes the base-2 exponential, not e^x

---
 src/exponential.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exponential.cpp b/src/exponential.cpp
index 06a6857..d6a8956 100644
--- a/src/exponential.cpp
+++ b/src/exponential.cpp
@@ -184,7 +184,7 @@ zcm::quat zcm_vectorcall zcm::exp(zcm::quat x) noexcept
 
 float zcm::exp2(float x) noexcept
 {
-    return expf(x);
+    return exp2f(x);
 }
 
 zcm::vec2 zcm::exp2(const zcm::vec2& x) noexcept
-- 
2.43.0


From bbc479d934dc60d30a480948acbe814f43494cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 02/18] fix: roundEven rounds to the nearest integer (ties to
 even), not to the nearest even integer

---
 src/common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common.cpp b/src/common.cpp
index 17cb888..53420e9 100644
--- a/src/common.cpp
+++ b/src/common.cpp
@@ -353,7 +353,7 @@ zcm::vec4 zcm_vectorcall zcm::round(zcm::vec4 x) noexcept
 
 float zcm::roundEven(float x) noexcept
 {
-    return std::nearbyint(x * 0.5f) * 2.0f;
+    return std::nearbyint(x);
 }
 
 zcm::vec2 zcm::roundEven(const zcm::vec2& x) noexcept
-- 
2.43.0


From 53c7fa677fa3733570e00f748da2db7d5e49a9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 03/18] fix: distance2 of vec3/vec4 returns the squared
 distance

---
 src/geometric.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometric.cpp b/src/geometric.cpp
index 5baab6f..832fa39 100644
--- a/src/geometric.cpp
+++ b/src/geometric.cpp
@@ -283,12 +283,12 @@ float zcm::distance2(const zcm::vec2 &first, const zcm::vec2 &second) noexcept
 
 float zcm::distance2(const zcm::vec3 &first, const zcm::vec3 &second) noexcept
 {
-    return length(first - second);
+    return length2(first - second);
 }
 
 float zcm_vectorcall zcm::distance2(zcm::vec4 first, zcm::vec4 second) noexcept
 {
-    return length(first - second);
+    return length2(first - second);
 }
 
 
-- 
2.43.0


From 10ade1b586c3bfd50469b896889917ff340bae7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 04/18] fix: length of a scalar is its absolute value

---
 src/geometric.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometric.cpp b/src/geometric.cpp
index 832fa39..538d634 100644
--- a/src/geometric.cpp
+++ b/src/geometric.cpp
@@ -213,7 +213,7 @@ zcm::vec4 zcm_vectorcall zcm::refract(zcm::vec4 I, zcm::vec4 N, float eta) noexc
 
 float zcm::length(float first) noexcept
 {
-    return first;
+    return abs(first);
 }
 
 float zcm::length(const zcm::vec2& first) noexcept
-- 
2.43.0


From fce4e6b115f5c9890d6ea0240ef929880e662987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 05/18] fix: hash of mat4 covers the third column

---
 src/hash.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hash.cpp b/src/hash.cpp
index 4d9c34a..261b888 100644
--- a/src/hash.cpp
+++ b/src/hash.cpp
@@ -73,7 +73,7 @@ size_t zcm::hash(const zcm::mat3 &m) noexcept
 
 size_t zcm::hash(const zcm::mat4 &m) noexcept
 {
-    return hash(m[0]) ^ hash(m[1]) ^ hash(m[1]) ^ hash(m[3]);
+    return hash(m[0]) ^ hash(m[1]) ^ hash(m[2]) ^ hash(m[3]);
 }
 
 size_t zcm::hash(const zcm::bvec2 &b) noexcept
-- 
2.43.0


From 31ed68128d8c4b9f652a87fdc97866464b54ce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 06/18] fix: values that differ only in the sign of a zero hash
 equally

---
 src/hash.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hash.cpp b/src/hash.cpp
index 261b888..acffe1d 100644
--- a/src/hash.cpp
+++ b/src/hash.cpp
@@ -18,6 +18,10 @@ static size_t float_hash(float f) noexcept
 {
     static_assert (sizeof(float) == sizeof(unsigned), "Float and unsigned must have same size!");
     unsigned ui;
+    // +0 and -0 compare equal, so they have to hash equally
+    if (f == 0.0f) {
+        f = 0.0f;
+    }
     std::memcpy(&ui, &f, sizeof(float));
     return zcm::hash(ui);
 }
-- 
2.43.0


From b8b1987626ac9f924e7dbfd13b2d7ed9c48dc559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 07/18] fix: mat3(mat2) does not read past the end of the 2x2
 matrix

---
 src/mat3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mat3.cpp b/src/mat3.cpp
index 7d5b203..fc84f70 100644
--- a/src/mat3.cpp
+++ b/src/mat3.cpp
@@ -24,7 +24,7 @@ zcm::mat3::mat3(const zcm::mat2 &m2) noexcept
 {
     _columns[0] = vec3(m2[0].x, m2[0].y, 0.0f);
     _columns[1] = vec3(m2[1].x, m2[1].y, 0.0f);
-    _columns[2] = vec3(m2[2].x, m2[2].y, 1.0f);
+    _columns[2] = vec3(0.0f, 0.0f, 1.0f);
 }
 
 zcm::mat3::operator zcm::mat2() const noexcept
-- 
2.43.0


From 5061da8c03125e1a49bf9ea6bfd4ad1f6c25fe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 08/18] fix: decode_octahedral unfolds the lower hemisphere

---
 src/geometric.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geometric.cpp b/src/geometric.cpp
index 538d634..cce0207 100644
--- a/src/geometric.cpp
+++ b/src/geometric.cpp
@@ -327,8 +327,9 @@ zcm::vec3 zcm::decode_octahedral(zcm::vec2 e) noexcept
 {
     auto v = zcm::vec3(e.x, e.y, 1.0f - abs(e.x) - abs(e.y));
     if (v.z < 0.0f) {
-        v.x = 1.0f - abs(v.y) * signNotZero(v.x);
-        v.y = 1.0f - abs(v.x) * signNotZero(v.y);
+        auto p = (1.0f - abs(zcm::vec2(e.y, e.x))) * signNotZero(e);
+        v.x = p.x;
+        v.y = p.y;
     }
     return normalize(v);
 }
-- 
2.43.0


From ad61c6a0d06fd541104ec6707308917a24adc7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 09/18] fix: define the declared remainder, bitwise and shift
 operators of ivec4

---
 src/ivec4.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ivec4.cpp b/src/ivec4.cpp
index f8ff2cc..2d75443 100644
--- a/src/ivec4.cpp
+++ b/src/ivec4.cpp
@@ -90,12 +90,24 @@ ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, +)
 ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, -)
 ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, *)
 ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, /)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, %)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, |)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, &)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, ^)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, <<)
+ZCM_IMPL_V4_BINOP(int32_t, zcm::ivec4, >>)
 }
 
 ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, +=)
 ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, -=)
 ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, *=)
 ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, /=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, %=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, |=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, &=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, ^=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, <<=)
+ZCM_IMPL_V4_COMPOUND_OP(int32_t, zcm::ivec4, >>=)
 
 zcm::ivec4 zcm::operator -(zcm::ivec4 first) noexcept
 {
-- 
2.43.0


From 22014a45e49722c7a32eca83af9712c287b99082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 10/18] fix: components of integer vectors can be assigned a
 scalar

---
 include/zcm/detail/vec2_access.hpp | 2 ++
 include/zcm/detail/vec3_access.hpp | 2 ++
 include/zcm/detail/vec4_access.hpp | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/include/zcm/detail/vec2_access.hpp b/include/zcm/detail/vec2_access.hpp
index 9e843e5..1b964a8 100644
--- a/include/zcm/detail/vec2_access.hpp
+++ b/include/zcm/detail/vec2_access.hpp
@@ -58,6 +58,8 @@ T format_as(const scalar_accessor_2<T, index> &a)
 template <typename T, int index>
 struct scalar_accessor_2i : public scalar_accessor_2<T, index>
 {
+    using scalar_accessor_2<T, index>::operator=;
+
     void operator %=(T s) noexcept {
         scalar_accessor_2<T,index>::_data[index] %= s;
     }
diff --git a/include/zcm/detail/vec3_access.hpp b/include/zcm/detail/vec3_access.hpp
index e44babd..bdefe00 100644
--- a/include/zcm/detail/vec3_access.hpp
+++ b/include/zcm/detail/vec3_access.hpp
@@ -58,6 +58,8 @@ T format_as(const scalar_accessor_3<T, index> &a)
 template <typename T, int index>
 struct scalar_accessor_3i : public scalar_accessor_3<T, index>
 {
+    using scalar_accessor_3<T, index>::operator=;
+
     void operator %=(T s) noexcept {
         scalar_accessor_3<T,index>::_data[index] %= s;
     }
diff --git a/include/zcm/detail/vec4_access.hpp b/include/zcm/detail/vec4_access.hpp
index 812b6b1..c7cdec6 100644
--- a/include/zcm/detail/vec4_access.hpp
+++ b/include/zcm/detail/vec4_access.hpp
@@ -59,6 +59,8 @@ T format_as(const scalar_accessor_4<T, index> &a)
 template <typename T, int index>
 struct scalar_accessor_4i : public scalar_accessor_4<T, index>
 {
+    using scalar_accessor_4<T, index>::operator=;
+
     void operator %=(T s) noexcept {
         scalar_accessor_4<T,index>::_data[index] %= s;
     }
-- 
2.43.0


From bd52025e8e49356a0b096f4782777d98c2acc23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 11/18] fix: inverseTranspose of mat2 is transposed

---
 src/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index 0b1ea48..1cc9a11 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -286,8 +286,8 @@ zcm::mat2 zcm::inverseTranspose(const zcm::mat2 &m) noexcept
 
     mat2 Inverse(
         + m[1][1] / Determinant,
-        - m[0][1] / Determinant,
         - m[1][0] / Determinant,
+        - m[0][1] / Determinant,
         + m[0][0] / Determinant);
 
     return Inverse;
-- 
2.43.0


From 42c7f938999fc743ef5231c8e1e40e4fe1358bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 12/18] fix: adjugateTranspose of mat2 is transposed

---
 src/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index 1cc9a11..bdb40e7 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -368,8 +368,8 @@ zcm::mat4 zcm::inverseTranspose(const zcm::mat4 &m) noexcept
 zcm::mat2 zcm::adjugateTranspose(const mat2 &m) noexcept
 {
     mat2 Adjugate(+ m[1][1],
-                  - m[0][1],
                   - m[1][0],
+                  - m[0][1],
                   + m[0][0]);
 
     return Adjugate;
-- 
2.43.0


From 70481975a64888e2fa42804befa616b6e58ba73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 13/18] fix: convertLinearToSRGB encodes with 1/Gamma, inverse
 of convertSRGBToLinear

---
 src/color_space.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/color_space.cpp b/src/color_space.cpp
index 6498b69..7471047 100644
--- a/src/color_space.cpp
+++ b/src/color_space.cpp
@@ -13,7 +13,7 @@ zcm::vec4 zcm::convertLinearToSRGB(zcm::vec4 ColorLinear, float Gamma) noexcept
 zcm::vec3 zcm::convertLinearToSRGB(zcm::vec3 colorLinear, float Gamma) noexcept
 {
 	auto ClampedColor = clamp(colorLinear, vec3{0}, vec3{1});
-	return mix(pow(ClampedColor, vec3(Gamma)) * 1.055f - 0.055f,
+	return mix(pow(ClampedColor, vec3(1.0f / Gamma)) * 1.055f - 0.055f,
 	           ClampedColor * 12.92f,
 	           lessThan(ClampedColor, vec3(0.0031308f)));
 }
-- 
2.43.0


From c6d8acb11f068fe17da885034a7c8977c51110d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 14/18] fix: color_space does not need the swizzle accessors
 (ZCM_DISABLE_SWIZZLE builds)

---
 src/color_space.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/color_space.cpp b/src/color_space.cpp
index 7471047..6198cce 100644
--- a/src/color_space.cpp
+++ b/src/color_space.cpp
@@ -7,7 +7,7 @@
 
 zcm::vec4 zcm::convertLinearToSRGB(zcm::vec4 ColorLinear, float Gamma) noexcept
 {
-	return {convertLinearToSRGB(ColorLinear.rgb, Gamma), ColorLinear.a};
+	return {convertLinearToSRGB(vec3(ColorLinear.r, ColorLinear.g, ColorLinear.b), Gamma), ColorLinear.a};
 }
 
 zcm::vec3 zcm::convertLinearToSRGB(zcm::vec3 colorLinear, float Gamma) noexcept
@@ -29,7 +29,7 @@ zcm::vec3 zcm::convertLinearToSRGB(zcm::vec3 colorLinear) noexcept
 
 zcm::vec4 zcm::convertLinearToSRGB(zcm::vec4 colorLinear) noexcept
 {
-	return {convertLinearToSRGB(colorLinear.rgb), colorLinear.a};
+	return {convertLinearToSRGB(vec3(colorLinear.r, colorLinear.g, colorLinear.b)), colorLinear.a};
 }
 
 
@@ -42,7 +42,7 @@ zcm::vec3 zcm::convertSRGBToLinear(zcm::vec3 ColorSRGB, float Gamma) noexcept
 
 zcm::vec4 zcm::convertSRGBToLinear(zcm::vec4 ColorSRGB, float Gamma) noexcept
 {
-	return {convertSRGBToLinear(ColorSRGB.rgb, Gamma), ColorSRGB.a};
+	return {convertSRGBToLinear(vec3(ColorSRGB.r, ColorSRGB.g, ColorSRGB.b), Gamma), ColorSRGB.a};
 }
 
 zcm::vec3 zcm::convertSRGBToLinear(zcm::vec3 ColorSRGB) noexcept
@@ -52,5 +52,5 @@ zcm::vec3 zcm::convertSRGBToLinear(zcm::vec3 ColorSRGB) noexcept
 
 zcm::vec4 zcm::convertSRGBToLinear(zcm::vec4 ColorSRGB) noexcept
 {
-    return {convertSRGBToLinear(ColorSRGB.rgb, 2.4f), ColorSRGB.a};
+    return {convertSRGBToLinear(vec3(ColorSRGB.r, ColorSRGB.g, ColorSRGB.b), 2.4f), ColorSRGB.a};
 }
-- 
2.43.0


From a5fee8b2e0dd0f9c5d51506d920981d2625b494f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 15/18] fix: hash.hpp can be included on its own

---
 include/zcm/hash.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/zcm/hash.hpp b/include/zcm/hash.hpp
index 1ce7d36..bd61e43 100644
--- a/include/zcm/hash.hpp
+++ b/include/zcm/hash.hpp
@@ -2,6 +2,7 @@
 
 #include <zcm/detail/vectorcall.hpp>
 #include <functional>
+#include <stddef.h>
 #include <zcm/vec4.hpp>
 #include <zcm/quat.hpp>
 
-- 
2.43.0


From ef87d1b3f192097e134ee2af0266c656e7d3b0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 16/18] fix: indexing a two-component vector rejects index 2

---
 src/bvec2.cpp | 4 ++--
 src/ivec2.cpp | 4 ++--
 src/vec2.cpp  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bvec2.cpp b/src/bvec2.cpp
index 27f0619..f353495 100644
--- a/src/bvec2.cpp
+++ b/src/bvec2.cpp
@@ -132,7 +132,7 @@ bool zcm::operator !=(zcm::bvec2 first, zcm::bvec2 second) noexcept
 
 bool& zcm::bvec2::operator[](unsigned val) noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
 
     if (val == 0) {
         return x;
@@ -144,7 +144,7 @@ bool& zcm::bvec2::operator[](unsigned val) noexcept
 
 bool zcm::bvec2::operator[](unsigned val) const noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
 
     if (val == 0) {
         return x;
diff --git a/src/ivec2.cpp b/src/ivec2.cpp
index ceeca53..43e4e4a 100644
--- a/src/ivec2.cpp
+++ b/src/ivec2.cpp
@@ -105,13 +105,13 @@ bool zcm::operator>=(zcm::ivec2 first, zcm::ivec2 second) noexcept
 
 int32_t& zcm::ivec2::operator[](unsigned val) noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
     return _data[val];
 }
 
 const int32_t& zcm::ivec2::operator[](unsigned val) const noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
     return _data[val];
 }
 
diff --git a/src/vec2.cpp b/src/vec2.cpp
index 4a80148..b8bb5b5 100644
--- a/src/vec2.cpp
+++ b/src/vec2.cpp
@@ -101,13 +101,13 @@ bool zcm::operator!=(zcm::vec2 first, zcm::vec2 second) noexcept
 
 float& zcm::vec2::operator[](unsigned val) noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
     return _data[val];
 }
 
 const float& zcm::vec2::operator[](unsigned val) const noexcept
 {
-    assert(val < 3);
+    assert(val < 2);
     return _data[val];
 }
 
-- 
2.43.0


From b31b65233b9ec7531eb013d60ce27593624941fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:26 +0000
Subject: [PATCH 17/18] fix: perspective*_ZO/_NO are noexcept like every other
 operation

---
 include/zcm/matrix_transform.hpp | 8 ++++----
 src/matrix_transform.cpp         | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/zcm/matrix_transform.hpp b/include/zcm/matrix_transform.hpp
index b87f8cd..a246985 100644
--- a/include/zcm/matrix_transform.hpp
+++ b/include/zcm/matrix_transform.hpp
@@ -14,14 +14,14 @@ namespace zcm
     /// clip space from zero to one (DX convention)
     mat4  orthoLH_ZO (float left, float right, float bottom, float top, float zNear, float zFar) noexcept;
     mat4  orthoRH_ZO (float left, float right, float bottom, float top, float znear, float zfar) noexcept;
-    mat4  perspectiveRH_ZO(float fovy, float aspect, float zNear, float zFar);
-    mat4  perspectiveLH_ZO(float fovy, float aspect, float zNear, float zFar);
+    mat4  perspectiveRH_ZO(float fovy, float aspect, float zNear, float zFar) noexcept;
+    mat4  perspectiveLH_ZO(float fovy, float aspect, float zNear, float zFar) noexcept;
 
     /// clip space from negative one to one (OpenGL default convention)
     mat4  orthoLH_NO (float left, float right, float bottom, float top, float znear, float zfar) noexcept;
     mat4  orthoRH_NO (float left, float right, float bottom, float top, float znear, float zfar) noexcept;
-    mat4  perspectiveRH_NO(float fovy, float aspect, float zNear, float zFar);
-    mat4  perspectiveLH_NO(float fovy, float aspect, float zNear, float zFar);
+    mat4  perspectiveRH_NO(float fovy, float aspect, float zNear, float zFar) noexcept;
+    mat4  perspectiveLH_NO(float fovy, float aspect, float zNear, float zFar) noexcept;
 
     mat4  rotate (const mat4& m, float angle, const vec3& axis) noexcept;
     mat4  scale (const mat4& m, const vec3& v) noexcept;
diff --git a/src/matrix_transform.cpp b/src/matrix_transform.cpp
index 0c69a42..20f784e 100644
--- a/src/matrix_transform.cpp
+++ b/src/matrix_transform.cpp
@@ -160,7 +160,7 @@ zcm::mat4 zcm::orthoRH_NO(float left, float right, float bottom, float top, floa
     return Result;
 }
 
-zcm::mat4 zcm::perspectiveRH_ZO(float fovy, float aspect, float zNear, float zFar)
+zcm::mat4 zcm::perspectiveRH_ZO(float fovy, float aspect, float zNear, float zFar) noexcept
 {
     assert(zcm::abs(aspect - std::numeric_limits<float>::epsilon()) > 0.0f);
 
@@ -175,7 +175,7 @@ zcm::mat4 zcm::perspectiveRH_ZO(float fovy, float aspect, float zNear, float zFa
     return Result;
 }
 
-zcm::mat4 zcm::perspectiveRH_NO(float fovy, float aspect, float zNear, float zFar)
+zcm::mat4 zcm::perspectiveRH_NO(float fovy, float aspect, float zNear, float zFar) noexcept
 {
     assert(abs(aspect - std::numeric_limits<float>::epsilon()) > 0.0f);
 
@@ -190,7 +190,7 @@ zcm::mat4 zcm::perspectiveRH_NO(float fovy, float aspect, float zNear, float zFa
     return Result;
 }
 
-zcm::mat4 zcm::perspectiveLH_ZO(float fovy, float aspect, float zNear, float zFar)
+zcm::mat4 zcm::perspectiveLH_ZO(float fovy, float aspect, float zNear, float zFar) noexcept
 {
     assert(abs(aspect - std::numeric_limits<float>::epsilon()) > 0.0f);
 
@@ -205,7 +205,7 @@ zcm::mat4 zcm::perspectiveLH_ZO(float fovy, float aspect, float zNear, float zFa
     return Result;
 }
 
-zcm::mat4 zcm::perspectiveLH_NO(float fovy, float aspect, float zNear, float zFar)
+zcm::mat4 zcm::perspectiveLH_NO(float fovy, float aspect, float zNear, float zFar) noexcept
 {
     assert(abs(aspect - std::numeric_limits<float>::epsilon()) > 0.0f);
 
-- 
2.43.0


From e27b5fdfff297fc6d5c496098c0079bc71a0f7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 18/18] fix: angle of a quaternion whose w exceeds one by
 rounding is zero, not NaN

---
 src/quaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quaternion.cpp b/src/quaternion.cpp
index f8f2014..c85d6dd 100644
--- a/src/quaternion.cpp
+++ b/src/quaternion.cpp
@@ -204,7 +204,7 @@ zcm::vec3 zcm_vectorcall zcm::axis(zcm::quat q) noexcept
 
 float zcm_vectorcall zcm::angle(zcm::quat q) noexcept
 {
-    return acos(q.w) * 2.0f;
+    return acos(clamp(q.w, -1.0f, 1.0f)) * 2.0f;
 }
 
 zcm::quat zcm::angleAxis(float angle, zcm::vec3 axis) noexcept
-- 
2.43.0

