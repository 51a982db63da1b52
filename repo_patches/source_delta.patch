From c3bb870648861725dcdc5832cfb01e96f8734cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 01/21] fix: struct aabb2d radius called an undefined function

glms_aabb2d_radius referred to glms_aabb2d_size, which does not exist (the
array API only has it as a macro alias of diag), so any use failed to link.
---
 include/cglm/struct/aabb2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/struct/aabb2d.h b/include/cglm/struct/aabb2d.h
index 9077069..d7c13f1 100644
--- a/include/cglm/struct/aabb2d.h
+++ b/include/cglm/struct/aabb2d.h
@@ -168,7 +168,7 @@ glms_aabb2d_(sizev)(vec2s aabb[2]) {
 CGLM_INLINE
 float
 glms_aabb2d_(radius)(vec2s aabb[2]) {
-  return glms_aabb2d_(size)(aabb) * 0.5f;
+  return glms_aabb2d_(diag)(aabb) * 0.5f;
 }
 
 /*!
-- 
2.43.0


From 7b370e3b5e2617013f702b6b18b061bc73e007f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 02/21] fix: vec4 normalize zeroed short vectors in SSE and
 WASM code

---
 include/cglm/vec4.h | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/include/cglm/vec4.h b/include/cglm/vec4.h
index ded09c9..56bef19 100644
--- a/include/cglm/vec4.h
+++ b/include/cglm/vec4.h
@@ -909,34 +909,33 @@ CGLM_INLINE
 void
 glm_vec4_normalize_to(vec4 v, vec4 dest) {
 #if defined(__wasm__) && defined(__wasm_simd128__)
-  glmm_128 xdot, x0;
-  float  dot;
+  glmm_128 xnorm, x0;
+  float  norm;
 
-  x0   = glmm_load(v);
-  xdot = glmm_vdot(x0, x0);
-  /* dot  = _mm_cvtss_f32(xdot); */
-  dot  = wasm_f32x4_extract_lane(xdot, 0);
+  x0    = glmm_load(v);
+  xnorm = wasm_f32x4_sqrt(glmm_vdot(x0, x0));
+  norm  = wasm_f32x4_extract_lane(xnorm, 0);
 
-  if (CGLM_UNLIKELY(dot < FLT_EPSILON)) {
+  if (CGLM_UNLIKELY(norm < FLT_EPSILON)) {
     glmm_store(dest, wasm_f32x4_const_splat(0.f));
     return;
   }
 
-  glmm_store(dest, glmm_div(x0, wasm_f32x4_sqrt(xdot)));
+  glmm_store(dest, glmm_div(x0, xnorm));
 #elif defined( __SSE__ ) || defined( __SSE2__ )
-  __m128 xdot, x0;
-  float  dot;
+  __m128 xnorm, x0;
+  float  norm;
 
-  x0   = glmm_load(v);
-  xdot = glmm_vdot(x0, x0);
-  dot  = _mm_cvtss_f32(xdot);
+  x0    = glmm_load(v);
+  xnorm = _mm_sqrt_ps(glmm_vdot(x0, x0));
+  norm  = _mm_cvtss_f32(xnorm);
 
-  if (CGLM_UNLIKELY(dot < FLT_EPSILON)) {
+  if (CGLM_UNLIKELY(norm < FLT_EPSILON)) {
     glmm_store(dest, _mm_setzero_ps());
     return;
   }
 
-  glmm_store(dest, glmm_div(x0, _mm_sqrt_ps(xdot)));
+  glmm_store(dest, glmm_div(x0, xnorm));
 #else
   float norm;
 
-- 
2.43.0


From 885a7b3cf718ca1627a08bf8a903c1196dcf21f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 03/21] fix: sign of INT_MIN overflowed and returned 0

---
 include/cglm/util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/util.h b/include/cglm/util.h
index 8c5f2cb..96a1988 100644
--- a/include/cglm/util.h
+++ b/include/cglm/util.h
@@ -48,7 +48,7 @@
 CGLM_INLINE
 int
 glm_sign(int val) {
-  return ((val >> 31) - (-val >> 31));
+  return (val > 0) - (val < 0);
 }
 
 /*!
-- 
2.43.0


From 0e2de7cb8637b25e1fd98cab124c8f2b4afe75e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 04/21] fix: vec3 ortho returned a zero vector for some
 non-zero vectors

---
 include/cglm/vec3.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/cglm/vec3.h b/include/cglm/vec3.h
index 1350818..1d80d15 100644
--- a/include/cglm/vec3.h
+++ b/include/cglm/vec3.h
@@ -922,9 +922,17 @@ glm_vec3_minv(vec3 a, vec3 b, vec3 dest) {
 CGLM_INLINE
 void
 glm_vec3_ortho(vec3 v, vec3 dest) {
-  float ignore;
-  float f      = modff(fabsf(v[0]) + 0.5f, &ignore);
-  vec3  result = {-v[1], v[0] - f * v[2], f * v[1]};
+  vec3 result = {0.0f, 0.0f, 0.0f};
+
+  /* drop the smaller of x and z, so that the result can not vanish */
+  if (fabsf(v[0]) > fabsf(v[2])) {
+    result[0] = -v[1];
+    result[1] =  v[0];
+  } else {
+    result[1] = -v[2];
+    result[2] =  v[1];
+  }
+
   glm_vec3_copy(result, dest);
 }
 
-- 
2.43.0


From 96d15f4a882b889933c0d7602e00b11da5dadd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 05/21] fix: transposing mat4 or mat3 to itself in scalar code

---
 include/cglm/mat3.h | 12 ++++++------
 include/cglm/mat4.h | 19 +++++++++++--------
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/include/cglm/mat3.h b/include/cglm/mat3.h
index 10b373e..78b0023 100644
--- a/include/cglm/mat3.h
+++ b/include/cglm/mat3.h
@@ -190,15 +190,15 @@ glm_mat3_mul(mat3 m1, mat3 m2, mat3 dest) {
 CGLM_INLINE
 void
 glm_mat3_transpose_to(mat3 m, mat3 dest) {
+  float t;
+
   dest[0][0] = m[0][0];
-  dest[0][1] = m[1][0];
-  dest[0][2] = m[2][0];
-  dest[1][0] = m[0][1];
   dest[1][1] = m[1][1];
-  dest[1][2] = m[2][1];
-  dest[2][0] = m[0][2];
-  dest[2][1] = m[1][2];
   dest[2][2] = m[2][2];
+
+  t = m[0][1]; dest[0][1] = m[1][0]; dest[1][0] = t;
+  t = m[0][2]; dest[0][2] = m[2][0]; dest[2][0] = t;
+  t = m[1][2]; dest[1][2] = m[2][1]; dest[2][1] = t;
 }
 
 /*!
diff --git a/include/cglm/mat4.h b/include/cglm/mat4.h
index c3fe7fd..a75b589 100644
--- a/include/cglm/mat4.h
+++ b/include/cglm/mat4.h
@@ -528,14 +528,17 @@ glm_mat4_transpose_to(mat4 m, mat4 dest) {
 #elif defined(CGLM_NEON_FP)
   glm_mat4_transp_neon(m, dest);
 #else
-  dest[0][0] = m[0][0]; dest[1][0] = m[0][1];
-  dest[0][1] = m[1][0]; dest[1][1] = m[1][1];
-  dest[0][2] = m[2][0]; dest[1][2] = m[2][1];
-  dest[0][3] = m[3][0]; dest[1][3] = m[3][1];
-  dest[2][0] = m[0][2]; dest[3][0] = m[0][3];
-  dest[2][1] = m[1][2]; dest[3][1] = m[1][3];
-  dest[2][2] = m[2][2]; dest[3][2] = m[2][3];
-  dest[2][3] = m[3][2]; dest[3][3] = m[3][3];
+  float t;
+
+  dest[0][0] = m[0][0]; dest[1][1] = m[1][1];
+  dest[2][2] = m[2][2]; dest[3][3] = m[3][3];
+
+  t = m[0][1]; dest[0][1] = m[1][0]; dest[1][0] = t;
+  t = m[0][2]; dest[0][2] = m[2][0]; dest[2][0] = t;
+  t = m[0][3]; dest[0][3] = m[3][0]; dest[3][0] = t;
+  t = m[1][2]; dest[1][2] = m[2][1]; dest[2][1] = t;
+  t = m[1][3]; dest[1][3] = m[3][1]; dest[3][1] = t;
+  t = m[2][3]; dest[2][3] = m[3][2]; dest[3][2] = t;
 #endif
 }
 
-- 
2.43.0


From a1598ac9aa01c3242ff064fb3c734ad9a8e08a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 06/21] fix: transposing mat2 to itself in scalar and NEON code

---
 include/cglm/mat2.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cglm/mat2.h b/include/cglm/mat2.h
index 5bec482..c5dc9bd 100644
--- a/include/cglm/mat2.h
+++ b/include/cglm/mat2.h
@@ -199,10 +199,14 @@ glm_mat2_transpose_to(mat2 mat, mat2 dest) {
 #elif defined( __SSE__ ) || defined( __SSE2__ )
   glm_mat2_transp_sse2(mat, dest);
 #else
+  float tmp;
+
   dest[0][0] = mat[0][0];
-  dest[0][1] = mat[1][0];
-  dest[1][0] = mat[0][1];
   dest[1][1] = mat[1][1];
+
+  tmp        = mat[0][1];
+  dest[0][1] = mat[1][0];
+  dest[1][0] = tmp;
 #endif
 }
 
-- 
2.43.0


From c8e42762dc7419ab090be68ba165a4915037084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:15 +0000
Subject: [PATCH 07/21] fix: rotated post transforms dropped the translation of
 the matrix

---
 include/cglm/affine-post.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cglm/affine-post.h b/include/cglm/affine-post.h
index 3e297e6..a83c637 100644
--- a/include/cglm/affine-post.h
+++ b/include/cglm/affine-post.h
@@ -130,7 +130,7 @@ glm_rotated_x(mat4 m, float angle, mat4 dest) {
   t[2][1] = -s;
   t[2][2] =  c;
 
-  glm_mul_rot(t, m, dest);
+  glm_mul(t, m, dest);
 }
 
 /*!
@@ -157,7 +157,7 @@ glm_rotated_y(mat4 m, float angle, mat4 dest) {
   t[2][0] =  s;
   t[2][2] =  c;
 
-  glm_mul_rot(t, m, dest);
+  glm_mul(t, m, dest);
 }
 
 /*!
@@ -184,7 +184,7 @@ glm_rotated_z(mat4 m, float angle, mat4 dest) {
   t[1][0] = -s;
   t[1][1] =  c;
 
-  glm_mul_rot(t, m, dest);
+  glm_mul(t, m, dest);
 }
 
 /*!
@@ -201,7 +201,7 @@ void
 glm_rotated(mat4 m, float angle, vec3 axis) {
   CGLM_ALIGN_MAT mat4 rot;
   glm_rotate_make(rot, angle, axis);
-  glm_mul_rot(rot, m, m);
+  glm_mul(rot, m, m);
 }
 
 /*!
-- 
2.43.0


From d9dcf3b3ac3e4bd0770a0e89e47f70a43f4739cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:15 +0000
Subject: [PATCH 08/21] fix: rotated_at rotated around the opposite pivot

---
 include/cglm/affine-post.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/affine-post.h b/include/cglm/affine-post.h
index a83c637..f312618 100644
--- a/include/cglm/affine-post.h
+++ b/include/cglm/affine-post.h
@@ -222,9 +222,9 @@ glm_rotated_at(mat4 m, vec3 pivot, float angle, vec3 axis) {
 
   glm_vec3_negate_to(pivot, pivotInv);
 
-  glm_translated(m, pivot);
-  glm_rotated(m, angle, axis);
   glm_translated(m, pivotInv);
+  glm_rotated(m, angle, axis);
+  glm_translated(m, pivot);
 }
 
 /*!
-- 
2.43.0


From 7a04bc1397d0a64e46216cb05c90a0ecb006c192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:15 +0000
Subject: [PATCH 09/21] fix: spin moved the object instead of rotating it
 around itself

---
 include/cglm/affine-pre.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/affine-pre.h b/include/cglm/affine-pre.h
index 2fa77f7..232fa45 100644
--- a/include/cglm/affine-pre.h
+++ b/include/cglm/affine-pre.h
@@ -297,7 +297,7 @@ CGLM_INLINE
 void
 glm_spin(mat4 m, float angle, vec3 axis) {
   CGLM_ALIGN_MAT mat4 rot;
-  glm_rotate_atm(rot, m[3], angle, axis);
+  glm_rotate_make(rot, angle, axis);
   glm_mat4_mul(m, rot, m);
 }
 
-- 
2.43.0


From 4e83ca7d67dee00ef6ddfa28846ed44596cdc79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:22 +0000
Subject: [PATCH 10/21] fix: slerp between nearly opposite quaternions passed
 through zero

---
 include/cglm/quat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/quat.h b/include/cglm/quat.h
index cf1f325..fccce5b 100644
--- a/include/cglm/quat.h
+++ b/include/cglm/quat.h
@@ -730,7 +730,7 @@ glm_quat_slerp(versor from, versor to, float t, versor dest) {
 
   /* LERP to avoid zero division */
   if (fabsf(sinTheta) < 0.001f) {
-    glm_quat_lerp(from, to, t, dest);
+    glm_quat_lerp(q1, to, t, dest);
     return;
   }
 
-- 
2.43.0


From 1ff71ca5f5b132e3b33a0b39177207e6c6cb1b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:33 +0000
Subject: [PATCH 11/21] fix: struct euler_to_quat headers included a file that
 does not exist

---
 include/cglm/struct/handed/euler_to_quat_lh.h | 4 +++-
 include/cglm/struct/handed/euler_to_quat_rh.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cglm/struct/handed/euler_to_quat_lh.h b/include/cglm/struct/handed/euler_to_quat_lh.h
index 3964e51..f895d93 100644
--- a/include/cglm/struct/handed/euler_to_quat_lh.h
+++ b/include/cglm/struct/handed/euler_to_quat_lh.h
@@ -18,7 +18,9 @@
 #ifndef cglms_euler_to_quat_lh_h
 #define cglms_euler_to_quat_lh_h
 
-#include "../common.h"
+#include "../../common.h"
+#include "../../types-struct.h"
+#include "../../handed/euler_to_quat_lh.h"
 
 
 /*!
diff --git a/include/cglm/struct/handed/euler_to_quat_rh.h b/include/cglm/struct/handed/euler_to_quat_rh.h
index 6c7f400..d1a7967 100644
--- a/include/cglm/struct/handed/euler_to_quat_rh.h
+++ b/include/cglm/struct/handed/euler_to_quat_rh.h
@@ -18,7 +18,9 @@
 #ifndef cglms_euler_to_quat_rh_h
 #define cglms_euler_to_quat_rh_h
 
-#include "../common.h"
+#include "../../common.h"
+#include "../../types-struct.h"
+#include "../../handed/euler_to_quat_rh.h"
 
 
 /*!
-- 
2.43.0


From 81135f23ec146b902a4160747661cacea8ef9916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 12/21] fix: left-handed frustum mapped off-center frustums
 wrongly

---
 include/cglm/clipspace/persp_lh_no.h | 12 ++++++------
 include/cglm/clipspace/persp_lh_zo.h | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/cglm/clipspace/persp_lh_no.h b/include/cglm/clipspace/persp_lh_no.h
index d28923a..632ca0f 100644
--- a/include/cglm/clipspace/persp_lh_no.h
+++ b/include/cglm/clipspace/persp_lh_no.h
@@ -79,8 +79,8 @@ glm_frustum_lh_no(float left,    float right,
 
   dest[0][0] = nv * rl;
   dest[1][1] = nv * tb;
-  dest[2][0] = (right  + left)    * rl;
-  dest[2][1] = (top    + bottom)  * tb;
+  dest[2][0] =-(right  + left)    * rl;
+  dest[2][1] =-(top    + bottom)  * tb;
   dest[2][2] =-(farZ + nearZ) * fn;
   dest[2][3] = 1.0f;
   dest[3][2] = farZ * nv * fn;
@@ -201,8 +201,8 @@ glm_persp_decomp_lh_no(mat4 proj,
 
   m00 = proj[0][0];
   m11 = proj[1][1];
-  m20 = proj[2][0];
-  m21 = proj[2][1];
+  m20 =-proj[2][0];
+  m21 =-proj[2][1];
   m22 =-proj[2][2];
   m32 = proj[3][2];
 
@@ -254,7 +254,7 @@ glm_persp_decomp_x_lh_no(mat4 proj,
   float nearZ, m20, m00, m22;
 
   m00 = proj[0][0];
-  m20 = proj[2][0];
+  m20 =-proj[2][0];
   m22 =-proj[2][2];
 
   nearZ = proj[3][2] / (m22 - 1.0f);
@@ -279,7 +279,7 @@ glm_persp_decomp_y_lh_no(mat4 proj,
                          float * __restrict bottom) {
   float nearZ, m21, m11, m22;
 
-  m21 = proj[2][1];
+  m21 =-proj[2][1];
   m11 = proj[1][1];
   m22 =-proj[2][2];
 
diff --git a/include/cglm/clipspace/persp_lh_zo.h b/include/cglm/clipspace/persp_lh_zo.h
index de89643..488becf 100644
--- a/include/cglm/clipspace/persp_lh_zo.h
+++ b/include/cglm/clipspace/persp_lh_zo.h
@@ -78,8 +78,8 @@ glm_frustum_lh_zo(float left,    float right,
 
   dest[0][0] = nv * rl;
   dest[1][1] = nv * tb;
-  dest[2][0] = (right  + left)    * rl;
-  dest[2][1] = (top    + bottom)  * tb;
+  dest[2][0] =-(right  + left)    * rl;
+  dest[2][1] =-(top    + bottom)  * tb;
   dest[2][2] =-farZ * fn;
   dest[2][3] = 1.0f;
   dest[3][2] = farZ * nearZ * fn;
@@ -197,8 +197,8 @@ glm_persp_decomp_lh_zo(mat4 proj,
 
   m00 = proj[0][0];
   m11 = proj[1][1];
-  m20 = proj[2][0];
-  m21 = proj[2][1];
+  m20 =-proj[2][0];
+  m21 =-proj[2][1];
   m22 =-proj[2][2];
   m32 = proj[3][2];
 
@@ -248,7 +248,7 @@ glm_persp_decomp_x_lh_zo(mat4 proj,
   float nearZ, m20, m00;
 
   m00 = proj[0][0];
-  m20 = proj[2][0];
+  m20 =-proj[2][0];
 
   nearZ = proj[3][2] / (proj[3][3]);
   *left   = nearZ * (m20 - 1.0f) / m00;
@@ -272,7 +272,7 @@ glm_persp_decomp_y_lh_zo(mat4 proj,
                          float * __restrict bottom) {
   float nearZ, m21, m11;
 
-  m21 = proj[2][1];
+  m21 =-proj[2][1];
   m11 = proj[1][1];
 
   nearZ = proj[3][2] / (proj[3][3]);
-- 
2.43.0


From 76f90a0cd491b60e838a8d5d46e0d557964299de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 13/21] fix: persp_decomp_x/y_lh_zo divided by zero instead of
 finding the near plane

---
 include/cglm/clipspace/persp_lh_zo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cglm/clipspace/persp_lh_zo.h b/include/cglm/clipspace/persp_lh_zo.h
index 488becf..36ecb36 100644
--- a/include/cglm/clipspace/persp_lh_zo.h
+++ b/include/cglm/clipspace/persp_lh_zo.h
@@ -250,7 +250,7 @@ glm_persp_decomp_x_lh_zo(mat4 proj,
   m00 = proj[0][0];
   m20 =-proj[2][0];
 
-  nearZ = proj[3][2] / (proj[3][3]);
+  nearZ = proj[3][2] / -proj[2][2];
   *left   = nearZ * (m20 - 1.0f) / m00;
   *right  = nearZ * (m20 + 1.0f) / m00;
 }
@@ -275,7 +275,7 @@ glm_persp_decomp_y_lh_zo(mat4 proj,
   m21 =-proj[2][1];
   m11 = proj[1][1];
 
-  nearZ = proj[3][2] / (proj[3][3]);
+  nearZ = proj[3][2] / -proj[2][2];
   *bottom = nearZ * (m21 - 1) / m11;
   *top    = nearZ * (m21 + 1) / m11;
 }
-- 
2.43.0


From 8a4cc38e91b2acc72f11ce8ff7600cf3abadb072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 14/21] fix: left-handed ortho_aabb put the box behind the
 viewer

---
 include/cglm/clipspace/ortho_lh_no.h | 6 +++---
 include/cglm/clipspace/ortho_lh_zo.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cglm/clipspace/ortho_lh_no.h b/include/cglm/clipspace/ortho_lh_no.h
index 76c7a94..71f2c89 100644
--- a/include/cglm/clipspace/ortho_lh_no.h
+++ b/include/cglm/clipspace/ortho_lh_no.h
@@ -83,7 +83,7 @@ void
 glm_ortho_aabb_lh_no(vec3 box[2], mat4 dest) {
   glm_ortho_lh_no(box[0][0],  box[1][0],
                   box[0][1],  box[1][1],
-                 -box[1][2], -box[0][2],
+                  box[0][2],  box[1][2],
                   dest);
 }
 
@@ -103,7 +103,7 @@ void
 glm_ortho_aabb_p_lh_no(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_no(box[0][0] - padding,    box[1][0] + padding,
                   box[0][1] - padding,    box[1][1] + padding,
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                  box[0][2] - padding,    box[1][2] + padding,
                   dest);
 }
 
@@ -123,7 +123,7 @@ void
 glm_ortho_aabb_pz_lh_no(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_no(box[0][0],              box[1][0],
                   box[0][1],              box[1][1],
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                  box[0][2] - padding,    box[1][2] + padding,
                   dest);
 }
 
diff --git a/include/cglm/clipspace/ortho_lh_zo.h b/include/cglm/clipspace/ortho_lh_zo.h
index e45530d..9c88eb0 100644
--- a/include/cglm/clipspace/ortho_lh_zo.h
+++ b/include/cglm/clipspace/ortho_lh_zo.h
@@ -81,7 +81,7 @@ void
 glm_ortho_aabb_lh_zo(vec3 box[2], mat4 dest) {
   glm_ortho_lh_zo(box[0][0],  box[1][0],
                   box[0][1],  box[1][1],
-                 -box[1][2], -box[0][2],
+                  box[0][2],  box[1][2],
                   dest);
 }
 
@@ -100,7 +100,7 @@ void
 glm_ortho_aabb_p_lh_zo(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_zo(box[0][0] - padding,    box[1][0] + padding,
                   box[0][1] - padding,    box[1][1] + padding,
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                  box[0][2] - padding,    box[1][2] + padding,
                   dest);
 }
 
@@ -119,7 +119,7 @@ void
 glm_ortho_aabb_pz_lh_zo(vec3 box[2], float padding, mat4 dest) {
   glm_ortho_lh_zo(box[0][0],              box[1][0],
                   box[0][1],              box[1][1],
-                -(box[1][2] + padding), -(box[0][2] - padding),
+                  box[0][2] - padding,    box[1][2] + padding,
                   dest);
 }
 
-- 
2.43.0


From 8150d04cc617ea066c70db13002f294270467ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 15/21] fix: struct pickmatrix returned an uninitialized matrix
 for an empty region

---
 include/cglm/struct/project.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/struct/project.h b/include/cglm/struct/project.h
index 8383c77..2e423a9 100644
--- a/include/cglm/struct/project.h
+++ b/include/cglm/struct/project.h
@@ -154,7 +154,7 @@ glms_project_z(vec3s v, mat4s m) {
 CGLM_INLINE
 mat4s
 glms_pickmatrix(vec2s center, vec2s size, vec4s vp) {
-  mat4s res;
+  mat4s res = GLMS_MAT4_IDENTITY_INIT;
   glm_pickmatrix(center.raw, size.raw, vp.raw, res.raw);
   return res;
 }
-- 
2.43.0


From b5433d06698b288001c74295e2afb724b8116a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 16/21] fix: box-sphere and box-circle tests measured to the
 far side for centers below the minimum

---
 include/cglm/aabb2d.h | 4 ++--
 include/cglm/box.h    | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cglm/aabb2d.h b/include/cglm/aabb2d.h
index 6369d08..03c6773 100644
--- a/include/cglm/aabb2d.h
+++ b/include/cglm/aabb2d.h
@@ -235,8 +235,8 @@ glm_aabb2d_circle(vec2 aabb[2], vec3 c) {
   a = (c[0] < aabb[0][0]) + (c[0] > aabb[1][0]);
   b = (c[1] < aabb[0][1]) + (c[1] > aabb[1][1]);
 
-  dmin  = glm_pow2((c[0] - aabb[!(a - 1)][0]) * (a != 0))
-        + glm_pow2((c[1] - aabb[!(b - 1)][1]) * (b != 0));
+  dmin  = glm_pow2((c[0] - aabb[c[0] > aabb[1][0]][0]) * (a != 0))
+        + glm_pow2((c[1] - aabb[c[1] > aabb[1][1]][1]) * (b != 0));
 
   return dmin <= glm_pow2(c[2]);
 }
diff --git a/include/cglm/box.h b/include/cglm/box.h
index 8bba678..a56909b 100644
--- a/include/cglm/box.h
+++ b/include/cglm/box.h
@@ -243,9 +243,9 @@ glm_aabb_sphere(vec3 box[2], vec4 s) {
   b = (s[1] < box[0][1]) + (s[1] > box[1][1]);
   c = (s[2] < box[0][2]) + (s[2] > box[1][2]);
 
-  dmin  = glm_pow2((s[0] - box[!(a - 1)][0]) * (a != 0))
-        + glm_pow2((s[1] - box[!(b - 1)][1]) * (b != 0))
-        + glm_pow2((s[2] - box[!(c - 1)][2]) * (c != 0));
+  dmin  = glm_pow2((s[0] - box[s[0] > box[1][0]][0]) * (a != 0))
+        + glm_pow2((s[1] - box[s[1] > box[1][1]][1]) * (b != 0))
+        + glm_pow2((s[2] - box[s[2] > box[1][2]][2]) * (c != 0));
 
   return dmin <= glm_pow2(s[3]);
 }
-- 
2.43.0


From c9104bae9309c843454e570c5d2286e98764f8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 17/21] fix: ray_sphere returned NaN for a ray touching the
 sphere at its origin

---
 include/cglm/ray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/ray.h b/include/cglm/ray.h
index d7831bc..f1354f5 100644
--- a/include/cglm/ray.h
+++ b/include/cglm/ray.h
@@ -134,7 +134,7 @@ glm_ray_sphere(vec3 origin,
      "Numerical Recipes in C," Cambridge University Press, 1992.
    */
   _t1 = q;
-  _t2 = (dpp - r2) / q;
+  _t2 = (q != 0.0f) ? (dpp - r2) / q : 0.0f;
 
   /* adjust t1 and t2 to ensure t1 is the closer intersection */
   if (_t1 > _t2) {
-- 
2.43.0


From d785fabe468ff5d318c07e944521a1240c42c878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 18/21] fix: ease_bounce_inout ran the first half backwards

---
 include/cglm/ease.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/ease.h b/include/cglm/ease.h
index e26b48c..4f51bb4 100644
--- a/include/cglm/ease.h
+++ b/include/cglm/ease.h
@@ -309,7 +309,7 @@ CGLM_INLINE
 float
 glm_ease_bounce_inout(float t) {
   if (t < 0.5f)
-    return 0.5f * (1.0f - glm_ease_bounce_out(t * 2.0f));
+    return 0.5f * glm_ease_bounce_in(t * 2.0f);
 
   return 0.5f * glm_ease_bounce_out(t * 2.0f - 1.0f) + 0.5f;
 }
-- 
2.43.0


From 3ec83bf330c063d08aa573eb92c2db62c36a854e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 19/21] fix: matrix print chose the number format from the
 transposed element

---
 include/cglm/io.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/cglm/io.h b/include/cglm/io.h
index baa80f1..33c5d31 100644
--- a/include/cglm/io.h
+++ b/include/cglm/io.h
@@ -143,7 +143,7 @@ glm_mat4_print(mat4              matrix,
     fprintf(ostream, "  |");
 
     for (j = 0; j < n; j++)
-      if (matrix[i][j] < CGLM_PRINT_MAX_TO_SHORT)
+      if (matrix[j][i] < CGLM_PRINT_MAX_TO_SHORT)
         fprintf(ostream, " % *.*f", cw[j], CGLM_PRINT_PRECISION, (double)matrix[j][i]);
       else
         fprintf(ostream, " % *g", cw[j], (double)matrix[j][i]);
@@ -186,7 +186,7 @@ glm_mat3_print(mat3              matrix,
     fprintf(ostream, "  |");
 
     for (j = 0; j < n; j++)
-      if (matrix[i][j] < CGLM_PRINT_MAX_TO_SHORT)
+      if (matrix[j][i] < CGLM_PRINT_MAX_TO_SHORT)
         fprintf(ostream, " % *.*f", cw[j], CGLM_PRINT_PRECISION, (double)matrix[j][i]);
       else
         fprintf(ostream, " % *g", cw[j], (double)matrix[j][i]);
@@ -228,7 +228,7 @@ glm_mat2_print(mat2              matrix,
     fprintf(ostream, "  |");
 
     for (j = 0; j < n; j++)
-      if (matrix[i][j] < CGLM_PRINT_MAX_TO_SHORT)
+      if (matrix[j][i] < CGLM_PRINT_MAX_TO_SHORT)
         fprintf(ostream, " % *.*f", cw[j], CGLM_PRINT_PRECISION, (double)matrix[j][i]);
       else
         fprintf(ostream, " % *g", cw[j], (double)matrix[j][i]);
-- 
2.43.0


From 979831c2ef158f106a752384c0b58460f664bab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 20/21] fix: struct naming options missed vec2 min and isvalid
 and broke the step_uni aliases

---
 include/cglm/struct/vec2-ext.h | 4 ++--
 include/cglm/struct/vec3.h     | 2 +-
 include/cglm/struct/vec4.h     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cglm/struct/vec2-ext.h b/include/cglm/struct/vec2-ext.h
index 246132f..12c62ff 100644
--- a/include/cglm/struct/vec2-ext.h
+++ b/include/cglm/struct/vec2-ext.h
@@ -134,7 +134,7 @@ glms_vec2_(max)(vec2s v) {
  */
 CGLM_INLINE
 float
-glms_vec2_min(vec2s v) {
+glms_vec2_(min)(vec2s v) {
   return glm_vec2_min(v.raw);
 }
 
@@ -170,7 +170,7 @@ glms_vec2_(isinf)(vec2s v) {
  */
 CGLM_INLINE
 bool
-glms_vec2_isvalid(vec2s v) {
+glms_vec2_(isvalid)(vec2s v) {
   return glm_vec2_isvalid(v.raw);
 }
 
diff --git a/include/cglm/struct/vec3.h b/include/cglm/struct/vec3.h
index a1d901e..b94bbe2 100644
--- a/include/cglm/struct/vec3.h
+++ b/include/cglm/struct/vec3.h
@@ -98,7 +98,7 @@
 #include "vec3-ext.h"
 
 /* DEPRECATED! */
-#define glms_vec3_step_uni(edge, x) glms_vec3_steps(edge, x)
+#define glms_vec3_step_uni(edge, x) glms_vec3_(steps)(edge, x)
 
 #define GLMS_VEC3_ONE_INIT   {GLM_VEC3_ONE_INIT}
 #define GLMS_VEC3_ZERO_INIT  {GLM_VEC3_ZERO_INIT}
diff --git a/include/cglm/struct/vec4.h b/include/cglm/struct/vec4.h
index a64c1a3..7b973db 100644
--- a/include/cglm/struct/vec4.h
+++ b/include/cglm/struct/vec4.h
@@ -83,7 +83,7 @@
 #include "vec4-ext.h"
 
 /* DEPRECATED! */
-#define glms_vec4_step_uni(edge, x) glms_vec4_steps(edge, x)
+#define glms_vec4_step_uni(edge, x) glms_vec4_(steps)(edge, x)
 
 #define GLMS_VEC4_ONE_INIT   {GLM_VEC4_ONE_INIT}
 #define GLMS_VEC4_BLACK_INIT {GLM_VEC4_BLACK_INIT}
-- 
2.43.0


From 6c2f6fa02bbe81b87733b6316ec9a4132d6e1b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 21/21] fix: glms_frustum_corners_at copied eight corners out
 of a four element array

---
 include/cglm/struct/frustum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cglm/struct/frustum.h b/include/cglm/struct/frustum.h
index 81b5b7b..4b043d9 100644
--- a/include/cglm/struct/frustum.h
+++ b/include/cglm/struct/frustum.h
@@ -149,7 +149,7 @@ glms_frustum_corners_at(vec4s corners[8],
 
   glms_vec4_(unpack)(rawCorners, corners, 8);
   glm_frustum_corners_at(rawCorners, splitDist, farDist, rawPlaneCorners);
-  glms_vec4_(pack)(planeCorners, rawPlaneCorners, 8);
+  glms_vec4_(pack)(planeCorners, rawPlaneCorners, 4);
 }
 
 #endif /* cglms_frustums_h */
-- 
2.43.0

