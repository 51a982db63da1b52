/* Lane-exact stand-in for the NEON intrinsics cglm uses, so that the ARM code paths can be executed
   on another machine. Plain loops over GCC/clang vector types; semantics from the Arm intrinsics reference. */
#ifndef VF_ARM_NEON_H
#define VF_ARM_NEON_H
#include <stdint.h>
#include <string.h>
typedef float float32x4_t __attribute__((vector_size(16)));
typedef float float32x2_t __attribute__((vector_size(8)));
typedef int32_t int32x4_t __attribute__((vector_size(16)));
typedef uint32_t uint32x4_t __attribute__((vector_size(16)));
typedef struct { float32x4_t val[2]; } float32x4x2_t;
typedef struct { float32x4_t val[3]; } float32x4x3_t;
typedef struct { float32x4_t val[4]; } float32x4x4_t;
typedef struct { float32x2_t val[2]; } float32x2x2_t;
typedef float float32_t;
#define VFI static inline __attribute__((always_inline, unused))
VFI float vf_abs(float x) { uint32_t u; memcpy(&u, &x, 4); u &= 0x7fffffffu; memcpy(&x, &u, 4); return x; }
VFI float vf_max(float a, float b) { return a != a || b != b ? a + b : a > b ? a : b > a ? b : (a == 0 && __builtin_signbit(a)) ? b : a; }
VFI float vf_min(float a, float b) { return a != a || b != b ? a + b : a < b ? a : b < a ? b : (a == 0 && __builtin_signbit(a)) ? a : b; }
VFI float32x4_t vld1q_f32(const float *p) { float32x4_t r; memcpy(&r, p, 16); return r; }
VFI float32x2_t vld1_f32(const float *p) { float32x2_t r; memcpy(&r, p, 8); return r; }
VFI void vst1q_f32(float *p, float32x4_t v) { memcpy(p, &v, 16); }
VFI void vst1_f32(float *p, float32x2_t v) { memcpy(p, &v, 8); }
#define vst1q_lane_f32(p, v, l) (*(p) = (v)[l])
#define vst1_lane_f32(p, v, l) (*(p) = (v)[l])
VFI float32x4x4_t vld4q_f32(const float *p) { float32x4x4_t r; for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) r.val[k][i] = p[i * 4 + k]; return r; }
VFI float32x4x2_t vld2q_f32(const float *p) { float32x4x2_t r; for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) r.val[k][i] = p[i * 2 + k]; return r; }
VFI void vst4q_f32(float *p, float32x4x4_t r) { for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) p[i * 4 + k] = r.val[k][i]; }
VFI float32x4_t vdupq_n_f32(float x) { return (float32x4_t){x, x, x, x}; }
#define vmovq_n_f32 vdupq_n_f32
VFI float32x2_t vdup_n_f32(float x) { return (float32x2_t){x, x}; }
#define vdupq_lane_f32(v, l) vdupq_n_f32((v)[l])
#define vdupq_laneq_f32(v, l) vdupq_n_f32((v)[l])
#define vdup_lane_f32(v, l) vdup_n_f32((v)[l])
#define vdup_laneq_f32(v, l) vdup_n_f32((v)[l])
#define vgetq_lane_f32(v, l) ((v)[l])
#define vget_lane_f32(v, l) ((v)[l])
VFI float32x4_t vf_setl(float x, float32x4_t v, int l) { v[l] = x; return v; }
#define vsetq_lane_f32(x, v, l) vf_setl(x, v, l)
VFI float32x2_t vget_low_f32(float32x4_t v) { return (float32x2_t){v[0], v[1]}; }
VFI float32x2_t vget_high_f32(float32x4_t v) { return (float32x2_t){v[2], v[3]}; }
VFI float32x4_t vcombine_f32(float32x2_t a, float32x2_t b) { return (float32x4_t){a[0], a[1], b[0], b[1]}; }
VFI int32x4_t vreinterpretq_s32_f32(float32x4_t v) { int32x4_t r; memcpy(&r, &v, 16); return r; }
VFI float32x4_t vreinterpretq_f32_s32(int32x4_t v) { float32x4_t r; memcpy(&r, &v, 16); return r; }
VFI uint32x4_t vreinterpretq_u32_f32(float32x4_t v) { uint32x4_t r; memcpy(&r, &v, 16); return r; }
VFI float32x4_t vreinterpretq_f32_u32(uint32x4_t v) { float32x4_t r; memcpy(&r, &v, 16); return r; }
VFI int32x4_t veorq_s32(int32x4_t a, int32x4_t b) { return a ^ b; }
VFI uint32x4_t veorq_u32(uint32x4_t a, uint32x4_t b) { return a ^ b; }
VFI uint32x4_t vandq_u32(uint32x4_t a, uint32x4_t b) { return a & b; }
VFI float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) { return a + b; }
VFI float32x4_t vsubq_f32(float32x4_t a, float32x4_t b) { return a - b; }
VFI float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) { return a * b; }
VFI float32x4_t vdivq_f32(float32x4_t a, float32x4_t b) { return a / b; }
VFI float32x2_t vadd_f32(float32x2_t a, float32x2_t b) { return a + b; }
VFI float32x2_t vsub_f32(float32x2_t a, float32x2_t b) { return a - b; }
VFI float32x2_t vmul_f32(float32x2_t a, float32x2_t b) { return a * b; }
VFI float32x4_t vmulq_n_f32(float32x4_t a, float b) { return a * vdupq_n_f32(b); }
#define vmulq_lane_f32(a, v, l) vmulq_n_f32(a, (v)[l])
#define vmulq_laneq_f32(a, v, l) vmulq_n_f32(a, (v)[l])
#define vmul_lane_f32(a, v, l) vmul_f32(a, vdup_n_f32((v)[l]))
VFI float32x4_t vnegq_f32(float32x4_t a) { return -a; }
VFI float32x2_t vneg_f32(float32x2_t a) { return -a; }
VFI float32x4_t vmlaq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { float32x4_t t = b * c; __asm__("" : "+x"(t)); return a + t; }
VFI float32x4_t vmlsq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { float32x4_t t = b * c; __asm__("" : "+x"(t)); return a - t; }
#define vmlaq_lane_f32(a, b, v, l) vmlaq_f32(a, b, vdupq_n_f32((v)[l]))
#define vmlsq_lane_f32(a, b, v, l) vmlsq_f32(a, b, vdupq_n_f32((v)[l]))
#define vmlaq_n_f32(a, b, x) vmlaq_f32(a, b, vdupq_n_f32(x))
#define vmlsq_n_f32(a, b, x) vmlsq_f32(a, b, vdupq_n_f32(x))
VFI float32x4_t vfmaq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { for (int i = 0; i < 4; i++) a[i] = (float)((double)b[i] * c[i] + a[i]); return a; }
VFI float32x4_t vfmsq_f32(float32x4_t a, float32x4_t b, float32x4_t c) { for (int i = 0; i < 4; i++) a[i] = (float)(a[i] - (double)b[i] * c[i]); return a; }
#define vfmaq_n_f32(a, b, x) vfmaq_f32(a, b, vdupq_n_f32(x))
#define vfmaq_lane_f32(a, b, v, l) vfmaq_f32(a, b, vdupq_n_f32((v)[l]))
#define vfmaq_laneq_f32(a, b, v, l) vfmaq_f32(a, b, vdupq_n_f32((v)[l]))
#define vfmsq_lane_f32(a, b, v, l) vfmsq_f32(a, b, vdupq_n_f32((v)[l]))
#define vfmsq_laneq_f32(a, b, v, l) vfmsq_f32(a, b, vdupq_n_f32((v)[l]))
VFI float32x4_t vabsq_f32(float32x4_t a) { for (int i = 0; i < 4; i++) a[i] = vf_abs(a[i]); return a; }
VFI float32x4_t vmaxq_f32(float32x4_t a, float32x4_t b) { for (int i = 0; i < 4; i++) a[i] = vf_max(a[i], b[i]); return a; }
VFI float32x4_t vminq_f32(float32x4_t a, float32x4_t b) { for (int i = 0; i < 4; i++) a[i] = vf_min(a[i], b[i]); return a; }
VFI float32x2_t vpadd_f32(float32x2_t a, float32x2_t b) { return (float32x2_t){a[0] + a[1], b[0] + b[1]}; }
VFI float32x2_t vpmax_f32(float32x2_t a, float32x2_t b) { return (float32x2_t){vf_max(a[0], a[1]), vf_max(b[0], b[1])}; }
VFI float32x2_t vpmin_f32(float32x2_t a, float32x2_t b) { return (float32x2_t){vf_min(a[0], a[1]), vf_min(b[0], b[1])}; }
VFI float32x4_t vpaddq_f32(float32x4_t a, float32x4_t b) { return (float32x4_t){a[0] + a[1], a[2] + a[3], b[0] + b[1], b[2] + b[3]}; }
VFI float vaddvq_f32(float32x4_t a) { return (a[0] + a[1]) + (a[2] + a[3]); }
VFI float vmaxvq_f32(float32x4_t a) { return vf_max(vf_max(a[0], a[1]), vf_max(a[2], a[3])); }
VFI float vminvq_f32(float32x4_t a) { return vf_min(vf_min(a[0], a[1]), vf_min(a[2], a[3])); }
VFI float32x4_t vsqrtq_f32(float32x4_t a) { for (int i = 0; i < 4; i++) a[i] = __builtin_sqrtf(a[i]); return a; }
VFI float32x4_t vrev64q_f32(float32x4_t a) { return (float32x4_t){a[1], a[0], a[3], a[2]}; }
VFI float32x2_t vrev64_f32(float32x2_t a) { return (float32x2_t){a[1], a[0]}; }
VFI float32x4_t vf_ext(float32x4_t a, float32x4_t b, int n) { float32x4_t r; for (int i = 0; i < 4; i++) r[i] = i + n < 4 ? a[i + n] : b[i + n - 4]; return r; }
#define vextq_f32(a, b, n) vf_ext(a, b, n)
VFI float32x4x2_t vzipq_f32(float32x4_t a, float32x4_t b) { float32x4x2_t r = {{{a[0], b[0], a[1], b[1]}, {a[2], b[2], a[3], b[3]}}}; return r; }
VFI float32x4x2_t vuzpq_f32(float32x4_t a, float32x4_t b) { float32x4x2_t r = {{{a[0], a[2], b[0], b[2]}, {a[1], a[3], b[1], b[3]}}}; return r; }
VFI float32x4x2_t vtrnq_f32(float32x4_t a, float32x4_t b) { float32x4x2_t r = {{{a[0], b[0], a[2], b[2]}, {a[1], b[1], a[3], b[3]}}}; return r; }
VFI float32x4_t vzip1q_f32(float32x4_t a, float32x4_t b) { return vzipq_f32(a, b).val[0]; }
VFI float32x4_t vzip2q_f32(float32x4_t a, float32x4_t b) { return vzipq_f32(a, b).val[1]; }
VFI float32x4_t vtrn1q_f32(float32x4_t a, float32x4_t b) { return vtrnq_f32(a, b).val[0]; }
VFI float32x4_t vtrn2q_f32(float32x4_t a, float32x4_t b) { return vtrnq_f32(a, b).val[1]; }
VFI float32x4_t vuzp1q_f32(float32x4_t a, float32x4_t b) { return vuzpq_f32(a, b).val[0]; }
VFI float32x4_t vuzp2q_f32(float32x4_t a, float32x4_t b) { return vuzpq_f32(a, b).val[1]; }
/* 8-bit reciprocal estimate as in the architecture's RecipEstimate table */
VFI float vf_recpe(float x) {
  uint32_t u; memcpy(&u, &x, 4); uint32_t sg = u & 0x80000000u; int ex = (int)(u >> 23 & 255); uint32_t fr = u & 0x7fffffu; float r;
  if (x != x) return x;
  if (ex == 255) { memcpy(&r, &sg, 4); return r; }
  if (ex == 0) { uint32_t o = sg | 0x7f800000u; memcpy(&r, &o, 4); return r; }
  if (ex >= 253) { memcpy(&r, &sg, 4); return r; }
  int q = 256 + (int)(fr >> 15); double a = 1.0 / ((q + 0.5) / 512.0); int s = (int)(256.0 * a + 0.5); /* in [256,511] */
  uint32_t o = sg | (uint32_t)(253 - ex) << 23 | (uint32_t)(s & 255) << 15; memcpy(&r, &o, 4); return r;
}
VFI float32x4_t vrecpeq_f32(float32x4_t a) { for (int i = 0; i < 4; i++) a[i] = vf_recpe(a[i]); return a; }
VFI float32x4_t vrecpsq_f32(float32x4_t a, float32x4_t b) { for (int i = 0; i < 4; i++) { float x = a[i], y = b[i]; if ((x == 0 && __builtin_isinf(y)) || (y == 0 && __builtin_isinf(x))) a[i] = 2; else { float p = x * y; __asm__("" : "+x"(p)); a[i] = 2.0f - p; } } return a; }
/* further intrinsics, so that rewritten code still compiles here */
typedef int32_t int32x2_t __attribute__((vector_size(8)));
typedef uint32_t uint32x2_t __attribute__((vector_size(8)));
VFI int32x4_t vld1q_s32(const int32_t *p) { int32x4_t r; memcpy(&r, p, 16); return r; }
VFI uint32x4_t vld1q_u32(const uint32_t *p) { uint32x4_t r; memcpy(&r, p, 16); return r; }
VFI void vst1q_s32(int32_t *p, int32x4_t v) { memcpy(p, &v, 16); }
VFI void vst1q_u32(uint32_t *p, uint32x4_t v) { memcpy(p, &v, 16); }
VFI int32x4_t vdupq_n_s32(int32_t x) { return (int32x4_t){x, x, x, x}; }
VFI uint32x4_t vdupq_n_u32(uint32_t x) { return (uint32x4_t){x, x, x, x}; }
#define vmovq_n_s32 vdupq_n_s32
#define vmovq_n_u32 vdupq_n_u32
#define vmov_n_f32 vdup_n_f32
VFI float32x4_t vld1q_dup_f32(const float *p) { return vdupq_n_f32(*p); }
VFI float32x2_t vld1_dup_f32(const float *p) { return vdup_n_f32(*p); }
#define vld1q_lane_f32(p, v, l) vf_setl(*(p), v, l)
VFI float32x2_t vf_setl2(float x, float32x2_t v, int l) { v[l] = x; return v; }
#define vset_lane_f32(x, v, l) vf_setl2(x, v, l)
#define vld1_lane_f32(p, v, l) vf_setl2(*(p), v, l)
#define vgetq_lane_u32(v, l) ((v)[l])
#define vgetq_lane_s32(v, l) ((v)[l])
VFI void vst2q_f32(float *p, float32x4x2_t r) { for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) p[i * 2 + k] = r.val[k][i]; }
VFI float32x4x3_t vld3q_f32(const float *p) { float32x4x3_t r; for (int i = 0; i < 4; i++) for (int k = 0; k < 3; k++) r.val[k][i] = p[i * 3 + k]; return r; }
VFI void vst3q_f32(float *p, float32x4x3_t r) { for (int i = 0; i < 4; i++) for (int k = 0; k < 3; k++) p[i * 3 + k] = r.val[k][i]; }
VFI uint32x4_t vceqq_f32(float32x4_t a, float32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] == b[i] ? ~0u : 0; return r; }
VFI uint32x4_t vcgtq_f32(float32x4_t a, float32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] > b[i] ? ~0u : 0; return r; }
VFI uint32x4_t vcgeq_f32(float32x4_t a, float32x4_t b) { uint32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] >= b[i] ? ~0u : 0; return r; }
VFI uint32x4_t vcltq_f32(float32x4_t a, float32x4_t b) { return vcgtq_f32(b, a); }
VFI uint32x4_t vcleq_f32(float32x4_t a, float32x4_t b) { return vcgeq_f32(b, a); }
VFI uint32x4_t vcagtq_f32(float32x4_t a, float32x4_t b) { return vcgtq_f32(vabsq_f32(a), vabsq_f32(b)); }
VFI uint32x4_t vcageq_f32(float32x4_t a, float32x4_t b) { return vcgeq_f32(vabsq_f32(a), vabsq_f32(b)); }
VFI uint32x4_t vorrq_u32(uint32x4_t a, uint32x4_t b) { return a | b; }
VFI uint32x4_t vmvnq_u32(uint32x4_t a) { return ~a; }
VFI uint32x4_t vbicq_u32(uint32x4_t a, uint32x4_t b) { return a & ~b; }
VFI int32x4_t vandq_s32(int32x4_t a, int32x4_t b) { return a & b; }
VFI int32x4_t vorrq_s32(int32x4_t a, int32x4_t b) { return a | b; }
VFI int32x4_t vaddq_s32(int32x4_t a, int32x4_t b) { return (int32x4_t)((uint32x4_t)a + (uint32x4_t)b); }
VFI int32x4_t vsubq_s32(int32x4_t a, int32x4_t b) { return (int32x4_t)((uint32x4_t)a - (uint32x4_t)b); }
VFI int32x4_t vmulq_s32(int32x4_t a, int32x4_t b) { return (int32x4_t)((uint32x4_t)a * (uint32x4_t)b); }
VFI float32x4_t vbslq_f32(uint32x4_t m, float32x4_t a, float32x4_t b) { return vreinterpretq_f32_u32((m & vreinterpretq_u32_f32(a)) | (~m & vreinterpretq_u32_f32(b))); }
VFI uint32_t vmaxvq_u32(uint32x4_t a) { uint32_t m = a[0]; for (int i = 1; i < 4; i++) if (a[i] > m) m = a[i]; return m; }
VFI uint32_t vminvq_u32(uint32x4_t a) { uint32_t m = a[0]; for (int i = 1; i < 4; i++) if (a[i] < m) m = a[i]; return m; }
VFI float32x4_t vabdq_f32(float32x4_t a, float32x4_t b) { return vabsq_f32(a - b); }
VFI float32x2_t vabs_f32(float32x2_t a) { return (float32x2_t){vf_abs(a[0]), vf_abs(a[1])}; }
VFI float32x2_t vmax_f32(float32x2_t a, float32x2_t b) { return (float32x2_t){vf_max(a[0], b[0]), vf_max(a[1], b[1])}; }
VFI float32x2_t vmin_f32(float32x2_t a, float32x2_t b) { return (float32x2_t){vf_min(a[0], b[0]), vf_min(a[1], b[1])}; }
VFI float32x2_t vdiv_f32(float32x2_t a, float32x2_t b) { return a / b; }
VFI float32x2_t vsqrt_f32(float32x2_t a) { return (float32x2_t){__builtin_sqrtf(a[0]), __builtin_sqrtf(a[1])}; }
VFI float32x2_t vmul_n_f32(float32x2_t a, float b) { return a * vdup_n_f32(b); }
VFI float32x2_t vmla_f32(float32x2_t a, float32x2_t b, float32x2_t c) { float32x2_t t = {b[0] * c[0], b[1] * c[1]}; __asm__("" : "+x"(t)); return a + t; }
VFI float32x2_t vmls_f32(float32x2_t a, float32x2_t b, float32x2_t c) { float32x2_t t = {b[0] * c[0], b[1] * c[1]}; __asm__("" : "+x"(t)); return a - t; }
VFI float32x2_t vfma_f32(float32x2_t a, float32x2_t b, float32x2_t c) { for (int i = 0; i < 2; i++) a[i] = (float)((double)b[i] * c[i] + a[i]); return a; }
VFI float32x2_t vfms_f32(float32x2_t a, float32x2_t b, float32x2_t c) { for (int i = 0; i < 2; i++) a[i] = (float)(a[i] - (double)b[i] * c[i]); return a; }
#define vmlaq_laneq_f32(a, b, v, l) vmlaq_f32(a, b, vdupq_n_f32((v)[l]))
#define vmlsq_laneq_f32(a, b, v, l) vmlsq_f32(a, b, vdupq_n_f32((v)[l]))
#define vfmsq_n_f32(a, b, x) vfmsq_f32(a, b, vdupq_n_f32(x))
#define vmla_lane_f32(a, b, v, l) vmla_f32(a, b, vdup_n_f32((v)[l]))
#define vfma_lane_f32(a, b, v, l) vfma_f32(a, b, vdup_n_f32((v)[l]))
VFI float vaddv_f32(float32x2_t a) { return a[0] + a[1]; }
VFI float vmaxv_f32(float32x2_t a) { return vf_max(a[0], a[1]); }
VFI float vminv_f32(float32x2_t a) { return vf_min(a[0], a[1]); }
VFI float32x4_t vpmaxq_f32(float32x4_t a, float32x4_t b) { return (float32x4_t){vf_max(a[0], a[1]), vf_max(a[2], a[3]), vf_max(b[0], b[1]), vf_max(b[2], b[3])}; }
VFI float32x4_t vpminq_f32(float32x4_t a, float32x4_t b) { return (float32x4_t){vf_min(a[0], a[1]), vf_min(a[2], a[3]), vf_min(b[0], b[1]), vf_min(b[2], b[3])}; }
VFI float32x2x2_t vzip_f32(float32x2_t a, float32x2_t b) { float32x2x2_t r = {{{a[0], b[0]}, {a[1], b[1]}}}; return r; }
VFI float32x2x2_t vuzp_f32(float32x2_t a, float32x2_t b) { return vzip_f32(a, b); }
VFI float32x2x2_t vtrn_f32(float32x2_t a, float32x2_t b) { return vzip_f32(a, b); }
VFI float32x2_t vext_f32(float32x2_t a, float32x2_t b, int n) { return n ? (float32x2_t){a[1], b[0]} : a; }
VFI float32x4_t vrndmq_f32(float32x4_t a) { for (int i = 0; i < 4; i++) a[i] = __builtin_floorf(a[i]); return a; }
VFI float32x4_t vrndpq_f32(float32x4_t a) { for (int i = 0; i < 4; i++) a[i] = __builtin_ceilf(a[i]); return a; }
VFI float32x4_t vrndq_f32(float32x4_t a) { for (int i = 0; i < 4; i++) a[i] = __builtin_truncf(a[i]); return a; }
VFI int32x4_t vcvtq_s32_f32(float32x4_t a) { int32x4_t r; for (int i = 0; i < 4; i++) r[i] = a[i] != a[i] ? 0 : a[i] >= 2147483648.0f ? INT32_MAX : a[i] < -2147483648.0f ? INT32_MIN : (int32_t)a[i]; return r; }
VFI float32x4_t vcvtq_f32_s32(int32x4_t a) { return (float32x4_t){(float)a[0], (float)a[1], (float)a[2], (float)a[3]}; }
VFI float32x4_t vrsqrteq_f32(float32x4_t a) { for (int i = 0; i < 4; i++) { float q = 1.0f / __builtin_sqrtf(a[i]); uint32_t u; memcpy(&u, &q, 4); u &= 0xffff8000u; memcpy(&q, &u, 4); a[i] = q; } return a; }
VFI float32x4_t vrsqrtsq_f32(float32x4_t a, float32x4_t b) { for (int i = 0; i < 4; i++) a[i] = (3.0f - a[i] * b[i]) / 2; return a; }
#endif
