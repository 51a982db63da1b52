/* Lane-exact stand-in for the WebAssembly SIMD intrinsics cglm uses. */
#ifndef VF_WASM_H
#define VF_WASM_H
#include <stdint.h>
#include <string.h>
typedef int32_t v128_t __attribute__((vector_size(16)));
typedef float vf_f32x4 __attribute__((vector_size(16)));
#define VFI static inline __attribute__((always_inline, unused))
VFI vf_f32x4 vf_f(v128_t a) { vf_f32x4 r; memcpy(&r, &a, 16); return r; }
VFI v128_t vf_v(vf_f32x4 a) { v128_t r; memcpy(&r, &a, 16); return r; }
VFI v128_t wasm_v128_load(const void *p) { v128_t r; memcpy(&r, p, 16); return r; }
VFI void wasm_v128_store(void *p, v128_t a) { memcpy(p, &a, 16); }
VFI v128_t wasm_v128_load32_zero(const void *p) { v128_t r = {0, 0, 0, 0}; memcpy(&r, p, 4); return r; }
VFI v128_t wasm_v128_load64_zero(const void *p) { v128_t r = {0, 0, 0, 0}; memcpy(&r, p, 8); return r; }
VFI v128_t wasm_v128_load32_splat(const void *p) { int32_t x; memcpy(&x, p, 4); return (v128_t){x, x, x, x}; }
VFI void vf_st32(void *p, v128_t a, int l) { int32_t x = a[l]; memcpy(p, &x, 4); }
VFI void vf_st64(void *p, v128_t a, int l) { memcpy(p, (char *)&a + 8 * l, 8); }
#define wasm_v128_store32_lane(p, a, l) vf_st32(p, a, l)
#define wasm_v128_store64_lane(p, a, l) vf_st64(p, a, l)
VFI v128_t wasm_f32x4_splat(float x) { return vf_v((vf_f32x4){x, x, x, x}); }
#define wasm_f32x4_const_splat(x) wasm_f32x4_splat(x)
VFI v128_t vf_make(float a, float b, float c, float d) { return vf_v((vf_f32x4){a, b, c, d}); }
#define wasm_f32x4_const(a, b, c, d) vf_make(a, b, c, d)
#define wasm_f32x4_make(a, b, c, d) vf_make(a, b, c, d)
#define wasm_i32x4_const(a, b, c, d) ((v128_t){(int32_t)(a), (int32_t)(b), (int32_t)(c), (int32_t)(d)})
#define wasm_i32x4_const_splat(a) wasm_i32x4_const(a, a, a, a)
VFI v128_t wasm_i32x4_splat(int32_t x) { return (v128_t){x, x, x, x}; }
VFI float vf_el(v128_t a, int l) { return vf_f(a)[l]; }
#define wasm_f32x4_extract_lane(a, l) vf_el(a, l)
VFI v128_t vf_rep(v128_t a, int l, float x) { vf_f32x4 t = vf_f(a); t[l] = x; return vf_v(t); }
#define wasm_f32x4_replace_lane(a, l, x) vf_rep(a, l, x)
VFI int32_t vf_pick(v128_t a, v128_t b, int i) { return i < 4 ? a[i] : b[i - 4]; }
VFI v128_t vf_shuf(v128_t a, v128_t b, int w, int x, int y, int z) { return (v128_t){vf_pick(a, b, w), vf_pick(a, b, x), vf_pick(a, b, y), vf_pick(a, b, z)}; }
#define wasm_i32x4_shuffle(a, b, w, x, y, z) vf_shuf(a, b, w, x, y, z)
VFI v128_t wasm_f32x4_add(v128_t a, v128_t b) { return vf_v(vf_f(a) + vf_f(b)); }
VFI v128_t wasm_f32x4_sub(v128_t a, v128_t b) { return vf_v(vf_f(a) - vf_f(b)); }
VFI v128_t wasm_f32x4_mul(v128_t a, v128_t b) { return vf_v(vf_f(a) * vf_f(b)); }
VFI v128_t wasm_f32x4_div(v128_t a, v128_t b) { return vf_v(vf_f(a) / vf_f(b)); }
VFI v128_t wasm_f32x4_neg(v128_t a) { return a ^ wasm_i32x4_const_splat(0x80000000); }
VFI v128_t wasm_f32x4_abs(v128_t a) { return a & wasm_i32x4_const_splat(0x7fffffff); }
VFI v128_t wasm_f32x4_sqrt(v128_t a) { vf_f32x4 t = vf_f(a); for (int i = 0; i < 4; i++) t[i] = __builtin_sqrtf(t[i]); return vf_v(t); }
VFI v128_t wasm_f32x4_pmin(v128_t a, v128_t b) { vf_f32x4 x = vf_f(a), y = vf_f(b); for (int i = 0; i < 4; i++) x[i] = y[i] < x[i] ? y[i] : x[i]; return vf_v(x); }
VFI v128_t wasm_f32x4_pmax(v128_t a, v128_t b) { vf_f32x4 x = vf_f(a), y = vf_f(b); for (int i = 0; i < 4; i++) x[i] = x[i] < y[i] ? y[i] : x[i]; return vf_v(x); }
VFI v128_t wasm_f32x4_min(v128_t a, v128_t b) { return wasm_f32x4_pmin(a, b); }
VFI v128_t wasm_f32x4_max(v128_t a, v128_t b) { return wasm_f32x4_pmax(a, b); }
VFI v128_t wasm_v128_xor(v128_t a, v128_t b) { return a ^ b; }
VFI v128_t wasm_v128_and(v128_t a, v128_t b) { return a & b; }
VFI v128_t wasm_v128_or(v128_t a, v128_t b) { return a | b; }
/* further intrinsics, so that rewritten code still compiles here */
#define wasm_u32x4_const wasm_i32x4_const
#define wasm_u32x4_const_splat wasm_i32x4_const_splat
#define wasm_u32x4_splat(x) wasm_i32x4_splat((int32_t)(x))
#define wasm_i32x4_make(a, b, c, d) wasm_i32x4_const(a, b, c, d)
#define wasm_i32x4_extract_lane(a, l) ((a)[l])
VFI v128_t vf_irep(v128_t a, int l, int32_t x) { a[l] = x; return a; }
#define wasm_i32x4_replace_lane(a, l, x) vf_irep(a, l, x)
VFI v128_t vf_ld32(const void *p, v128_t a, int l) { int32_t x; memcpy(&x, p, 4); a[l] = x; return a; }
VFI v128_t vf_ld64(const void *p, v128_t a, int l) { memcpy((char *)&a + 8 * l, p, 8); return a; }
#define wasm_v128_load32_lane(p, a, l) vf_ld32(p, a, l)
#define wasm_v128_load64_lane(p, a, l) vf_ld64(p, a, l)
VFI v128_t wasm_v128_load64_splat(const void *p) { v128_t r = {0, 0, 0, 0}; r = vf_ld64(p, r, 0); return vf_ld64(p, r, 1); }
VFI v128_t vf_shuf64(v128_t a, v128_t b, int x, int y) { return vf_shuf(a, b, 2 * x, 2 * x + 1, 2 * y, 2 * y + 1); }
#define wasm_i64x2_shuffle(a, b, x, y) vf_shuf64(a, b, x, y)
VFI v128_t wasm_v128_not(v128_t a) { return ~a; }
VFI v128_t wasm_v128_andnot(v128_t a, v128_t b) { return a & ~b; }
VFI v128_t wasm_v128_bitselect(v128_t a, v128_t b, v128_t m) { return (a & m) | (b & ~m); }
VFI int wasm_v128_any_true(v128_t a) { return (a[0] | a[1] | a[2] | a[3]) != 0; }
VFI int wasm_i32x4_all_true(v128_t a) { return a[0] && a[1] && a[2] && a[3]; }
VFI uint32_t wasm_i32x4_bitmask(v128_t a) { return (uint32_t)((a[0] < 0) | (a[1] < 0) << 1 | (a[2] < 0) << 2 | (a[3] < 0) << 3); }
VFI v128_t wasm_f32x4_eq(v128_t a, v128_t b) { return vf_f(a) == vf_f(b); }
VFI v128_t wasm_f32x4_ne(v128_t a, v128_t b) { return vf_f(a) != vf_f(b); }
VFI v128_t wasm_f32x4_lt(v128_t a, v128_t b) { return vf_f(a) < vf_f(b); }
VFI v128_t wasm_f32x4_gt(v128_t a, v128_t b) { return vf_f(a) > vf_f(b); }
VFI v128_t wasm_f32x4_le(v128_t a, v128_t b) { return vf_f(a) <= vf_f(b); }
VFI v128_t wasm_f32x4_ge(v128_t a, v128_t b) { return vf_f(a) >= vf_f(b); }
VFI v128_t wasm_f32x4_floor(v128_t a) { vf_f32x4 t = vf_f(a); for (int i = 0; i < 4; i++) t[i] = __builtin_floorf(t[i]); return vf_v(t); }
VFI v128_t wasm_f32x4_ceil(v128_t a) { vf_f32x4 t = vf_f(a); for (int i = 0; i < 4; i++) t[i] = __builtin_ceilf(t[i]); return vf_v(t); }
VFI v128_t wasm_f32x4_trunc(v128_t a) { vf_f32x4 t = vf_f(a); for (int i = 0; i < 4; i++) t[i] = __builtin_truncf(t[i]); return vf_v(t); }
VFI v128_t wasm_f32x4_nearest(v128_t a) { vf_f32x4 t = vf_f(a); for (int i = 0; i < 4; i++) t[i] = __builtin_rintf(t[i]); return vf_v(t); }
VFI v128_t wasm_f32x4_convert_i32x4(v128_t a) { return vf_make((float)a[0], (float)a[1], (float)a[2], (float)a[3]); }
VFI v128_t wasm_i32x4_add(v128_t a, v128_t b) { return (v128_t){(int32_t)((uint32_t)a[0] + (uint32_t)b[0]), (int32_t)((uint32_t)a[1] + (uint32_t)b[1]), (int32_t)((uint32_t)a[2] + (uint32_t)b[2]), (int32_t)((uint32_t)a[3] + (uint32_t)b[3])}; }
VFI v128_t wasm_i32x4_eq(v128_t a, v128_t b) { return a == b; }
#endif
