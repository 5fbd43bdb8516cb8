/* Stand-in for the compiler's <arm_neon.h>: the intrinsics that liblc3 uses and their close relatives, in
 * portable C after Arm's description of them (integer arithmetic wraps). Lets the NEON code run here. */
#ifndef SIMD_ARM_NEON_H
#define SIMD_ARM_NEON_H
#include <stdint.h>
#include <string.h>

typedef struct { int16_t e[4]; } int16x4_t;
typedef struct { int16_t e[8]; } int16x8_t;
typedef struct { int32_t e[2]; } int32x2_t;
typedef struct { int32_t e[4]; } int32x4_t;
typedef struct { int64_t e[2]; } int64x2_t;
typedef struct { float e[2]; } float32x2_t;
typedef struct { float e[4]; } float32x4_t;
typedef struct { int16x4_t val[2]; } int16x4x2_t;
typedef struct { float32x2_t val[2]; } float32x2x2_t;
typedef struct { float32x4_t val[2]; } float32x4x2_t;

#define SIMD_FN static inline __attribute__((unused, always_inline))
#define SIMD_N(v) ((int)(sizeof((v).e) / sizeof((v).e[0])))
#define SIMD_EACH(T, expr) { T r; for (int i = 0; i < SIMD_N(r); i++) r.e[i] = (expr); return r; }
SIMD_FN int32_t simd_add32(int32_t a, int32_t b) { return (int32_t)((uint32_t)a + (uint32_t)b); }
SIMD_FN int32_t simd_sub32(int32_t a, int32_t b) { return (int32_t)((uint32_t)a - (uint32_t)b); }
SIMD_FN int64_t simd_add64(int64_t a, int64_t b) { return (int64_t)((uint64_t)a + (uint64_t)b); }

/* load, store */
SIMD_FN int16x4_t vld1_s16(const int16_t *p) { int16x4_t r; memcpy(&r, p, sizeof(r)); return r; }
SIMD_FN int16x8_t vld1q_s16(const int16_t *p) { int16x8_t r; memcpy(&r, p, sizeof(r)); return r; }
SIMD_FN int32x4_t vld1q_s32(const int32_t *p) { int32x4_t r; memcpy(&r, p, sizeof(r)); return r; }
SIMD_FN void vst1_s16(int16_t *p, int16x4_t v) { memcpy(p, &v, sizeof(v)); }
SIMD_FN void vst1q_s32(int32_t *p, int32x4_t v) { memcpy(p, &v, sizeof(v)); }
SIMD_FN float32x2_t vld1_f32(const float *p) { float32x2_t r; memcpy(&r, p, sizeof(r)); return r; }
SIMD_FN float32x4_t vld1q_f32(const float *p) { float32x4_t r; memcpy(&r, p, sizeof(r)); return r; }
SIMD_FN float32x2_t vld1_dup_f32(const float *p) { float f; memcpy(&f, p, sizeof(f)); return (float32x2_t){ { f, f } }; }
SIMD_FN float32x4_t vld1q_dup_f32(const float *p) { float f; memcpy(&f, p, sizeof(f)); return (float32x4_t){ { f, f, f, f } }; }
SIMD_FN float32x2x2_t vld2_f32(const float *p) { float f[4]; memcpy(f, p, sizeof(f)); return (float32x2x2_t){ { { { f[0], f[2] } }, { { f[1], f[3] } } } }; }
SIMD_FN float32x4x2_t vld2q_f32(const float *p) { float f[8]; memcpy(f, p, sizeof(f)); return (float32x4x2_t){ { { { f[0], f[2], f[4], f[6] } }, { { f[1], f[3], f[5], f[7] } } } }; }
SIMD_FN void vst1_f32(float *p, float32x2_t v) { memcpy(p, &v, sizeof(v)); }
SIMD_FN void vst1q_f32(float *p, float32x4_t v) { memcpy(p, &v, sizeof(v)); }
SIMD_FN void vst2_f32(float *p, float32x2x2_t v) { float f[4]; for (int i = 0; i < 4; i++) f[i] = v.val[i & 1].e[i >> 1]; memcpy(p, f, sizeof(f)); }
SIMD_FN void vst2q_f32(float *p, float32x4x2_t v) { float f[8]; for (int i = 0; i < 8; i++) f[i] = v.val[i & 1].e[i >> 1]; memcpy(p, f, sizeof(f)); }

/* integers */
SIMD_FN int32x4_t vmull_s16(int16x4_t a, int16x4_t b) SIMD_EACH(int32x4_t, (int32_t)a.e[i] * b.e[i])
SIMD_FN int32x4_t vmlal_s16(int32x4_t u, int16x4_t a, int16x4_t b) SIMD_EACH(int32x4_t, simd_add32(u.e[i], (int32_t)a.e[i] * b.e[i]))
SIMD_FN int32x4_t vmlsl_s16(int32x4_t u, int16x4_t a, int16x4_t b) SIMD_EACH(int32x4_t, simd_sub32(u.e[i], (int32_t)a.e[i] * b.e[i]))
SIMD_FN int32x4_t vaddq_s32(int32x4_t a, int32x4_t b) SIMD_EACH(int32x4_t, simd_add32(a.e[i], b.e[i]))
SIMD_FN int64x2_t vaddq_s64(int64x2_t a, int64x2_t b) SIMD_EACH(int64x2_t, simd_add64(a.e[i], b.e[i]))
SIMD_FN int64x2_t vpaddlq_s32(int32x4_t b) SIMD_EACH(int64x2_t, (int64_t)b.e[2*i] + b.e[2*i+1])
SIMD_FN int64x2_t vpadalq_s32(int64x2_t a, int32x4_t b) SIMD_EACH(int64x2_t, simd_add64(a.e[i], (int64_t)b.e[2*i] + b.e[2*i+1]))
SIMD_FN int32_t vaddvq_s32(int32x4_t v) { return simd_add32(simd_add32(v.e[0], v.e[1]), simd_add32(v.e[2], v.e[3])); }
SIMD_FN int64_t vaddlvq_s32(int32x4_t v) { return (int64_t)v.e[0] + v.e[1] + v.e[2] + v.e[3]; }
SIMD_FN int64_t vaddvq_s64(int64x2_t v) { return simd_add64(v.e[0], v.e[1]); }
SIMD_FN int16x4_t vext_s16(int16x4_t a, int16x4_t b, const int n) SIMD_EACH(int16x4_t, i + n < 4 ? a.e[i + n] : b.e[i + n - 4])
SIMD_FN int16x4_t vget_low_s16(int16x8_t a) SIMD_EACH(int16x4_t, a.e[i])
SIMD_FN int16x4_t vget_high_s16(int16x8_t a) SIMD_EACH(int16x4_t, a.e[i + 4])
SIMD_FN int32x4_t vmovq_n_s32(int32_t v) SIMD_EACH(int32x4_t, v)
SIMD_FN int64x2_t vmovq_n_s64(int64_t v) SIMD_EACH(int64x2_t, v)
#define vdupq_n_s32 vmovq_n_s32
#define vdupq_n_s64 vmovq_n_s64

/* floating point */
SIMD_FN float32x2_t vneg_f32(float32x2_t a) SIMD_EACH(float32x2_t, -a.e[i])
SIMD_FN float32x4_t vnegq_f32(float32x4_t a) SIMD_EACH(float32x4_t, -a.e[i])
SIMD_FN float32x2_t vadd_f32(float32x2_t a, float32x2_t b) SIMD_EACH(float32x2_t, a.e[i] + b.e[i])
SIMD_FN float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) SIMD_EACH(float32x4_t, a.e[i] + b.e[i])
SIMD_FN float32x2_t vsub_f32(float32x2_t a, float32x2_t b) SIMD_EACH(float32x2_t, a.e[i] - b.e[i])
SIMD_FN float32x4_t vsubq_f32(float32x4_t a, float32x4_t b) SIMD_EACH(float32x4_t, a.e[i] - b.e[i])
SIMD_FN float32x2_t vmul_f32(float32x2_t a, float32x2_t b) SIMD_EACH(float32x2_t, a.e[i] * b.e[i])
SIMD_FN float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) SIMD_EACH(float32x4_t, a.e[i] * b.e[i])
SIMD_FN float32x4_t vmulq_n_f32(float32x4_t a, float b) SIMD_EACH(float32x4_t, a.e[i] * b)
SIMD_FN float32x2_t vfma_f32(float32x2_t u, float32x2_t a, float32x2_t b) SIMD_EACH(float32x2_t, u.e[i] + a.e[i] * b.e[i])
SIMD_FN float32x4_t vfmaq_f32(float32x4_t u, float32x4_t a, float32x4_t b) SIMD_EACH(float32x4_t, u.e[i] + a.e[i] * b.e[i])
SIMD_FN float32x2_t vfms_f32(float32x2_t u, float32x2_t a, float32x2_t b) SIMD_EACH(float32x2_t, u.e[i] - a.e[i] * b.e[i])
SIMD_FN float32x4_t vfmsq_f32(float32x4_t u, float32x4_t a, float32x4_t b) SIMD_EACH(float32x4_t, u.e[i] - a.e[i] * b.e[i])
#define vmla_f32 vfma_f32
#define vmlaq_f32 vfmaq_f32
#define vmls_f32 vfms_f32
#define vmlsq_f32 vfmsq_f32
SIMD_FN float vaddvq_f32(float32x4_t v) { return (v.e[0] + v.e[1]) + (v.e[2] + v.e[3]); }

/* shuffles */
SIMD_FN float32x2_t vcreate_f32(uint64_t u) { float32x2_t r; memcpy(&r, &u, sizeof(r)); return r; }
SIMD_FN float32x4_t vcombine_f32(float32x2_t a, float32x2_t b) { return (float32x4_t){ { a.e[0], a.e[1], b.e[0], b.e[1] } }; }
SIMD_FN float32x2_t vget_low_f32(float32x4_t a) { return (float32x2_t){ { a.e[0], a.e[1] } }; }
SIMD_FN float32x2_t vget_high_f32(float32x4_t a) { return (float32x2_t){ { a.e[2], a.e[3] } }; }
SIMD_FN float32x2_t vmov_n_f32(float v) SIMD_EACH(float32x2_t, v)
SIMD_FN float32x4_t vmovq_n_f32(float v) SIMD_EACH(float32x4_t, v)
#define vdup_n_f32 vmov_n_f32
#define vdupq_n_f32 vmovq_n_f32
SIMD_FN float32x2_t vrev64_f32(float32x2_t v) SIMD_EACH(float32x2_t, v.e[i ^ 1])
SIMD_FN float32x4_t vrev64q_f32(float32x4_t v) SIMD_EACH(float32x4_t, v.e[i ^ 1])
SIMD_FN float32x4_t vextq_f32(float32x4_t a, float32x4_t b, const int n) SIMD_EACH(float32x4_t, i + n < 4 ? a.e[i + n] : b.e[i + n - 4])
SIMD_FN float32x2_t vtrn1_f32(float32x2_t a, float32x2_t b) SIMD_EACH(float32x2_t, i & 1 ? b.e[i - 1] : a.e[i])
SIMD_FN float32x2_t vtrn2_f32(float32x2_t a, float32x2_t b) SIMD_EACH(float32x2_t, i & 1 ? b.e[i] : a.e[i + 1])
SIMD_FN float32x4_t vtrn1q_f32(float32x4_t a, float32x4_t b) SIMD_EACH(float32x4_t, i & 1 ? b.e[i - 1] : a.e[i])
SIMD_FN float32x4_t vtrn2q_f32(float32x4_t a, float32x4_t b) SIMD_EACH(float32x4_t, i & 1 ? b.e[i] : a.e[i + 1])
SIMD_FN float32x4_t vzip1q_f32(float32x4_t a, float32x4_t b) SIMD_EACH(float32x4_t, i & 1 ? b.e[i >> 1] : a.e[i >> 1])
SIMD_FN float32x4_t vzip2q_f32(float32x4_t a, float32x4_t b) SIMD_EACH(float32x4_t, i & 1 ? b.e[2 + (i >> 1)] : a.e[2 + (i >> 1)])
SIMD_FN float32x4_t vuzp1q_f32(float32x4_t a, float32x4_t b) SIMD_EACH(float32x4_t, i < 2 ? a.e[2*i] : b.e[2*i - 4])
SIMD_FN float32x4_t vuzp2q_f32(float32x4_t a, float32x4_t b) SIMD_EACH(float32x4_t, i < 2 ? a.e[2*i + 1] : b.e[2*i - 3])
SIMD_FN float32x2_t vzip1_f32(float32x2_t a, float32x2_t b) { return (float32x2_t){ { a.e[0], b.e[0] } }; }
SIMD_FN float32x2_t vzip2_f32(float32x2_t a, float32x2_t b) { return (float32x2_t){ { a.e[1], b.e[1] } }; }
#endif
