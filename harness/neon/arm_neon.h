// Model of the ARM NEON intrinsics simd_neon.h uses, for running the NEON back end on the host (see DESIGN.md).
// Semantics from the Arm ARM: vpadd adds adjacent pairs of the concatenation, vaddv adds across, vrnd* as named.
#pragma once
#include <cmath>
#include <cstdint>
#define VH_V(T, B, N, n) typedef T n __attribute__((vector_size(B)));
VH_V(std::int8_t, 8, 8, int8x8_t) VH_V(std::int8_t, 16, 16, int8x16_t)
VH_V(std::uint8_t, 8, 8, uint8x8_t) VH_V(std::uint8_t, 16, 16, uint8x16_t)
VH_V(std::int16_t, 8, 4, int16x4_t) VH_V(std::int16_t, 16, 8, int16x8_t)
VH_V(std::uint16_t, 8, 4, uint16x4_t) VH_V(std::uint16_t, 16, 8, uint16x8_t)
VH_V(std::int32_t, 8, 2, int32x2_t) VH_V(std::int32_t, 16, 4, int32x4_t)
VH_V(std::uint32_t, 8, 2, uint32x2_t) VH_V(std::uint32_t, 16, 4, uint32x4_t)
VH_V(std::int64_t, 8, 1, int64x1_t) VH_V(std::int64_t, 16, 2, int64x2_t)
VH_V(std::uint64_t, 8, 1, uint64x1_t) VH_V(std::uint64_t, 16, 2, uint64x2_t)
VH_V(float, 8, 2, float32x2_t) VH_V(float, 16, 4, float32x4_t)
VH_V(double, 8, 1, float64x1_t) VH_V(double, 16, 2, float64x2_t)
#undef VH_V
#define VH_I [[gnu::always_inline]] inline
#define VH_PADD(name, V, N)                                                                        \
  VH_I V name(V a, V b)                                                                            \
  {                                                                                                \
    V r;                                                                                           \
    for (int i = 0; i < N / 2; ++i)                                                                \
      {                                                                                            \
	r[i] = a[2 * i] + a[2 * i + 1];                                                            \
	r[N / 2 + i] = b[2 * i] + b[2 * i + 1];                                                    \
      }                                                                                            \
    return r;                                                                                      \
  }
VH_PADD(vpadd_s8, int8x8_t, 8)
VH_PADD(vpadd_s16, int16x4_t, 4)
VH_PADD(vpadd_s32, int32x2_t, 2)
#ifdef __aarch64__
VH_PADD(vpaddq_s8, int8x16_t, 16)
#define VH_ADDV(name, V, T, N)                                                                     \
  VH_I T name(V a)                                                                                 \
  {                                                                                                \
    T r = 0;                                                                                       \
    for (int i = 0; i < N; ++i)                                                                    \
      r = T(r + a[i]);                                                                             \
    return r;                                                                                      \
  }
VH_ADDV(vaddv_s8, int8x8_t, std::int8_t, 8)
VH_ADDV(vaddv_s16, int16x4_t, std::int16_t, 4)
VH_ADDV(vaddv_s32, int32x2_t, std::int32_t, 2)
VH_ADDV(vaddvq_s16, int16x8_t, std::int16_t, 8)
VH_ADDV(vaddvq_s32, int32x4_t, std::int32_t, 4)
#endif
#define VH_FN(name, V, N, f)                                                                       \
  VH_I V name(V a)                                                                                 \
  {                                                                                                \
    V r;                                                                                           \
    for (int i = 0; i < N; ++i)                                                                    \
      r[i] = f(a[i]);                                                                              \
    return r;                                                                                      \
  }
#define VH_FNS(base, f)                                                                            \
  VH_FN(base##_f32, float32x2_t, 2, f)                                                             \
  VH_FN(base##q_f32, float32x4_t, 4, f)                                                            \
  VH_FN(base##_f64, float64x1_t, 1, f)                                                             \
  VH_FN(base##q_f64, float64x2_t, 2, f)
VH_FNS(vsqrt, std::sqrt)
VH_FNS(vrnd, std::trunc)
VH_FNS(vrnda, std::round)
VH_FNS(vrndm, std::floor)
VH_FNS(vrndp, std::ceil)
VH_I std::int32_t vh_cvt(float x) // saturating, NaN to 0
{ return x != x ? 0 : x >= 0x1p31f ? 0x7fffffff : x < -0x1p31f ? -0x7fffffff - 1 : std::int32_t(x); }
VH_I int32x4_t vcvtq_s32_f32(float32x4_t a) { return int32x4_t{vh_cvt(a[0]), vh_cvt(a[1]), vh_cvt(a[2]), vh_cvt(a[3])}; }
VH_I int32x2_t vcvt_s32_f32(float32x2_t a) { return int32x2_t{vh_cvt(a[0]), vh_cvt(a[1])}; }
VH_I float32x4_t vcvtq_f32_s32(int32x4_t a) { return float32x4_t{float(a[0]), float(a[1]), float(a[2]), float(a[3])}; }
VH_I float32x2_t vcvt_f32_s32(int32x2_t a) { return float32x2_t{float(a[0]), float(a[1])}; }
#undef VH_FN
#undef VH_FNS
#undef VH_PADD
