// Selects the back end the library is compiled for. All system headers come first, then the predefined macros
// of the host are replaced by those of the target; its intrinsics are modelled by neon/arm_neon.h and ppc/altivec.h.
#pragma once
#if defined VH_NEON64 || defined VH_NEON32 || defined VH_NEON7 || defined VH_VSX || defined VH_NOSIMD
#include <array>
#include <bit>
#include <bitset>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iomanip>
#include <iosfwd>
#include <type_traits>
#include <utility>
#define VH_PORT 1
#undef __MMX__
#undef __SSE__
#undef __SSE2__
#undef __SSE3__
#undef __x86_64__
#undef __FMA__
#if defined VH_NEON64
#define __ARM_NEON 1
#define __aarch64__ 1
#define __ARM_ARCH 8
#elif defined VH_NEON32
#define __ARM_NEON 1
#define __ARM_ARCH 8
#elif defined VH_NEON7
#define __ARM_NEON 1
#define __ARM_ARCH 7
#elif defined VH_VSX
#define __ALTIVEC__ 1
#define __VSX__ 1
#define __POWER8_VECTOR__ 1
#define __vector __attribute__((vector_size(16)))
#endif
#endif
