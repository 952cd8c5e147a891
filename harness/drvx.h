// Drivers for floating-point functions.
#pragma once
#include "vhcore.h"
#include "drv.h"
namespace vh
{
enum FFlags
{
  F_MODES = 1, // also in the other three rounding modes
  F_NOEXC = 2, // must not raise a floating-point exception
  F_FULL = 4,  // thorough tier: all 2^32 values for float (homogeneous blocks)
  F_FEW = 8    // expensive function: alphabet only
};
template <class T, class R> using X1 = void (*)(const T*, R*);
template <class T, class R> using S1 = R (*)(T);
template <class T, class R> using X2 = void (*)(const T*, const T*, R*);
template <class T, class R> using S2 = R (*)(T, T);
template <class T> using X3 = void (*)(const T*, const T*, const T*, T*);
template <class T> using S3 = T (*)(T, T, T);
template <class T, class I> using XI = void (*)(const T*, const I*, T*);
template <class T, class I> using SI = T (*)(T, I);
template <class T, class R> void funary(const char* name, int N, X1<T, R> op, S1<T, R> ref, P1<T> valid, int flags = 0);
template <class T, class R> void fbinary(const char* name, int N, X2<T, R> op, S2<T, R> ref, P2<T> valid, int flags = 0);
template <class T> void fternary(const char* name, int N, X3<T> op, S3<T> ref);
template <class T, class I> void fint(const char* name, int N, XI<T, I> op, SI<T, I> ref);
// within ulps units in the last place of the reference (special values exactly); the reference is computed in long double
// rel: additional absolute error per |x|; pi: also the neighbours of multiples of pi / 4
template <class T> void near1(const char* name, int N, X1<T, T> op, S1<ldouble, ldouble> ref, P1<T> valid, int ulps, ldouble rel = 0, bool pi = false);
// bcast: bit mask of the operands that are the same value for all lanes
template <class T> void near2(const char* name, int N, X2<T, T> op, S2<ldouble, ldouble> ref, P2<T> valid, int ulps, int bcast = 0);
template <class T> void near3(const char* name, int N, X3<T> op, S3<ldouble> ref, int ulps, int bcast = 0);
// a list of operands given by the caller
template <class T> void near_list(const char* name, int N, const std::vector<std::array<T, 3>>& list, X3<T> op, S3<ldouble> ref, ldouble ulps, ldouble abserr);
// the functions of the C library itself (g++ expands rint inline in a way that is wrong outside of the default rounding mode)
template <class T> T libm_rint(T);
template <class T> T libm_nearbyint(T);
template <class T> long libm_lrint(T);
template <class T> llong libm_llrint(T);
template <> float libm_rint(float);
template <> double libm_rint(double);
template <> ldouble libm_rint(ldouble);
template <> float libm_nearbyint(float);
template <> double libm_nearbyint(double);
template <> ldouble libm_nearbyint(ldouble);
template <> long libm_lrint(float);
template <> long libm_lrint(double);
template <> long libm_lrint(ldouble);
template <> llong libm_llrint(float);
template <> llong libm_llrint(double);
template <> llong libm_llrint(ldouble);
#define VH_F(T)                                                                                    \
  VH_FR(T, T) VH_FR(T, bool) VH_FR(T, int) VH_FR(T, long) VH_FR(T, llong)                          \
  VH_FE template void fternary<T>(const char*, int, X3<T>, S3<T>);                                 \
  VH_FE template void fint<T, int>(const char*, int, XI<T, int>, SI<T, int>);                      \
  VH_FE template void fint<T, long>(const char*, int, XI<T, long>, SI<T, long>);                   \
  VH_FE template void fint<T, uint>(const char*, int, XI<T, uint>, SI<T, uint>);                   \
  VH_FE template void near1<T>(const char*, int, X1<T, T>, S1<ldouble, ldouble>, P1<T>, int, ldouble, bool); \
  VH_FE template void near2<T>(const char*, int, X2<T, T>, S2<ldouble, ldouble>, P2<T>, int, int); \
  VH_FE template void near3<T>(const char*, int, X3<T>, S3<ldouble>, int, int);      \
  VH_FE template void near_list<T>(const char*, int, const std::vector<std::array<T, 3>>&, X3<T>, S3<ldouble>, ldouble, ldouble);
#define VH_FR(T, R)                                                                                \
  VH_FE template void funary<T, R>(const char*, int, X1<T, R>, S1<T, R>, P1<T>, int);              \
  VH_FE template void fbinary<T, R>(const char*, int, X2<T, R>, S2<T, R>, P2<T>, int);
#define VH_FE extern
VH_F(float) VH_F(double) VH_F(ldouble)
#undef VH_FE
} // namespace vh
