// Exhaustive drivers: independent of the ABI (they see kernels as function pointers on plain arrays).
#pragma once
#include "vhcore.h"
namespace vh
{
// Drivers are instantiated once per element type; only the kernels depend on the ABI.
template <class T> using K2 = void (*)(const T*, const T*, T*);
template <class T> using K1 = void (*)(const T*, T*);
template <class T> using R2 = T (*)(T, T);
template <class T> using R1 = T (*)(T);
template <class T> using P2 = bool (*)(T, T);
template <class T> using P1 = bool (*)(T);

template <class T> struct Tabs
{
  T a[64], b[64], c[64];
  Tabs(int s, bool nz, int N)
  {
    for (int i = 0; i < N; ++i)
      {
	a[i] = ctab<T>::val(s, i);
	b[i] = nz ? ctab<T>::nonzero(s + 1, i) : ctab<T>::val(s + 1, i);
	c[i] = nz ? ctab<T>::nonzero(s + 1, 0) : ctab<T>::val(s + 1, 0);
      }
  }
};

template <class T> void binary(const char* name, int N, K2<T> op, R2<T> ref, P2<T> valid);
template <class T> void unary(const char* name, int N, K1<T> op, R1<T> ref, P1<T> valid);
template <class T>
void const_check(const char* name, const char* how, int seed, int N, const T* a, const T* b,
		 const T* out, R2<T> ref);
template <class T> using KM = void (*)(const T*, const T*, bool*);
template <class T> using KS = void (*)(const T*, int, T*);
template <class T> using RM = bool (*)(T, T);
template <class T> using RS = T (*)(T, int);
// comparisons: T x T -> bool per lane
template <class T> void compare(const char* name, int N, KM<T> op, RM<T> ref);
// one scalar count for the whole vector; lo <= count < hi
template <class T> void scalar_count(const char* name, int N, KS<T> op, RS<T> ref, int lo, int hi);
// value and count vary per lane
template <class T> void vector_count(const char* name, int N, K2<T> op, RS<T> ref, int lo, int hi);
#define VH_X(T)                                                                                    \
  extern template void compare<T>(const char*, int, KM<T>, RM<T>);                                 \
  extern template void scalar_count<T>(const char*, int, KS<T>, RS<T>, int, int);                  \
  extern template void vector_count<T>(const char*, int, K2<T>, RS<T>, int, int);                  \
  extern template void binary<T>(const char*, int, K2<T>, R2<T>, P2<T>);                           \
  extern template void unary<T>(const char*, int, K1<T>, R1<T>, P1<T>);                            \
  extern template void const_check<T>(const char*, const char*, int, int, const T*, const T*, const T*, R2<T>);
VH_ALL_TYPES(VH_X)
#undef VH_X
} // namespace vh
