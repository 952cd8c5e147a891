// Drivers for where-expressions.
#pragma once
#include "drv.h"
namespace vh
{
// op(mask, a, b, out): a is the masked object, b the right-hand side (every lane the same if scalar)
template <class T> using KW = void (*)(const bool*, const T*, const T*, T*);
template <class T> void where_op(const char* name, int N, KW<T> op, R2<T> ref, P2<T> valid, bool scalar);
template <class T>
void where_const_check(const char* name, const char* how, int seed, int N, const bool* k, const T* a, const T* b,
		       const T* out, R2<T> ref);
#define VH_X(T)                                                                                    \
  extern template void where_op<T>(const char*, int, KW<T>, R2<T>, P2<T>, bool);                   \
  extern template void where_const_check<T>(const char*, const char*, int, int, const bool*,       \
					    const T*, const T*, const T*, R2<T>);
VH_ALL_TYPES(VH_X)
#undef VH_X
using KWM = void (*)(const bool*, const bool*, const bool*, bool*);
void where_mask(const char* name, const char* T, int N, KWM op, bool (*ref)(bool k, bool a, bool b));
} // namespace vh
