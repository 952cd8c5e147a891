// Drivers for reductions.
#pragma once
#include "vhcore.h"
#include "drv.h"
namespace vh
{
enum Fold { PLUS, TIMES, AND, OR, XOR, MIN, MAX };
template <class T> T fold(Fold f, T a, T b)
{
  using U = std::conditional_t<std::is_integral_v<T>, unsigned long long, T>;
  switch (f)
    {
    case PLUS: return T(U(a) + U(b));
    case TIMES: return T(U(a) * U(b));
    case MIN: return b < a ? b : a;
    case MAX: return a < b ? b : a;
    default:
      if constexpr (std::is_integral_v<T>)
	return f == AND ? T(a & b) : f == OR ? T(a | b) : T(a ^ b);
      else
	return a;
    }
}
template <class T> using RD = T (*)(const T*);
template <class T> using MRD = T (*)(const bool*, const T*);
// T is reduced to one value
template <class T> void reduce_check(const char* name, int N, Fold f, RD<T> op);
// selected elements only; none: the result if no element is selected
template <class T> void masked_reduce_check(const char* name, int N, Fold f, T none, MRD<T> op);
template <class T> using K3 = void (*)(const T*, const T*, const T*, T*);
template <class T> void clamp_check(const char* name, int N, K3<T> op);
template <class T> void reduce_const(const char* name, int N, Fold f, int seed, T got);
#define VH_X(T)                                                                                    \
  extern template void reduce_check<T>(const char*, int, Fold, RD<T>);                             \
  extern template void masked_reduce_check<T>(const char*, int, Fold, T, MRD<T>);                  \
  extern template void clamp_check<T>(const char*, int, K3<T>);                                    \
  extern template void reduce_const<T>(const char*, int, Fold, int, T);
VH_ALL_TYPES(VH_X)
#undef VH_X
} // namespace vh
