// Model of the AltiVec intrinsics simd_ppc.h uses (little endian), for running the POWER back end on the host.
#pragma once
#include <climits>
typedef int vh_ppc_int __attribute__((vector_size(16)));
typedef unsigned vh_ppc_uint __attribute__((vector_size(16)));
[[gnu::always_inline]] inline int vh_sat(long long x) { return x > INT_MAX ? INT_MAX : x < INT_MIN ? INT_MIN : int(x); }
// element 3: saturated sum of all elements of a and element 3 of b
[[gnu::always_inline]] inline vh_ppc_int vec_sums(vh_ppc_int a, vh_ppc_int b)
{ return vh_ppc_int{0, 0, 0, vh_sat(0ll + a[0] + a[1] + a[2] + a[3] + b[3])}; }
template <class V> [[gnu::always_inline]] inline auto vec_sum4s(V a, vh_ppc_int b)
{
  constexpr int n = 4 / sizeof(a[0]);
  vh_ppc_int r;
  for (int i = 0; i < 4; ++i)
    {
      long long s = b[i];
      for (int j = 0; j < n; ++j)
	s += a[i * n + j];
      r[i] = vh_sat(s);
    }
  return r;
}
