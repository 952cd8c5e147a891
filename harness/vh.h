// Common harness, part 2: access to the library under test (precompiled once per instruction set).
#pragma once
#include "vhcore.h"
#include "drv.h"
#include "vhtarget.h"
#include <experimental/simd>
#undef __vector

namespace stdx = std::experimental;
namespace vh
{
#ifdef VH_PORT
inline const bool no_trap = (division_traps = false, true);
#endif
// ---------------------------------------------------------------- ABI selection
// A code names a way of choosing an ABI for an element type; void = not available for T.
template <class T, int N> struct deduce_or_void
{
  template <int M> static auto f(int) -> stdx::simd_abi::deduce_t<T, M>;
  template <int M> static void f(...);
  static auto g()
  {
    if constexpr (N >= 1)
      return tag<decltype(f<N>(0))>();
    else
      return tag<void>();
  }
  using type = typename decltype(g())::type;
};
template <class T, int C> constexpr auto abi_of_impl()
{
  namespace sa = stdx::simd_abi;
  constexpr int S = sizeof(T);
  if constexpr (C == 0)
    return tag<sa::scalar>();
  else if constexpr (C == 1)
    return tag<sa::native<T>>();
  else if constexpr (C == 2)
    return tag<sa::compatible<T>>();
  else if constexpr (C > 100 && C < 200)
    {
      if constexpr (C - 100 <= sa::max_fixed_size<T>)
	return tag<sa::fixed_size<C - 100>>();
      else
	return tag<void>();
    }
  else if constexpr (C > 200 && C < 300)
    {
      if constexpr (std::is_same_v<T, ldouble>)
	return tag<void>();
      else
	return tag<typename deduce_or_void<T, C - 200>::type>();
    }
  else if constexpr (C >= 300 && C < 320)
    {
      // 300/301/302: a whole 16/32/8 byte register; 310/311/312: one element less than 16/32/64
      // byte; 313: one element more than half of the native register
      constexpr int n = C == 300   ? 16 / S
			: C == 301 ? 32 / S
			: C == 302 ? 8 / S
			: C == 310 ? 16 / S - 1
			: C == 311 ? 32 / S - 1
			: C == 312 ? 64 / S - 1
			: C == 313 ? 16 / S / 2 + 1
			: C == 314 ? 32 / S / 2 + 1
			: C == 315 ? 64 / S / 2 + 1
				   : 0;
      if constexpr (std::is_same_v<T, ldouble> || n < 1)
	return tag<void>();
      else
	return tag<typename deduce_or_void<T, n>::type>();
    }
  else if constexpr (C > 400 && C < 500)
    {
      using A = sa::_VecBuiltin<C - 400>;
      if constexpr ((C - 400) % S != 0 || (C - 400) / S < 2 || std::is_same_v<T, ldouble>)
	return tag<void>();
      else if constexpr (std::is_default_constructible_v<stdx::simd<T, A>>)
	return tag<A>();
      else
	return tag<void>();
    }
  else
    return tag<void>();
}
template <class T, int C> using abi_of = typename decltype(abi_of_impl<T, C>())::type;

template <class V, int Seed> [[gnu::always_inline]] inline V cvec()
{
  using T = typename V::value_type;
  return V([](auto i) constexpr { return ctab<T>::val(Seed, int(i)); });
}
template <class V, int Seed> [[gnu::always_inline]] inline V cvec_nz()
{
  using T = typename V::value_type;
  return V([](auto i) constexpr { return ctab<T>::nonzero(Seed, int(i)); });
}

template <class V> std::array<typename V::value_type, V::size()> lanes(const V& v)
{
  std::array<typename V::value_type, V::size()> r;
  v.copy_to(r.data(), stdx::element_aligned);
  return r;
}
template <class M> std::array<bool, M::size()> mlanes(const M& v)
{
  std::array<bool, M::size()> r;
  v.copy_to(r.data(), stdx::element_aligned);
  return r;
}
// With VH_DIRTY the elements that a partially filled register has beyond the last one hold what an earlier operation
// left there (1: all bits set, NaN; 2: the smallest integer, infinity), and so do those of masks.
#ifdef VH_DIRTY
template <class V> [[gnu::noinline]] V make_dirt()
{
  using T = typename V::value_type;
  T mem[2][V::size()];
  for (std::size_t i = 0; i < V::size(); ++i)
    if constexpr (std::is_same_v<T, bool> || std::is_integral_v<T>)
      mem[0][i] = T(-1), mem[1][i] = T(T(1) << (std::is_same_v<T, bool> ? 0 : sizeof(T) * 8 - 1));
    else
      mem[0][i] = 0, mem[1][i] = 1;
  asm volatile("" : : "r"(mem) : "memory");
  const V one(mem[1], stdx::element_aligned);
  const V all(mem[0], stdx::element_aligned);
  if constexpr (std::is_same_v<T, bool>)
    {
      using S = typename V::simd_type; // a comparison of equal vectors
      typename S::value_type x[V::size()] = {};
      asm volatile("" : : "r"(x) : "memory");
      const S a(x, stdx::element_aligned), b(x, stdx::element_aligned);
      return (VH_DIRTY == 1 ? a == b : V(true)) ^ all;
    }
  else if constexpr (std::is_integral_v<T>)
    return VH_DIRTY == 1 ? ~V(0) ^ all : V(T(T(1) << (sizeof(T) * 8 - 1))) ^ one;
  else
    return VH_DIRTY == 1 ? all / one : V(T(1)) / one - V(T(1)); // 0/0 resp. 1/0 beyond the last element
}
template <class V> V dirt = make_dirt<V>();
template <class M> [[gnu::noinline]] M make_true()
{
  bool mem[M::size()];
  for (bool& b : mem)
    b = true;
  asm volatile("" : : "r"(mem) : "memory");
  return M(mem, stdx::element_aligned);
}
template <class M> M all_true = make_true<M>(); // nothing is set beyond the last element
template <class V> [[gnu::always_inline]] inline void soil(V& v)
{
  if constexpr (std::is_floating_point_v<typename V::value_type>)
    {
      V r = dirt<V>;
      stdx::where(all_true<typename V::mask_type>, r) = v;
      v = r;
    }
  else
    v = v ^ dirt<V>;
}
#else
template <class V> [[gnu::always_inline]] inline void soil(V&) {}
#endif
template <class V> V load(const typename V::value_type* p)
{
  V v;
  v.copy_from(p, stdx::element_aligned);
  soil(v);
  return v;
}
template <class M> M loadm(const bool* p)
{
  M v;
  v.copy_from(p, stdx::element_aligned);
  soil(v);
  return v;
}
} // namespace vh
