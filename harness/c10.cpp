// C10: reductions, min, max, minmax, clamp.
#include "vhcfg.h"
#include "drvr.h"
using namespace vh;
#define EA stdx::element_aligned
struct uminus_xor
{ // a user-defined operation: associative and commutative, but unlike any that the library knows
  template <class X> X operator()(const X& a, const X& b) const { return a ^ b; }
};
template <class T> void run()
{
  using A = abi_of<T, VH_ABI>;
  if constexpr (!std::is_void_v<A>)
    {
      using V = stdx::simd<T, A>;
      using M = typename V::mask_type;
      constexpr int N = V::size();
      constexpr bool I = std::is_integral_v<T>;
      using L = std::numeric_limits<T>;
#if !VH_CONST
      reduce_check<T>("reduce(v)", N, PLUS, [](const T* p) -> T { return reduce(load<V>(p)); });
      reduce_check<T>("reduce(v, multiplies)", N, TIMES, [](const T* p) -> T { return reduce(load<V>(p), std::multiplies<>()); });
      reduce_check<T>("reduce(v, lambda +)", N, PLUS, [](const T* p) -> T { return reduce(load<V>(p), [](const auto& a, const auto& b) { return a + b; }); });
      reduce_check<T>("reduce(v, lambda max)", N, MAX, [](const T* p) -> T { return reduce(load<V>(p), [](const auto& a, const auto& b) { return max(a, b); }); });
      reduce_check<T>("hmin", N, MIN, [](const T* p) -> T { return hmin(load<V>(p)); });
      reduce_check<T>("hmax", N, MAX, [](const T* p) -> T { return hmax(load<V>(p)); });
#define MASKED(name, f, none, expr)                                                                \
  masked_reduce_check<T>(name, N, f, none, [](const bool* k, const T* p) -> T {                    \
    const M m = loadm<M>(k);                                                                       \
    const V v = load<V>(p);                                                                        \
    return expr;                                                                                   \
  })
      MASKED("reduce(where)", PLUS, T(0), reduce(where(m, v)));
      MASKED("reduce(where, multiplies)", TIMES, T(1), reduce(where(m, v), std::multiplies<>()));
      MASKED("reduce(where, identity, lambda +)", PLUS, T(0), reduce(where(m, v), T(0), [](const auto& a, const auto& b) { return a + b; }));
      MASKED("hmin(where)", MIN, L::max(), hmin(where(m, v)));
      MASKED("hmax(where)", MAX, L::lowest(), hmax(where(m, v)));
      if constexpr (I)
	{
	  reduce_check<T>("reduce(v, bit_and)", N, AND, [](const T* p) -> T { return reduce(load<V>(p), std::bit_and<>()); });
	  reduce_check<T>("reduce(v, bit_or)", N, OR, [](const T* p) -> T { return reduce(load<V>(p), std::bit_or<>()); });
	  reduce_check<T>("reduce(v, bit_xor)", N, XOR, [](const T* p) -> T { return reduce(load<V>(p), std::bit_xor<>()); });
	  reduce_check<T>("reduce(v, functor)", N, XOR, [](const T* p) -> T { return reduce(load<V>(p), uminus_xor()); });
	  MASKED("reduce(where, bit_and)", AND, T(~T()), reduce(where(m, v), std::bit_and<>()));
	  MASKED("reduce(where, bit_or)", OR, T(0), reduce(where(m, v), std::bit_or<>()));
	  MASKED("reduce(where, bit_xor)", XOR, T(0), reduce(where(m, v), std::bit_xor<>()));
	}
      constexpr auto cmpable = [](T a, T b) { return a == a && b == b && !(a == 0 && b == 0); };
      binary<T>("min", N, [](const T* a, const T* b, T* o) { min(load<V>(a), load<V>(b)).copy_to(o, EA); }, [](T a, T b) { return std::min(a, b); }, cmpable);
      binary<T>("max", N, [](const T* a, const T* b, T* o) { max(load<V>(a), load<V>(b)).copy_to(o, EA); }, [](T a, T b) { return std::max(a, b); }, cmpable);
      binary<T>("minmax.first", N, [](const T* a, const T* b, T* o) { minmax(load<V>(a), load<V>(b)).first.copy_to(o, EA); }, [](T a, T b) { return std::min(a, b); }, cmpable);
      binary<T>("minmax.second", N, [](const T* a, const T* b, T* o) { minmax(load<V>(a), load<V>(b)).second.copy_to(o, EA); }, [](T a, T b) { return std::max(a, b); }, cmpable);
      clamp_check<T>("clamp", N, [](const T* a, const T* l, const T* h, T* o) { clamp(load<V>(a), load<V>(l), load<V>(h)).copy_to(o, EA); });
#else
      reduce_const<T>("reduce(v)", N, PLUS, 1, reduce(cvec<V, 1>()));
      reduce_const<T>("reduce(v, multiplies)", N, TIMES, 2, reduce(cvec<V, 2>(), std::multiplies<>()));
      reduce_const<T>("hmin", N, MIN, 3, hmin(cvec<V, 3>()));
      reduce_const<T>("hmax", N, MAX, 4, hmax(cvec<V, 4>()));
      if constexpr (I)
	reduce_const<T>("reduce(v, bit_xor)", N, XOR, 5, reduce(cvec<V, 5>(), std::bit_xor<>()));
#endif
    }
}
int main(int argc, char** argv)
{
  init(argc, argv);
  each_type([](auto t) { run<typename decltype(t)::type>(); });
  finish_line();
}
