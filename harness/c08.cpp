// C08: conversions between vector and mask types.
#include "vhcfg.h"
#include "drvl.h"
#include "drvm.h"
using namespace vh;
#ifndef VH_TO
#define VH_TO schar, uchar, short, ushort, int, uint, long, ulong, float, double
#endif
#define EA stdx::element_aligned
template <class U> const char* nm(const char* op, const char* to)
{
  static std::set<std::string> s;
  return s.insert(std::string(op) + " -> " + tname<U>() + to).first->c_str();
}
template <class V, class W> void one(const char* how)
{
  using T = typename V::value_type;
  using U = typename W::value_type;
  constexpr int N = V::size();
  const char* tn = tname<T>();
  const auto& t = pair_table<T, U>();
  load_check(nm<U>("static_simd_cast", how), tn, N, t, alignof(T), [](const void* m, void* o) {
    V v = load<V>((const T*) m);
    const W w = stdx::static_simd_cast<W>(v);
    w.copy_to((U*) o, EA);
  });
}
template <class V, class W, class = void> struct can_cast : std::false_type {};
template <class V, class W>
struct can_cast<V, W, std::void_t<decltype(stdx::simd_cast<W>(std::declval<const V&>()))>> : std::true_type {};

template <class V, class W> void onemask(const char* how)
{
  using T = typename V::value_type;
  using U = typename W::value_type;
  using M = typename V::mask_type;
  using K = typename W::mask_type;
  constexpr int N = V::size();
  mask_unary(nm<U>("mask static_simd_cast", how), tname<T>(), N, [](const bool* i, bool* o) {
    const M k = loadm<M>(i);
    const K r = stdx::__proposed::static_simd_cast<W>(k);
    r.copy_to(o, EA);
  }, [](bool b) { return b; });
  mask_unary(nm<U>("mask __cvt of !k", how), tname<T>(), N, [](const bool* i, bool* o) {
    const M k = loadm<M>(i);
    const K r = (!k).__cvt(); // sets whatever lies beyond the last element
    (!r).copy_to(o, EA);
  }, [](bool b) { return b; });
}
template <class A, class... B> constexpr bool in = (std::is_same_v<A, B> || ...);
template <class V, class U, class B, class... Seen> void maybe(const char* how)
{
  if constexpr (!std::is_void_v<B> && !in<B, Seen...>)
    {
      using W = stdx::simd<U, B>;
      if constexpr (std::is_default_constructible_v<W>)
	if constexpr (W::size() == V::size() && !std::is_same_v<V, W>)
	  {
	    one<V, W>(how);
	    onemask<V, W>(how);
	  }
    }
}
template <class V, class U> void targets()
{
  using T = typename V::value_type;
  using A = typename V::abi_type;
  using M = typename V::mask_type;
  static constexpr int N = V::size();
  const char* tn = tname<T>();
	const auto& t = pair_table<T, U>();
	using F = stdx::simd_abi::fixed_size<N>;
	using D = typename deduce_or_void<U, N>::type;
	maybe<V, U, F>(" (fixed_size)");
	maybe<V, U, D, F>(" (deduced)");
	maybe<V, U, stdx::simd_abi::native<U>, F, D>(" (native)");
	maybe<V, U, A, F, D, stdx::simd_abi::native<U>>(" (same ABI)");
	maybe<V, U, stdx::simd_abi::scalar, F, D, stdx::simd_abi::native<U>, A>(" (scalar)");
	if constexpr (std::is_default_constructible_v<decltype(stdx::static_simd_cast<U>(std::declval<const V&>()))>)
	load_check(nm<U>("static_simd_cast<U>", ""), tn, N, t, alignof(T), [](const void* m, void* o) {
	  V v = load<V>((const T*) m);
	  const auto w = stdx::static_simd_cast<U>(v);
	  static_assert(std::is_same_v<typename decltype(w)::value_type, U> && w.size() == N, "static_simd_cast<U>");
	  w.copy_to((U*) o, EA);
	});
	if constexpr (can_cast<V, U>::value && std::is_default_constructible_v<stdx::fixed_size_simd<U, N>>)
	  load_check(nm<U>("simd_cast<U>", ""), tn, N, t, alignof(T), [](const void* m, void* o) {
	    V v = load<V>((const T*) m);
	    const auto w = stdx::simd_cast<U>(v);
	    w.copy_to((U*) o, EA);
	  });
	if constexpr (std::is_convertible_v<V, stdx::fixed_size_simd<U, N>> && !std::is_same_v<T, U>)
	  load_check(nm<U>("implicit conversion", " (fixed_size)"), tn, N, t, alignof(T), [](const void* m, void* o) {
	    V v = load<V>((const T*) m);
	    const stdx::fixed_size_simd<U, N> w = v;
	    w.copy_to((U*) o, EA);
	  });
	if constexpr (std::is_convertible_v<M, stdx::fixed_size_simd_mask<U, N>> && !std::is_same_v<T, U>)
	  mask_unary(nm<U>("mask implicit conversion", " (fixed_size)"), tn, N, [](const bool* i, bool* o) {
	    const M k = loadm<M>(i);
	    const stdx::fixed_size_simd_mask<U, N> r = k;
	    r.copy_to(o, EA);
	  }, [](bool b) { return b; });
}
template <class T> void run()
{
  using A = abi_of<T, VH_ABI>;
  if constexpr (!std::is_void_v<A>)
    {
      using V = stdx::simd<T, A>;
      using M = typename V::mask_type;
      static constexpr int N = V::size();
      const char* tn = tname<T>();
      each(tlist<VH_TO>(), [&](auto u) { targets<V, typename decltype(u)::type>(); });
      // the array conversions of fixed_size vectors
      if constexpr (VH_ABI > 100 && VH_ABI < 200)
	{
	  load_check("to std::array", tn, N, pair_table<T, T>(), alignof(T), [](const void* m, void* o) {
	    V v = load<V>((const T*) m);
	    const std::array<T, N> a = static_cast<std::array<T, N>>(v);
	    std::memcpy(o, a.data(), sizeof a);
	  });
	}
      load_check("to_fixed_size", tn, N, pair_table<T, T>(), alignof(T), [](const void* m, void* o) {
	V v = load<V>((const T*) m);
	const stdx::fixed_size_simd<T, N> w = stdx::to_fixed_size(v);
	w.copy_to((T*) o, EA);
      });
      mask_unary("mask to_fixed_size", tn, N, [](const bool* i, bool* o) {
	const M k = loadm<M>(i);
	const stdx::fixed_size_simd_mask<T, N> w = stdx::to_fixed_size(k);
	w.copy_to(o, EA);
      }, [](bool b) { return b; });
      if constexpr (VH_ABI > 100 && VH_ABI < 200)
	{
	  if constexpr (N == stdx::native_simd<T>::size())
	    {
	      load_check("to_native", tn, N, pair_table<T, T>(), alignof(T), [](const void* m, void* o) {
		V v = load<V>((const T*) m);
		const stdx::native_simd<T> w = stdx::to_native(v);
		w.copy_to((T*) o, EA);
	      });
	      mask_unary("mask to_native", tn, N, [](const bool* i, bool* o) {
		const M k = loadm<M>(i);
		const stdx::native_simd_mask<T> w = stdx::to_native(k);
		w.copy_to(o, EA);
	      }, [](bool b) { return b; });
	    }
	  if constexpr (N == stdx::simd<T>::size())
	    {
	      load_check("to_compatible", tn, N, pair_table<T, T>(), alignof(T), [](const void* m, void* o) {
		V v = load<V>((const T*) m);
		const stdx::simd<T> w = stdx::to_compatible(v);
		w.copy_to((T*) o, EA);
	      });
	      mask_unary("mask to_compatible", tn, N, [](const bool* i, bool* o) {
		const M k = loadm<M>(i);
		const stdx::simd_mask<T> w = stdx::to_compatible(k);
		w.copy_to(o, EA);
	      }, [](bool b) { return b; });
	    }
	}
    }
}
int main(int argc, char** argv)
{
  init(argc, argv);
  each_type([](auto t) { run<typename decltype(t)::type>(); });
  finish_line();
}
