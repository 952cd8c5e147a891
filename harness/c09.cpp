// C09: split, concat and resizing casts.
#include "vhcfg.h"
#include "drvp.h"
using namespace vh;
#define EA stdx::element_aligned
static const char* nm(const std::string& x)
{
  static std::set<std::string> s;
  return s.insert(x).first->c_str();
}
static const int* iota()
{
  static int a[256], ok = [] {
    for (int i = 0; i < 256; ++i)
      a[i] = i;
    return 0;
  }();
  return a + ok;
}
static const int* resized(int from)
{
  static int a[256];
  for (int i = 0; i < 256; ++i)
    a[i] = i < from ? i : -1;
  return a;
}
template <class T, int N> using Ded = typename deduce_or_void<T, N>::type;
template <class T, int N> constexpr bool has = !std::is_void_v<Ded<T, N>>;

template <class V, class U> void put(const U& v, void*& o)
{
  v.copy_to((typename V::value_type*) o, EA);
  o = (char*) o + sizeof(typename V::value_type) * U::size();
}
template <class U> U get(const void*& m)
{
  U v;
  v.copy_from((const typename U::value_type*) m, EA);
  m = (const char*) m + sizeof(typename U::value_type) * U::size();
  soil(v);
  return v;
}
template <std::size_t... S> std::string sizes() { std::string r; ((r += (r.empty() ? "" : ",") + std::to_string(S)), ...); return "<" + r + ">"; }

template <class V, std::size_t... S> void comp()
{
  using T = typename V::value_type;
  static constexpr int N = V::size();
  static_assert((0 + ... + S) == N);
  const char* tn = tname<T>();
  const auto& t = pair_table<T, T>();
  if constexpr ((has<T, S> && ...))
    {
      move_check(nm("split" + sizes<S...>()), tn, N, N, t, iota(), [](const void* m, void* o) {
	const V v = get<V>(m);
	const auto p = stdx::split<S...>(v);
	static_assert(std::is_same_v<decltype(p), const std::tuple<stdx::simd<T, stdx::simd_abi::deduce_t<T, S>>...>>, "split<sizes>");
	std::apply([&](const auto&... x) { (put<V>(x, o), ...); }, p);
      });
      if constexpr (has<T, N>)
	{
	  move_check(nm("concat" + sizes<S...>()), tn, N, N, t, iota(), [](const void* m, void* o) {
	    std::tuple<stdx::simd<T, stdx::simd_abi::deduce_t<T, S>>...> p{get<stdx::simd<T, stdx::simd_abi::deduce_t<T, S>>>(m)...};
	    const auto v = std::apply([](const auto&... x) { return stdx::concat(x...); }, p);
	    static_assert(v.size() == N, "concat");
	    put<V>(v, o);
	  });
	  if constexpr (VH_DEEP)
	  move_check(nm("concat of split" + sizes<S...>()), tn, N, N, t, iota(), [](const void* m, void* o) {
	    const auto v = std::apply([](const auto&... x) { return stdx::concat(x...); }, stdx::split<S...>(get<V>(m)));
	    put<V>(v, o);
	  });
	}
    }
  if constexpr (((S <= stdx::simd_abi::max_fixed_size<T>) && ...) && has<T, N> && sizeof...(S) == 2)
    move_check(nm("concat fixed_size" + sizes<S...>()), tn, N, N, t, iota(), [](const void* m, void* o) {
      std::tuple<stdx::fixed_size_simd<T, S>...> p{get<stdx::fixed_size_simd<T, S>>(m)...};
      const auto v = std::apply([](const auto&... x) { return stdx::concat(x...); }, p);
      put<V>(v, o);
    });
#if VH_CONST
  if constexpr ((has<T, S> && ...))
    {
      T c[128], out[128];
      for (int i = 0; i < N; ++i)
	c[i] = ctab<T>::val(sizeof...(S), i);
      void* o = out;
      {
	const auto p = stdx::split<S...>(cvec<V, sizeof...(S)>());
	std::apply([&](const auto&... x) { (put<V>(x, o), ...); }, p);
      }
      const_check<T>(nm("split" + sizes<S...>()), "constants", sizeof...(S), N, c, c, out, [](T a, T) { return a; });
      if constexpr (has<T, N>)
	{
	  T e[128], *q = e;
	  const auto v = stdx::concat(cvec<stdx::simd<T, Ded<T, S>>, S % 3>()...);
	  o = out;
	  put<V>(v, o);
	  for (int k : {int(S)...})
	    for (int i = 0; i < k; ++i)
	      *q++ = ctab<T>::val(k % 3, i);
	  const_check<T>(nm("concat" + sizes<S...>()), "constants", 0, N, e, e, out, [](T a, T) { return a; });
	}
    }
#endif
}
template <class V, class> struct ones;
template <class V, std::size_t... I> struct ones<V, std::index_sequence<I...>>
{ static void go() { comp<V, (I * 0 + 1)...>(); } };
template <class V, int D, std::size_t... I> void equal(std::index_sequence<I...>) { comp<V, (I * 0 + V::size() / D)...>(); }

constexpr bool sel2(int i, int n)
{
  return (VH_DEEP && n <= 8) || i == 1 || i == n - 1 || i * 2 == n || i * 3 == n || i * 3 == 2 * n || i * 4 == n || i * 4 == 3 * n
	 || (VH_DEEP ? (i & (i - 1)) == 0 || i == 3 || i == 5 || i == n - 3 : i == 2 || (i == 8 && n > 16) || (i == 4 && n > 8));
}
template <class V, std::size_t... I> void two(std::index_sequence<I...>)
{
  each(tlist<std::integral_constant<std::size_t, I + 1>...>(), [](auto c) {
    constexpr std::size_t i = decltype(c)::type::value;
    if constexpr (i < V::size() && sel2(i, V::size()))
      comp<V, i, V::size() - i>();
  });
}
template <class V, std::size_t a, std::size_t b> void three()
{
  if constexpr (a + b < V::size())
    comp<V, a, b, V::size() - a - b>();
}
template <class V, class P> void chunks()
{
  using T = typename V::value_type;
  static constexpr int N = V::size();
  if constexpr (!std::is_void_v<P>)
    if constexpr (N % P::size() == 0 && !std::is_same_v<V, P>)
      {
	static constexpr int C = N / P::size();
	const std::string n = std::to_string(C) + "*" + std::to_string(P::size()) + (std::is_same_v<typename P::abi_type, stdx::simd_abi::scalar> ? " scalar" : std::is_same_v<typename P::abi_type, stdx::simd_abi::fixed_size<P::size()>> ? " fixed_size" : "");
	move_check(nm("split<V> " + n), tname<T>(), N, N, pair_table<T, T>(), iota(), [](const void* m, void* o) {
	  const V v = get<V>(m);
	  const std::array<P, C> a = stdx::split<P>(v);
	  for (const P& x : a)
	    put<V>(x, o);
	});
	mask_move_check(nm("mask split<V> " + n), tname<T>(), N, N, iota(), [](const bool* m, bool* o) {
	  const auto k = loadm<typename V::mask_type>(m);
	  const std::array<typename P::mask_type, C> a = stdx::split<typename P::mask_type>(k);
	  for (const auto& x : a)
	    {
	      x.copy_to(o, EA);
	      o += P::size();
	    }
	});
	if constexpr (has<T, N>)
	  move_check(nm("concat(array) " + n), tname<T>(), N, N, pair_table<T, T>(), iota(), [](const void* m, void* o) {
	    std::array<P, C> a;
	    for (P& x : a)
	      x = get<P>(m);
	    put<V>(stdx::concat(a), o);
	  });
#if VH_CONST
	T c[128], out[128];
	for (int i = 0; i < N; ++i)
	  c[i] = ctab<T>::val(2, i);
	void* o = out;
	for (const P& x : stdx::split<P>(cvec<V, 2>()))
	  put<V>(x, o);
	const_check<T>(nm("split<V> " + n), "constants", 2, N, c, c, out, [](T a, T) { return a; });
#endif
      }
}
template <class V, int M> void resize()
{
  using T = typename V::value_type;
  static constexpr int N = V::size();
  auto go = [](auto w, const char* how) {
    using W = typename decltype(w)::type;
    const std::string n = std::to_string(M) + how;
    if constexpr (std::is_default_constructible_v<W>)
      {
	move_check(nm("resizing_simd_cast " + n), tname<T>(), N, M, pair_table<T, T>(), resized(N), [](const void* m, void* o) {
	  const V v = get<V>(m);
	  const W r = stdx::__proposed::resizing_simd_cast<W>(v);
	  put<V>(r, o);
	});
	mask_move_check(nm("mask resizing_simd_cast " + n), tname<T>(), N, M, resized(N), [](const bool* m, bool* o) {
	  const auto k = loadm<typename V::mask_type>(m);
	  const typename W::mask_type r = stdx::__proposed::resizing_simd_cast<typename W::mask_type>(!k);
	  (!r).copy_to(o, EA);
	  if (M > N)
	    for (int i = N; i < M; ++i) // the added elements are false before !
	      o[i] = !o[i];
	});
      }
  };
  if constexpr (M >= 1 && M <= 64)
    {
      if constexpr (has<T, M>)
	go(tag<stdx::simd<T, Ded<T, M>>>(), "");
      if constexpr (M <= stdx::simd_abi::max_fixed_size<T>)
	go(tag<stdx::fixed_size_simd<T, M>>(), " fixed_size");
    }
}
template <class T> void run()
{
  using A = abi_of<T, VH_ABI>;
  if constexpr (!std::is_void_v<A>)
    {
      using V = stdx::simd<T, A>;
      constexpr int N = V::size();
      comp<V, N>();
      two<V>(std::make_index_sequence<N>());
      if constexpr (N > 2 && N <= 8)
	ones<V, std::make_index_sequence<N>>::go();
      if constexpr (N % 3 == 0)
	three<V, N / 3, N / 3>();
      if constexpr (N % 4 == 0 && N >= 8)
	{
	  three<V, N / 4, N / 4>();
	  three<V, N / 2, N / 4>();
	  three<V, N / 4, N / 2>();
	  equal<V, 4>(std::make_index_sequence<4>());
	}
      if constexpr (N % 8 == 0 && N >= 16)
	equal<V, 8>(std::make_index_sequence<8>());
      if constexpr (N > 3)
	{
	  three<V, 1, 2>();
	  three<V, 2, 1>();
	}
      if constexpr (N > 6)
	three<V, 1, N - 2>();
      each(tlist<std::integral_constant<int, 1>, std::integral_constant<int, 2>, std::integral_constant<int, 3>, std::integral_constant<int, 4>, std::integral_constant<int, 8>,
	     std::integral_constant<int, 16>>(), [](auto c) {
	constexpr int k = decltype(c)::type::value;
	if constexpr (V::size() % k == 0)
	  {
	    if constexpr (has<T, V::size() / k>)
	      chunks<V, stdx::simd<T, Ded<T, V::size() / k>>>();
	    if constexpr (V::size() / k <= stdx::simd_abi::max_fixed_size<T>)
	      chunks<V, stdx::fixed_size_simd<T, V::size() / k>>();
	    if constexpr (k == V::size())
	      chunks<V, stdx::simd<T, stdx::simd_abi::scalar>>();
	  }
      });
#if !VH_CONST
      resize<V, 1>();
      resize<V, 2>();
      if constexpr (N != 3)
	resize<V, 3>();
      if constexpr (N > 4)
	resize<V, N / 2>(), resize<V, N - 1>();
      resize<V, N>();
      if constexpr (N > 2)
	resize<V, N + 1>(), resize<V, 2 * N>(), resize<V, 2 * N - 1>();
      resize<V, 4 * N>();
#endif
    }
}
int main(int argc, char** argv)
{
  init(argc, argv);
  each_type([](auto t) { run<typename decltype(t)::type>(); });
  finish_line();
}
