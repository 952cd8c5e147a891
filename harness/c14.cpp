// C14: ABI tags, type traits and the types they describe, for all element types and sizes.
#include "vhcfg.h"
#include <cstdarg>
using namespace vh;
namespace sa = stdx::simd_abi;
#define ALLT char, schar, uchar, short, ushort, int, uint, long, ulong, llong, ullong, float, double, ldouble, wchar_t, char16_t, char32_t
#if VH_DEEP
#define TOT ALLT
#else
#define TOT schar, ushort, int, ulong, float, double, ldouble
#endif
#ifndef VH_FROM
#define VH_FROM 0
#define VH_TO_N 66
#endif
// ---------------------------------------------------------------- independent model of the target
template <class T> constexpr int native_bytes()
{
  if (std::is_same_v<T, ldouble>)
    return sizeof(T);
  [[maybe_unused]] constexpr int s = sizeof(T);
#if defined VH_NOSIMD
  return s;
#elif defined VH_NEON32
  if (std::is_same_v<T, double>)
    return s;
#elif defined VH_NEON7
  if (s == 8 || std::is_floating_point_v<T>)
    return s;
#endif
#ifdef __AVX512F__
#ifdef __AVX512BW__
  return 64;
#else
  if (s >= 4)
    return 64;
#endif
#endif
#ifdef __AVX2__
  return 32;
#endif
#ifdef __AVX__
  if (std::is_floating_point_v<T>)
    return 32;
#endif
  return 16;
}
template <class T> constexpr int max_n()
{
#ifdef __AVX512BW__
  if (sizeof(T) == 1)
    return 64;
#endif
  return 32;
}
// ---------------------------------------------------------------- detection
template <class T, std::size_t N, class = void> struct has_deduce : std::false_type {};
template <class T, std::size_t N> struct has_deduce<T, N, std::void_t<typename sa::deduce<T, N>::type>> : std::true_type {};
template <class U, class V, class = void> struct has_rebind : std::false_type {};
template <class U, class V> struct has_rebind<U, V, std::void_t<stdx::rebind_simd_t<U, V>>> : std::true_type {};
template <int N, class V, class = void> struct has_resize : std::false_type {};
template <int N, class V> struct has_resize<N, V, std::void_t<stdx::resize_simd_t<N, V>>> : std::true_type {};
template <class T, class A, class = void> struct has_size : std::false_type {};
template <class T, class A> struct has_size<T, A, std::void_t<decltype(stdx::simd_size<T, A>::value)>> : std::true_type {};
template <class T, class = void> struct has_native : std::false_type {};
template <class T> struct has_native<T, std::void_t<sa::native<T>>> : std::true_type {};

[[gnu::noinline]] void chk(const char* name, const char* tn, bool ok, const char* fmt, ...)
{
  if (!want(name))
    return;
  set_op(name, tn);
  st.states++, st.trans++, st.execs++;
  if (!ok)
    {
      char buf[200];
      va_list ap;
      va_start(ap, fmt);
      vsnprintf(buf, sizeof buf, fmt, ap);
      va_end(ap);
      check_bool(false, buf);
    }
}
#define CHK(name, cond, ...) chk(name, tn, cond, __VA_ARGS__)
constexpr bool pow2(std::size_t x) { return x && !(x & (x - 1)); }
constexpr std::size_t ceil2(std::size_t x)
{
  std::size_t r = 1;
  while (r < x)
    r *= 2;
  return r;
}

// everything that must hold for any valid vector type
template <class T, class A> void valid(const char* tn, int N, const char* how)
{
  using V = stdx::simd<T, A>;
  using M = stdx::simd_mask<T, A>;
#define H "%s, size %d", how, N
  CHK("simd_size", (has_size<T, A>::value), H);
  if constexpr (has_size<T, A>::value)
    CHK("simd_size", (stdx::simd_size_v<T, A> == std::size_t(N)), H);
  CHK("size()", V::size() == std::size_t(N) && M::size() == std::size_t(N), H);
  CHK("is_abi_tag", stdx::is_abi_tag_v<A>, H);
  CHK("is_simd", stdx::is_simd_v<V> && !stdx::is_simd_v<M> && stdx::is_simd<V>::value, H);
  CHK("is_simd_mask", stdx::is_simd_mask_v<M> && !stdx::is_simd_mask_v<V> && stdx::is_simd_mask<M>::value, H);
  CHK("constructible", std::is_default_constructible_v<V> && std::is_destructible_v<V> && std::is_copy_constructible_v<V> && std::is_move_constructible_v<V>
      && std::is_copy_assignable_v<V> && std::is_move_assignable_v<V>, H);
  CHK("mask constructible", std::is_default_constructible_v<M> && std::is_destructible_v<M> && std::is_copy_constructible_v<M> && std::is_copy_assignable_v<M>, H);
  CHK("member types", (std::is_same_v<typename V::value_type, T> && std::is_same_v<typename V::abi_type, A> && std::is_same_v<typename V::mask_type, M>), H);
  CHK("mask member types", (std::is_same_v<typename M::value_type, bool> && std::is_same_v<typename M::abi_type, A> && std::is_same_v<typename M::simd_type, V>), H);
  CHK("subscript types", (std::is_same_v<decltype(std::declval<const V&>()[0]), T> && std::is_same_v<decltype(std::declval<const M&>()[0]), bool>
			  && std::is_same_v<decltype(std::declval<V&>()[0]), typename V::reference> && std::is_convertible_v<typename V::reference, T>
			  && std::is_convertible_v<typename M::reference, bool>), H);
  CHK("sizeof", sizeof(V) >= N * sizeof(T) && sizeof(V) % alignof(V) == 0 && alignof(V) >= alignof(T), "%s, size %d: sizeof %d alignof %d", how, N, int(sizeof(V)), int(alignof(V)));
  CHK("alignof", pow2(alignof(V)) && pow2(alignof(M)) && sizeof(M) >= (std::size_t(N) + 7) / 8, "%s, size %d: %d %d", how, N, int(alignof(V)), int(alignof(M)));
  CHK("comparison types", (std::is_same_v<decltype(std::declval<const V&>() == std::declval<const V&>()), M>
			   && std::is_same_v<decltype(std::declval<const V&>() < std::declval<const V&>()), M>
			   && std::is_same_v<decltype(!std::declval<const V&>()), M>), H);
  CHK("arithmetic types", (std::is_same_v<decltype(std::declval<const V&>() + std::declval<const V&>()), V>
			   && std::is_same_v<decltype(-std::declval<const V&>()), V>), H);
  // memory_alignment
  CHK("memory_alignment", (stdx::memory_alignment_v<V> >= alignof(T) && pow2(stdx::memory_alignment_v<V>)
      && stdx::memory_alignment<V>::value == stdx::memory_alignment_v<V> && stdx::memory_alignment_v<V> == stdx::memory_alignment_v<V, T>),
      "%s, size %d: %d", how, N, int(stdx::memory_alignment_v<V>));
  CHK("memory_alignment bool", (pow2(stdx::memory_alignment_v<M>) && stdx::memory_alignment_v<M> == stdx::memory_alignment_v<M, bool>),
      "%s, size %d: %d", how, N, int(stdx::memory_alignment_v<M>));
  each(tlist<ALLT>(), [&](auto t) {
    using U = typename decltype(t)::type;
    CHK("memory_alignment U", (pow2(stdx::memory_alignment_v<V, U>) && stdx::memory_alignment_v<V, U> >= alignof(U)),
	"%s, size %d, memory type %s: %d", how, N, tname<U>(), int(stdx::memory_alignment_v<V, U>));
  });
  // rebind
  each(tlist<TOT>(), [&](auto t) {
    using U = typename decltype(t)::type;
    constexpr int n = V::size();
    constexpr bool want_it = n <= max_n<U>();
    CHK("rebind_simd exists", (has_rebind<U, V>::value == want_it && has_rebind<U, M>::value == want_it), "%s, size %d, to %s", how, N, tname<U>());
    if constexpr (has_rebind<U, V>::value && has_rebind<U, M>::value)
      {
	using R = stdx::rebind_simd_t<U, V>;
	using K = stdx::rebind_simd_t<U, M>;
	CHK("rebind_simd", (stdx::is_simd_v<R> && stdx::is_simd_mask_v<K> && std::is_same_v<typename R::value_type, U> && R::size() == V::size()
			    && std::is_same_v<typename K::simd_type::value_type, U> && K::size() == V::size() && std::is_same_v<typename R::mask_type, K>),
	    "%s, size %d, to %s: %d %d", how, N, tname<U>(), int(R::size()), int(K::size()));
	if constexpr (std::is_same_v<T, U> && has_deduce<T, V::size()>::value)
	  CHK("rebind_simd same", (std::is_same_v<R, stdx::simd<T, sa::deduce_t<T, V::size()>>>), H);
      }
  });
}
template <int N, class V> void resize_one(const char* tn, const char* how)
{
  using T = typename V::value_type;
  using M = typename V::mask_type;
  constexpr bool want_it = N >= 1 && N <= max_n<T>();
  CHK("resize_simd exists", (has_resize<N, V>::value == want_it && has_resize<N, M>::value == want_it), "%s, size %d, to %d", how, int(V::size()), N);
  if constexpr (has_resize<N, V>::value && has_resize<N, M>::value)
    {
      using R = stdx::resize_simd_t<N, V>;
      using K = stdx::resize_simd_t<N, M>;
      CHK("resize_simd", (stdx::is_simd_v<R> && std::is_same_v<typename R::value_type, T> && R::size() == N && stdx::is_simd_mask_v<K> && K::size() == N
			  && std::is_same_v<typename R::mask_type, K>), "%s, size %d, to %d: %d %d", how, int(V::size()), N, int(R::size()), int(K::size()));
    }
}
template <class V, int... Ns> void resize_all(const char* tn, const char* how, std::integer_sequence<int, Ns...>)
{
  (resize_one<Ns, V>(tn, how), ...);
}
template <class T, int N> void per_size(const char* tn)
{
  constexpr bool in = N >= 1 && N <= max_n<T>();
  using F = sa::fixed_size<N>;
  CHK("deduce exists", (has_deduce<T, N>::value == in), "size %d", N);
  CHK("fixed_size is an ABI tag", stdx::is_abi_tag_v<F> == (N >= 1), "size %d", N);
  CHK("fixed_size valid", (std::is_default_constructible_v<stdx::simd<T, F>> == in && std::is_default_constructible_v<stdx::simd_mask<T, F>> == in),
      "size %d", N);
  if constexpr (N >= 1)
    CHK("fixed_size simd_size", (stdx::simd_size_v<T, F> == N), "size %d", N);
  if constexpr (std::is_default_constructible_v<stdx::simd<T, F>> && N >= 1)
    {
      valid<T, F>(tn, N, "fixed_size");
      CHK("fixed_size_simd", (std::is_same_v<stdx::fixed_size_simd<T, N>, stdx::simd<T, F>> && std::is_same_v<stdx::fixed_size_simd_mask<T, N>, stdx::simd_mask<T, F>>),
	  "size %d", N);
    }
  if constexpr (has_deduce<T, N>::value)
    {
      using A = sa::deduce_t<T, N>;
      if constexpr (!std::is_same_v<A, F>)
	valid<T, A>(tn, N, "deduce");
      CHK("deduce size 1", (N != 1 || std::is_same_v<A, sa::scalar>), "size %d", N);
      constexpr int nn = native_bytes<T>() / int(sizeof(T));
      CHK("deduce native", (N != nn || std::is_same_v<A, sa::native<T>>), "size %d", N);
      CHK("deduce prefers a register", (N > nn || N == 1 || !std::is_same_v<A, F>), "size %d", N);
      if constexpr (N > 1 && !std::is_same_v<A, F>)
	{
	  using V = stdx::simd<T, A>;
	  CHK("register layout", sizeof(V) == std::max<std::size_t>(ceil2(N * sizeof(T)), 1) || sizeof(V) == 16, "size %d: %d bytes", N, int(sizeof(V)));
	}
    }
}
template <class T, int... Ns> void sizes(const char* tn, std::integer_sequence<int, Ns...>)
{
  (per_size<T, Ns + VH_FROM>(tn), ...);
}
enum Enum { en };
struct Cls
{
  operator int() const;
};
template <class X> void never(const char* tn, const char* what)
{
  CHK("not vectorizable", (!std::is_default_constructible_v<stdx::simd<X, sa::scalar>> && !std::is_default_constructible_v<stdx::simd<X, sa::fixed_size<4>>>
			   && !std::is_default_constructible_v<stdx::simd<X, sa::_VecBuiltin<16>>> && !std::is_default_constructible_v<stdx::simd_mask<X, sa::scalar>>
			   && !std::is_default_constructible_v<stdx::simd_mask<X, sa::fixed_size<4>>>), "%s", what);
  CHK("no simd_size", (!has_size<X, sa::scalar>::value && !has_size<X, sa::fixed_size<4>>::value), "%s", what);
  CHK("no native", !has_native<X>::value, "%s", what);
  CHK("no deduce", (!has_deduce<X, 1>::value && !has_deduce<X, 4>::value), "%s", what);
  CHK("not an ABI tag", !stdx::is_abi_tag_v<X>, "%s", what);
  CHK("not simd", !stdx::is_simd_v<X> && !stdx::is_simd_mask_v<X>, "%s", what);
}
int main(int argc, char** argv)
{
  init(argc, argv);
  each_type([](auto t) {
    using T = typename decltype(t)::type;
    const char* tn = tname<T>();
    VH_SAMPLE(std::string("traits of ") + tn);
    sizes<T>(tn, std::make_integer_sequence<int, VH_TO_N - VH_FROM>());
#if VH_FROM == 0
    using NA = sa::native<T>;
    using CA = sa::compatible<T>;
    constexpr int nb = native_bytes<T>(), 
#ifdef VH_PORT // differs between 32-bit and 64-bit variants of the targets: scalar or 128 bits
		  cb = stdx::simd_size_v<T, CA> == 1 ? int(sizeof(T)) : 16;
#else
		  cb = std::is_same_v<T, ldouble> ? int(sizeof(T)) : 16;
#endif
    CHK("max_fixed_size", (sa::max_fixed_size<T> == max_n<T>() && sa::max_fixed_size<T> >= int(stdx::simd_size_v<T, NA>)), "%d", int(sa::max_fixed_size<T>));
    CHK("native size", (stdx::simd_size_v<T, NA> * sizeof(T) == nb), "%d", int(stdx::simd_size_v<T, NA>));
    CHK("compatible size", (stdx::simd_size_v<T, CA> * sizeof(T) == cb), "%d", int(stdx::simd_size_v<T, CA>));
    CHK("native >= compatible", (stdx::simd_size_v<T, NA> >= stdx::simd_size_v<T, CA>), "-");
    CHK("native sizeof", (sizeof(stdx::native_simd<T>) == nb && alignof(stdx::native_simd<T>) == nb), "%d", int(sizeof(stdx::native_simd<T>)));
    CHK("compatible sizeof", (sizeof(stdx::simd<T>) == cb && alignof(stdx::simd<T>) == cb), "%d", int(sizeof(stdx::simd<T>)));
    CHK("default ABI", (std::is_same_v<stdx::simd<T>, stdx::simd<T, CA>> && std::is_same_v<stdx::simd_mask<T>, stdx::simd_mask<T, CA>>
			&& stdx::simd_size<T>::value == stdx::simd_size_v<T, CA>), "-");
    CHK("native_simd", (std::is_same_v<stdx::native_simd<T>, stdx::simd<T, NA>> && std::is_same_v<stdx::native_simd_mask<T>, stdx::simd_mask<T, NA>>), "-");
    CHK("scalar size", (stdx::simd_size_v<T, sa::scalar> == 1), "-");
    CHK("scalar sizeof", sizeof(stdx::simd<T, sa::scalar>) == sizeof(T) && sizeof(stdx::simd_mask<T, sa::scalar>) == 1, "-");
    valid<T, NA>(tn, stdx::simd_size_v<T, NA>, "native");
    valid<T, CA>(tn, stdx::simd_size_v<T, CA>, "compatible");
    valid<T, sa::scalar>(tn, 1, "scalar");
    using S = std::make_integer_sequence<int, 67>;
    resize_all<stdx::native_simd<T>>(tn, "native", S());
    resize_all<stdx::simd<T, sa::scalar>>(tn, "scalar", S());
    resize_all<stdx::fixed_size_simd<T, 13>>(tn, "fixed_size", S());
    CHK("scalar types", !stdx::is_simd_v<T> && !stdx::is_simd_mask_v<T> && !stdx::is_abi_tag_v<T> && !stdx::is_simd_v<T*> && !stdx::is_simd_v<std::vector<T>>, "-");
    CHK("no simd_size for a non-tag", (!has_size<T, int>::value && !has_size<T, T>::value && !has_size<T, stdx::simd<T>>::value), "-");
    // every register ABI that claims to be valid holds a whole number of elements and fits the target
    auto reg = [&](auto b) {
      constexpr int B = decltype(b)::value;
      using A = sa::_VecBuiltin<B>;
      constexpr bool is = std::is_default_constructible_v<stdx::simd<T, A>>;
      CHK("register ABI", (!is || (B % sizeof(T) == 0 && B / sizeof(T) >= 2 && B <= std::max(native_bytes<T>(), 16))), "%d bytes", B);
      CHK("register ABI mask", (is == std::is_default_constructible_v<stdx::simd_mask<T, A>>), "%d bytes", B);
      if constexpr (is)
	valid<T, A>(tn, B / int(sizeof(T)), "register");
      else if constexpr (B == 16)
	CHK("128-bit register ABI", (std::is_same_v<T, ldouble> || native_bytes<T>() < 16), "%d bytes", B);
    };
    (reg(std::integral_constant<int, 8>()), reg(std::integral_constant<int, 12>()), reg(std::integral_constant<int, 16>()), reg(std::integral_constant<int, 20>()),
     reg(std::integral_constant<int, 24>()), reg(std::integral_constant<int, 32>()), reg(std::integral_constant<int, 48>()), reg(std::integral_constant<int, 64>()),
     reg(std::integral_constant<int, 128>()));
#endif
  });
#if VH_FROM == 0
  never<bool>("bool", "bool");
  never<const int>("const int", "const int");
  never<volatile float>("volatile float", "volatile float");
  never<Enum>("enum", "an enumeration");
  never<int*>("pointer", "a pointer");
  never<Cls>("class", "a class convertible to int");
  never<void*>("pointer", "void*");
  never<std::array<int, 4>>("array", "std::array");
#endif
  finish_line();
}
