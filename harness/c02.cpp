// C02: shifts by vector and by scalar counts.
#include "vhcfg.h"
using namespace vh;
#ifndef VH_MAXCOUNT_INT
#define VH_MAXCOUNT_INT 1 // 1: narrow types are also shifted by counts up to 31 (promotion)
#endif

#define EA stdx::element_aligned
#define AI [[gnu::always_inline]]
template <class T> T rshl(T a, int c)
{
  return c >= int(sizeof(T) * 8) ? T(0) : T(std::make_unsigned_t<T>(a) << c);
}
template <class T> T rshr(T a, int c)
{
  if (c >= int(sizeof(T) * 8))
    c = sizeof(T) * 8 - 1, a = std::is_signed_v<T> ? a : T(0);
  return T(a >> c);
}

template <class V, class T, int C> [[gnu::noinline]] void const_count1(T (*o)[V::size()], const T* pa)
{
  const V a = load<V>(pa);
  (a << C).copy_to(o[0], EA);
  (a >> C).copy_to(o[1], EA);
  (cvec<V, C % 7>() << C).copy_to(o[2], EA);
  (a >> V(T(C))).copy_to(o[3], EA);
  (a << V(T(C))).copy_to(o[4], EA);
}
template <class T>
[[gnu::noinline]] void cc_check(const char* name, int N, const T* in, const T* out, int c, RS<T> ref)
{
  if (!want(name))
    return;
  set_op(name, tname<T>());
  for (int l = 0; l < N; ++l)
    if (out[l] != ref(in[l], c))
      bad("lane " + std::to_string(l) + " a=" + show(in[l]) + " count=" + show(c) + " expected "
	  + show(ref(in[l], c)) + " got " + show(out[l]));
  ++st.states;
  st.trans += N;
  ++st.execs;
}
template <class V, class T, int C> void const_count()
{
  constexpr int N = V::size();
  const auto& al = alphabet<T>();
  static T o[5][N];
  T in[N], k[N];
  for (int l = 0; l < N; ++l)
    k[l] = ctab<T>::val(C % 7, l);
  for (std::size_t i = 0; i < al.size(); i += 1)
    {
      for (int l = 0; l < N; ++l)
	in[l] = al[(i + l) % al.size()];
      const_count1<V, T, C>(o, in);
      cc_check<T>("v<<constant", N, in, o[0], C, rshl<T>);
      cc_check<T>("v>>constant", N, in, o[1], C, rshr<T>);
      if (i == 0)
	cc_check<T>("const<<constant", N, k, o[2], C, rshl<T>);
      cc_check<T>("v>>constant vector", N, in, o[3], C, rshr<T>);
      cc_check<T>("v<<constant vector", N, in, o[4], C, rshl<T>);
    }
}
template <class V, class T, int S> [[gnu::noinline]] void const_vec()
{
  constexpr int N = V::size();
  constexpr int HI = sizeof(T) < 4 ? 32 : sizeof(T) * 8;
  T in[N], c[N], o[6][N];
  for (int l = 0; l < N; ++l)
    {
      in[l] = ctab<T>::val(S, l);
      c[l] = T((l * 5 + S * 3) % HI);
    }
  clobber(in);
  clobber(c);
  const V cv([](auto i) constexpr { return T((int(i) * 5 + S * 3) % HI); });
  const V a = load<V>(in), rc = load<V>(c);
  (a << cv).copy_to(o[0], EA);
  (a >> cv).copy_to(o[1], EA);
  (cvec<V, S>() << cv).copy_to(o[2], EA);
  (cvec<V, S>() >> cv).copy_to(o[3], EA);
  (cvec<V, S>() << rc).copy_to(o[4], EA);
  (cvec<V, S>() >> rc).copy_to(o[5], EA);
  for (int k = 0; k < 6; ++k)
    {
      const char* nm[] = {"v<<cv", "v>>cv", "c<<cv", "c>>cv", "c<<v", "c>>v"};
      if (!want(nm[k]))
	continue;
      set_op(nm[k], tname<T>());
      for (int l = 0; l < N; ++l)
	{
	  T e = k & 1 ? rshr<T>(in[l], c[l]) : rshl<T>(in[l], c[l]);
	  if (o[k][l] != e)
	    bad("lane " + std::to_string(l) + " a=" + show(in[l]) + " count=" + show(c[l])
		+ " expected " + show(e) + " got " + show(o[k][l]));
	}
      ++st.states;
      st.trans += N;
      ++st.execs;
    }
}

constexpr bool pick(int C, int B)
{ return C < B && B <= 16 || C < 3 || C % 8 == 0 || C % 8 == 7 || C == B / 2 + 1; }
template <class T> void run()
{
  using A = abi_of<T, VH_ABI>;
  if constexpr (!std::is_void_v<A> && std::is_integral_v<T>)
    {
      using V = stdx::simd<T, A>;
      constexpr int N = V::size();
      constexpr int B = sizeof(T) * 8;
      constexpr int HI = VH_MAXCOUNT_INT && B < 32 ? 32 : B;
#if VH_CONST
      // every count for 8 and 16 bits, a boundary set above
      [&]<int... C>(std::integer_sequence<int, C...>) {
	((pick(C, B) ? const_count<V, T, pick(C, B) ? C : 0>() : void()), ...);
      }(std::make_integer_sequence<int, HI>());
      const_vec<V, T, 0>();
      const_vec<V, T, 1>();
#else
#define SC(NAME, X, REF) scalar_count<T>(NAME, N, [](const T* p, int c, T* o) { [](V a, int c) AI { X; }(load<V>(p), c).copy_to(o, EA); }, REF, 0, HI)
#define VC(NAME, X, REF) vector_count<T>(NAME, N, [](const T* p, const T* q, T* o) { [](V a, V c) AI { X; }(load<V>(p), load<V>(q)).copy_to(o, EA); }, REF, 0, HI)
      SC("v<<n", return a << c, rshl<T>);
      SC("v>>n", return a >> c, rshr<T>);
      SC("v<<=n", a <<= c; return a, rshl<T>);
      SC("v>>=n", a >>= c; return a, rshr<T>);
      VC("v<<v", return a << c, rshl<T>);
      VC("v>>v", return a >> c, rshr<T>);
      VC("v<<=v", a <<= c; return a, rshl<T>);
      VC("v>>=v", a >>= c; return a, rshr<T>);
#endif
    }
}
int main(int argc, char** argv)
{
  init(argc, argv);
  each_type([](auto t) { run<typename decltype(t)::type>(); });
  finish_line();
}
