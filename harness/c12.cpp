// C12: sin, cos, hypot and the functions forwarded to the scalar library.
#include "vhcfg.h"
#include "drvx.h"
using namespace vh;
#define EA stdx::element_aligned
template <class T> ldouble hypot2(ldouble x, ldouble y)
{
  if (std::isinf(x) || std::isinf(y))
    return INFINITY;
  if constexpr (std::is_same_v<T, ldouble>)
    return std::hypot(x, y);
  else
    return std::sqrt(x * x + y * y);
}
template <class T> ldouble hypot3(ldouble x, ldouble y, ldouble z)
{
  if (std::isinf(x) || std::isinf(y) || std::isinf(z))
    return INFINITY;
  if constexpr (std::is_same_v<T, ldouble>)
    return std::isnan(z) ? z : std::hypot(std::hypot(x, y), z);
  else
    return std::sqrt(x * x + y * y + z * z);
}
template <class T> void run()
{
  using A = abi_of<T, VH_ABI>;
  if constexpr (!std::is_void_v<A>)
    {
      using V = stdx::simd<T, A>;
      constexpr int N = V::size();
      constexpr auto all1 = [](T) { return true; };
      constexpr auto all2 = [](T, T) { return true; };
#if VH_CONST
#define C1(f)                                                                                      \
  {                                                                                                \
    const Tabs<T> t(3, false, N);                                                                  \
    T o[N];                                                                                        \
    const V r = f(cvec<V, 3>());                                                                   \
    for (int i = 0; i < N; ++i)                                                                    \
      {                                                                                            \
	const T e = std::f(t.a[i]), x = r[i];                                                      \
	o[i] = std::fabs(e - x) <= 4 * std::numeric_limits<T>::epsilon() * std::fabs(e) ? e : x;   \
      }                                                                                            \
    const_check<T>(#f, "constants", 3, N, t.a, t.b, o, [](T a, T) -> T { return std::f(a); });     \
  }
      C1(sin) C1(cos) C1(exp) C1(atan)
      {
	const Tabs<T> t(6, false, N);
	T o[N];
	const V r = hypot(cvec<V, 6>(), cvec<V, 7>());
	for (int i = 0; i < N; ++i)
	  {
	    const T e = std::hypot(t.a[i], t.b[i]), x = r[i];
	    o[i] = std::fabs(e - x) <= 4 * std::numeric_limits<T>::epsilon() * std::fabs(e) ? e : x;
	  }
	const_check<T>("hypot", "constants", 6, N, t.a, t.b, o, [](T a, T b) -> T { return std::hypot(a, b); });
      }
#elif !defined VH_FWD
      constexpr ldouble rel = std::is_same_v<T, float> ? 0x1p-51L : std::is_same_v<T, double> ? 0x1p-98L : 0;
      near1<T>("sin", N, [](const T* p, T* o) { sin(load<V>(p)).copy_to(o, EA); }, [](ldouble x) -> ldouble { return std::sin(x); }, all1, 3, rel, true);
      near1<T>("cos", N, [](const T* p, T* o) { cos(load<V>(p)).copy_to(o, EA); }, [](ldouble x) -> ldouble { return std::cos(x); }, all1, 3, rel, true);
      near2<T>("hypot", N, [](const T* p, const T* q, T* o) { hypot(load<V>(p), load<V>(q)).copy_to(o, EA); }, hypot2<T>, all2, 1);
      near2<T>("hypot(v, scalar)", N, [](const T* p, const T* q, T* o) { hypot(load<V>(p), *q).copy_to(o, EA); }, hypot2<T>, all2, 1, 2);
      near2<T>("hypot(scalar, v)", N, [](const T* p, const T* q, T* o) { hypot(*p, load<V>(q)).copy_to(o, EA); }, hypot2<T>, all2, 1, 1);
      near3<T>("hypot of three", N, [](const T* p, const T* q, const T* r, T* o) { hypot(load<V>(p), load<V>(q), load<V>(r)).copy_to(o, EA); }, hypot3<T>, 2);
#if VH_ABI < 100 || defined VH_DEEP
      near3<T>("hypot(scalar, v, v)", N, [](const T* p, const T* q, const T* r, T* o) { hypot(*p, load<V>(q), load<V>(r)).copy_to(o, EA); }, hypot3<T>, 2, 1);
      near3<T>("hypot(v, scalar, v)", N, [](const T* p, const T* q, const T* r, T* o) { hypot(load<V>(p), *q, load<V>(r)).copy_to(o, EA); }, hypot3<T>, 2, 2);
      near3<T>("hypot(v, v, scalar)", N, [](const T* p, const T* q, const T* r, T* o) { hypot(load<V>(p), load<V>(q), *r).copy_to(o, EA); }, hypot3<T>, 2, 4);
      near3<T>("hypot(v, scalar, scalar)", N, [](const T* p, const T* q, const T* r, T* o) { hypot(load<V>(p), *q, *r).copy_to(o, EA); }, hypot3<T>, 2, 6);
      near3<T>("hypot(scalar, v, scalar)", N, [](const T* p, const T* q, const T* r, T* o) { hypot(*p, load<V>(q), *r).copy_to(o, EA); }, hypot3<T>, 2, 5);
      near3<T>("hypot(scalar, scalar, v)", N, [](const T* p, const T* q, const T* r, T* o) { hypot(*p, *q, load<V>(r)).copy_to(o, EA); }, hypot3<T>, 2, 3);
#endif
#else
#define U1(f) near1<T>(#f, N, [](const T* p, T* o) { f(load<V>(p)).copy_to(o, EA); }, [](ldouble x) -> ldouble { return std::f(T(x)); }, all1, 2);
#define U2(f)                                                                                      \
  near2<T>(#f, N, [](const T* p, const T* q, T* o) { f(load<V>(p), load<V>(q)).copy_to(o, EA); },  \
    [](ldouble x, ldouble y) -> ldouble { return std::f(T(x), T(y)); }, all2, 2);                  \
  near2<T>(#f "(v, scalar)", N, [](const T* p, const T* q, T* o) { f(load<V>(p), *q).copy_to(o, EA); },  \
    [](ldouble x, ldouble y) -> ldouble { return std::f(T(x), T(y)); }, all2, 2, 2);               \
  near2<T>(#f "(scalar, v)", N, [](const T* p, const T* q, T* o) { f(*p, load<V>(q)).copy_to(o, EA); },  \
    [](ldouble x, ldouble y) -> ldouble { return std::f(T(x), T(y)); }, all2, 1, 1);
      U1(acos) U1(asin) U1(atan) U1(tan) U1(acosh) U1(asinh) U1(atanh) U1(cosh) U1(sinh) U1(tanh)
      U1(exp) U1(exp2) U1(expm1) U1(log) U1(log10) U1(log1p) U1(log2) U1(cbrt) U1(erf) U1(erfc) U1(lgamma) U1(tgamma)
      U2(atan2) U2(pow)
      // special functions: the scalar functions throw outside of their domain, so a grid inside of it
      std::vector<std::array<T, 3>> g, gn;
      for (int i = 0; i < 21; ++i)
	for (int j = 0; j < 6; ++j)
	  {
	    g.push_back({T(i * T(0.04) + T(0.01)), T(j * T(0.15) + T(0.05)), T(((i + j) % 7) * T(0.11) + T(0.02))});
	    gn.push_back({T(i * T(0.04) + T(0.01)), T(i % 5), T(j % (i % 5 + 1))});
	  }
#define S1(f) near_list<T>(#f, N, g, [](const T* p, const T*, const T*, T* o) { f(load<V>(p)).copy_to(o, EA); }, [](ldouble x, ldouble, ldouble) -> ldouble { return std::f(T(x)); }, 64, 0);
#define S2(f) near_list<T>(#f, N, g, [](const T* p, const T* q, const T*, T* o) { f(load<V>(p), load<V>(q)).copy_to(o, EA); }, [](ldouble x, ldouble y, ldouble) -> ldouble { return std::f(T(x), T(y)); }, 64, 0);
#define S3(f) near_list<T>(#f, N, g, [](const T* p, const T* q, const T* r, T* o) { f(load<V>(p), load<V>(q), load<V>(r)).copy_to(o, EA); }, [](ldouble x, ldouble y, ldouble z) -> ldouble { return std::f(T(x), T(y), T(z)); }, 64, 0);
      using UV = stdx::fixed_size_simd<unsigned, N>;
#define N1(f) near_list<T>(#f, N, gn, [](const T* p, const T* q, const T*, T* o) { f(UV([&](auto i) { return unsigned(q[i]); }), load<V>(p)).copy_to(o, EA); }, [](ldouble x, ldouble n, ldouble) -> ldouble { return std::f(unsigned(n), T(x)); }, 64, 0x1p-16L);
#define N2(f) near_list<T>(#f, N, gn, [](const T* p, const T* q, const T* r, T* o) { f(UV([&](auto i) { return unsigned(q[i]); }), UV([&](auto i) { return unsigned(r[i]); }), load<V>(p)).copy_to(o, EA); }, \
    [](ldouble x, ldouble n, ldouble m) -> ldouble { return std::f(unsigned(n), unsigned(m), T(x)); }, 64, 0x1p-16L);
      S1(comp_ellint_1) S1(comp_ellint_2) S1(expint) S1(riemann_zeta)
      S2(beta) S2(comp_ellint_3) S2(cyl_bessel_i) S2(cyl_bessel_j) S2(cyl_bessel_k) S2(cyl_neumann) S2(ellint_1) S2(ellint_2)
      S3(ellint_3)
      N1(hermite) N1(laguerre) N1(legendre) N1(sph_bessel) N1(sph_neumann)
      N2(assoc_laguerre) N2(assoc_legendre) N2(sph_legendre)
#endif
    }
}
int main(int argc, char** argv)
{
  init(argc, argv);
  each_type([](auto t) { run<typename decltype(t)::type>(); });
  finish_line();
}
