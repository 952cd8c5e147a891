// C11: rounding, classification, comparison and exact math functions.
#include "vhcfg.h"
#include "drvx.h"
using namespace vh;
#define EA stdx::element_aligned
template <class T> void run()
{
  using A = abi_of<T, VH_ABI>;
  if constexpr (!std::is_void_v<A>)
    {
      using V = stdx::simd<T, A>;
      constexpr int N = V::size();
      constexpr auto all1 = [](T) { return true; };
      constexpr auto all2 = [](T, T) { return true; };
      using L = std::numeric_limits<T>;
#if !VH_CONST
#define U1(f, fl) funary<T, T>(#f, N, [](const T* p, T* o) { f(load<V>(p)).copy_to(o, EA); }, [](T x) -> T { return std::f(x); }, all1, fl);
#define U1L(f, fl) funary<T, T>(#f, N, [](const T* p, T* o) { f(load<V>(p)).copy_to(o, EA); }, [](T x) -> T { return libm_##f(x); }, all1, fl);
#define I1L(R, f, ok, fl) funary<T, R>(#f, N, [](const T* p, R* o) { f(load<V>(p)).copy_to(o, EA); }, [](T x) -> R { return libm_##f(x); }, ok, fl);
#define B1(f) funary<T, bool>(#f, N, [](const T* p, bool* o) { f(load<V>(p)).copy_to(o, EA); }, [](T x) -> bool { return std::f(x); }, all1, F_NOEXC | F_FULL);
#define I1(R, f, ok, fl) funary<T, R>(#f, N, [](const T* p, R* o) { f(load<V>(p)).copy_to(o, EA); }, [](T x) -> R { return std::f(x); }, ok, fl);
#define U2(f) fbinary<T, T>(#f, N, [](const T* p, const T* q, T* o) { f(load<V>(p), load<V>(q)).copy_to(o, EA); }, [](T x, T y) -> T { return std::f(x, y); }, all2);
#define B2(f) fbinary<T, bool>(#f, N, [](const T* p, const T* q, bool* o) { f(load<V>(p), load<V>(q)).copy_to(o, EA); }, [](T x, T y) -> bool { return std::f(x, y); }, all2, F_NOEXC);
      if constexpr (std::is_floating_point_v<T>)
	{
	  using IV = stdx::fixed_size_simd<int, N>;
	  using LV = stdx::fixed_size_simd<long, N>;
	  U1(trunc, F_FULL)
	  U1(floor, F_FULL)
	  U1(ceil, F_FULL)
	  U1(round, F_FULL)
	  // without SSE4.1 g++ expands scalar rint inline to code that ignores the rounding mode; this is not the library's doing
#ifdef __SSE4_1__
	  U1L(rint, F_MODES | F_FULL)
#else
	  U1L(rint, F_FULL)
#endif
	  U1L(nearbyint, F_MODES | F_FULL)
	  U1(fabs, F_FULL)
	  U1(abs, 0)
	  U1(sqrt, F_MODES)
	  U1(logb, F_FULL)
	  B1(isfinite)
	  B1(isinf)
	  B1(isnan)
	  B1(isnormal)
	  B1(signbit)
	  constexpr auto small = [](T x) { return std::fabs(x) < T(4e18); };
	  I1(int, fpclassify, all1, F_NOEXC | F_FULL)
	  I1(int, ilogb, all1, 0)
	  I1L(long, lrint, small, F_MODES)
	  I1L(llong, llrint, small, F_MODES)
	  I1(long, lround, small, 0)
	  I1(llong, llround, small, 0)
	  funary<T, T>("frexp fraction", N, [](const T* p, T* o) { IV e; frexp(load<V>(p), &e).copy_to(o, EA); }, [](T x) -> T { int e; return std::frexp(x, &e); }, all1, F_FULL);
	  funary<T, int>("frexp exponent", N, [](const T* p, int* o) { IV e; frexp(load<V>(p), &e); e.copy_to(o, EA); }, [](T x) -> int { int e; std::frexp(x, &e); return e; },
	    [](T x) -> bool { return std::isfinite(x); }, F_FULL);
	  funary<T, int>("frexp exponent next to inf and nan", N, [](const T* p, int* o) { IV e; const auto v = load<V>(p); frexp(v, &e); e.copy_to(o, EA); for (int i = 0; i < N; ++i) if (!(std::fabs(p[i]) <= L::max())) o[i] = 77; },
	    [](T x) -> int { int e; std::frexp(x, &e); return std::isfinite(x) ? e : 77; }, all1, 0);
	  funary<T, T>("modf fraction", N, [](const T* p, T* o) { V e; modf(load<V>(p), &e).copy_to(o, EA); }, [](T x) -> T { T e; return std::modf(x, &e); }, all1, F_FULL);
	  funary<T, T>("modf integer", N, [](const T* p, T* o) { V e; modf(load<V>(p), &e); e.copy_to(o, EA); }, [](T x) -> T { T e; std::modf(x, &e); return e; }, all1, F_FULL);
	  U2(copysign)
	  U2(fmod)
	  U2(remainder)
	  U2(nextafter)
	  U2(fdim)
	  // the sign of a zero chosen between +0 and -0 is not specified
	  constexpr auto nz = [](T a, T b) { return !(a == 0 && b == 0); };
	  fbinary<T, T>("fmin", N, [](const T* p, const T* q, T* o) { fmin(load<V>(p), load<V>(q)).copy_to(o, EA); }, [](T x, T y) -> T { return std::fmin(x, y); }, nz);
	  fbinary<T, T>("fmax", N, [](const T* p, const T* q, T* o) { fmax(load<V>(p), load<V>(q)).copy_to(o, EA); }, [](T x, T y) -> T { return std::fmax(x, y); }, nz);
	  fbinary<T, T>("fmin and fmax of zeros", N, [](const T* p, const T* q, T* o) { abs(fmin(load<V>(p), load<V>(q)) + fmax(load<V>(p), load<V>(q))).copy_to(o, EA); }, [](T x, T y) -> T { return std::fabs(std::fmin(x, y) + std::fmax(x, y)); }, all2);
	  fbinary<T, T>("fmod(v, scalar)", N, [](const T* p, const T* q, T* o) { fmod(load<V>(p), *q).copy_to(o, EA); V tmp = fmod(load<V>(p), *q); const V ref = fmod(load<V>(p), load<V>(q)); if (!all_of(tmp == fmod(load<V>(p), V(*q)) || isnan(tmp))) o[0] = 12345; else ref.copy_to(o, EA); }, [](T x, T y) -> T { return std::fmod(x, y); }, [](T, T y) { return !VH_FINITE || y != 0; }, F_FEW);
	  fbinary<T, T>("fmin(scalar, v)", N, [](const T* p, const T* q, T* o) { V tmp = fmin(*q, load<V>(p)); const V ref = fmin(load<V>(q), load<V>(p)); if (!all_of(tmp == fmin(V(*q), load<V>(p)) || isnan(tmp))) o[0] = 12345; else ref.copy_to(o, EA); }, [](T x, T y) -> T { return std::fmin(x, y); }, nz, F_FEW);
	  fbinary<T, T>("remquo remainder", N, [](const T* p, const T* q, T* o) { IV e; remquo(load<V>(p), load<V>(q), &e).copy_to(o, EA); }, [](T x, T y) -> T { int e; return std::remquo(x, y, &e); }, all2);
	  fbinary<T, int>("remquo quotient", N, [](const T* p, const T* q, int* o) { IV e = 0; remquo(load<V>(p), load<V>(q), &e); e.copy_to(o, EA); for (int i = 0; i < N; ++i) o[i] = o[i] < 0 ? -(-o[i] & 7) : o[i] & 7; },
	    [](T x, T y) -> int { int e; std::remquo(x, y, &e); return e < 0 ? -(-e & 7) : e & 7; }, [](T x, T y) -> bool { return std::isfinite(x) && y == y && y != 0; });
	  B2(isgreater)
	  B2(isgreaterequal)
	  B2(isless)
	  B2(islessequal)
	  B2(islessgreater)
	  B2(isunordered)
	  fternary<T>("fma", N, [](const T* a, const T* b, const T* c, T* o) { fma(load<V>(a), load<V>(b), load<V>(c)).copy_to(o, EA); }, [](T a, T b, T c) -> T { return std::fma(a, b, c); });
	  fint<T, int>("ldexp", N, [](const T* p, const int* q, T* o) { ldexp(load<V>(p), IV(q, EA)).copy_to(o, EA); }, [](T a, int i) -> T { return std::ldexp(a, i); });
	  fint<T, int>("scalbn", N, [](const T* p, const int* q, T* o) { scalbn(load<V>(p), IV(q, EA)).copy_to(o, EA); }, [](T a, int i) -> T { return std::scalbn(a, i); });
	  fint<T, long>("scalbln", N, [](const T* p, const long* q, T* o) { scalbln(load<V>(p), LV(q, EA)).copy_to(o, EA); }, [](T a, long i) -> T { return std::scalbln(a, i); });
	}
      else
	{
	  if constexpr (std::is_signed_v<T>)
	    unary<T>("abs", N, [](const T* p, T* o) { abs(load<V>(p)).copy_to(o, EA); }, [](T x) -> T { return T(x < 0 ? 0 - (unsigned long long)x : x); }, [](T x) { return sizeof(T) < sizeof(int) || x != L::min(); });
	  binary<T>("signbit", N, [](const T* p, const T*, T* o) { bool b[N]; signbit(load<V>(p)).copy_to(b, EA); for (int i = 0; i < N; ++i) o[i] = b[i]; }, [](T x, T) -> T { return x < 0; }, [](T, T) { return true; });
	}
#else
      if constexpr (std::is_floating_point_v<T>)
	{
#define C1(f)                                                                                      \
  {                                                                                                \
    const Tabs<T> t(3, false, N);                                                                  \
    T o[N];                                                                                        \
    const V r = f(cvec<V, 3>());                                                                   \
    r.copy_to(o, EA);                                                                              \
    const_check<T>(#f, "constants", 3, N, t.a, t.b, o, [](T a, T) -> T { return std::f(a); });     \
  }
	  C1(trunc) C1(floor) C1(ceil) C1(round) C1(rint) C1(nearbyint) C1(fabs) C1(abs) C1(logb)
#define D1(f)                                                                                      \
  {                                                                                                \
    const Tabs<T> t(3, false, N);                                                                  \
    T o[N];                                                                                        \
    bool b[N];                                                                                     \
    f(cvec<V, 3>()).copy_to(b, EA);                                                                \
    for (int i = 0; i < N; ++i)                                                                    \
      o[i] = b[i];                                                                                 \
    const_check<T>(#f, "constants", 3, N, t.a, t.b, o, [](T a, T) -> T { return std::f(a); });     \
  }
	  D1(isfinite) D1(isinf) D1(isnan) D1(isnormal) D1(signbit)
#define D2(f)                                                                                      \
  {                                                                                                \
    const Tabs<T> t(4, false, N);                                                                  \
    T o[N];                                                                                        \
    bool b[N];                                                                                     \
    f(cvec<V, 4>(), cvec<V, 5>()).copy_to(b, EA);                                                  \
    for (int i = 0; i < N; ++i)                                                                    \
      o[i] = b[i];                                                                                 \
    const_check<T>(#f, "constants", 4, N, t.a, t.b, o, [](T a, T c) -> T { return std::f(a, c); });\
  }
	  D2(isgreater) D2(isgreaterequal) D2(isless) D2(islessequal) D2(islessgreater) D2(isunordered)
	  {
	    const Tabs<T> t(6, false, N);
	    T o[N];
	    copysign(cvec<V, 6>(), cvec<V, 7>()).copy_to(o, EA);
	    const_check<T>("copysign", "constants", 6, N, t.a, t.b, o, [](T a, T c) -> T { return std::copysign(a, c); });
	    stdx::fixed_size_simd<int, N> e;
	    frexp(cvec<V, 6>(), &e).copy_to(o, EA);
	    const_check<T>("frexp fraction", "constants", 6, N, t.a, t.b, o, [](T a, T c) -> T { int e; return std::frexp(a, &e); });
	    int ei[N];
	    e.copy_to(ei, EA);
	    for (int i = 0; i < N; ++i)
	      o[i] = ei[i];
	    const_check<T>("frexp exponent", "constants", 6, N, t.a, t.b, o, [](T a, T c) -> T { int e; std::frexp(a, &e); return e; });
	  }
	}
#endif
    }
}
int main(int argc, char** argv)
{
  init(argc, argv);
  each_type([](auto t) { run<typename decltype(t)::type>(); });
  finish_line();
}
