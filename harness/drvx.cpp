#include "drvx.h"
namespace vh
{
// every sign, (nearly) every exponent, structured mantissas
template <class T> static std::vector<T> make_dense(bool all)
{
  std::vector<T> v = make_alphabet<T>(1000);
  if constexpr (std::is_same_v<T, ldouble>)
    {
      for (int e : {-16440, -16383, -16382, -16381, -100, -64, -63, -40, -3, -2, -1, 0, 1, 2, 3, 4, 20, 30, 31, 32, 33, 50, 61, 62, 63, 64, 65, 100, 16382, 16383})
	for (ldouble m : {1.0L, 1.25L, 1.5L, 1.75L, 1.9999L, 1 + LDBL_EPSILON, 2 - LDBL_EPSILON, 1.1L, 1.5L + LDBL_EPSILON})
	  {
	    v.push_back(std::ldexp(m, e));
	    v.push_back(-v.back());
	  }
      return v;
    }
  else
    {
      using I = std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint64_t>;
      constexpr int mb = std::numeric_limits<T>::digits - 1;
      constexpr int ne = 2 * std::numeric_limits<T>::max_exponent;
      constexpr int bias = ne / 2 - 1;
      std::vector<I> ms;
      for (int i = 0; i < 32; ++i)
	for (int d = -1; d <= 1; ++d)
	  ms.push_back(((I(i) << (mb - 5)) + I(d)) & ((I(1) << mb) - 1));
      for (int b = 0; b < mb; ++b)
	{
	  ms.push_back(I(1) << b);
	  if (all)
	    ms.push_back(((I(1) << mb) - 1) ^ (I(1) << b));
	}
      ms.push_back((I(1) << mb) / 3);
      ms.push_back((I(1) << mb) / 3 * 2 + 1);
      std::sort(ms.begin(), ms.end());
      ms.erase(std::unique(ms.begin(), ms.end()), ms.end());
      for (int e = 0; e < ne - !!finite; ++e)
	{
	  if (!all && !(e < 4 || e > ne - 5 || std::abs(e - bias) < (sizeof(T) == 4 ? 34 : 67) || e % (sizeof(T) == 4 ? 16 : 64) == 3))
	    continue;
	  for (I m : ms)
	    for (int s = 0; s < 2; ++s)
	      {
		if (e == ne - 1 && m != 0 && !(m >> (mb - 1)))
		  continue; // signaling NaN
		const I bits = (I(s) << (sizeof(T) * 8 - 1)) | (I(e) << mb) | m;
		T x;
		std::memcpy(&x, &bits, sizeof(T));
		if (!finite || !special(x))
		  v.push_back(x);
	      }
	}
      return v;
    }
}
template <class T> static const std::vector<T>& dense()
{
  static const std::vector<T> v = make_dense<T>(deep);
  return v;
}
// neighbours in v are similar values (all-normal vectors); the scattered copy mixes classes
template <class T> static void scatter(std::vector<T>& v)
{
  const std::size_t n = v.size();
  std::size_t step = n * 3 / 8 | 1;
  auto gcd = [](std::size_t a, std::size_t b) {
    while (b)
      {
	auto t = a % b;
	a = b;
	b = t;
      }
    return a;
  };
  while (gcd(step, n) != 1)
    step += 2;
  std::vector<T> w(v);
  for (std::size_t i = 0, k = 0; i < n; ++i, k = (k + step) % n)
    w.push_back(v[k]);
  v = w;
}
#define VH_L(R, g, P)                                                                              \
  template <> P##f R(float x)                                                                      \
  {                                                                                                \
    static P##f (*volatile p)(float) = g##f;                                                       \
    return p(x);                                                                                   \
  }                                                                                                \
  template <> P##d R(double x)                                                                     \
  {                                                                                                \
    static P##d (*volatile p)(double) = g;                                                         \
    return p(x);                                                                                   \
  }                                                                                                \
  template <> P##l R(ldouble x)                                                                    \
  {                                                                                                \
    static P##l (*volatile p)(ldouble) = g##l;                                                     \
    return p(x);                                                                                   \
  }
using A_f = float;
using A_d = double;
using A_l = ldouble;
using B_f = long;
using B_d = long;
using B_l = long;
using C_f = llong;
using C_d = llong;
using C_l = llong;
VH_L(libm_rint, rint, A_)
VH_L(libm_nearbyint, nearbyint, A_)
VH_L(libm_lrint, lrint, B_)
VH_L(libm_llrint, llrint, C_)
static const int modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
static const char* mname[] = {"", " (rounding up)", " (rounding down)", " (rounding to zero)"};

template <class T, class R> void funary(const char* name, int N, X1<T, R> op, S1<T, R> ref, P1<T> valid, int flags)
{
  if (!want(name))
    return;
  set_op(name, tname<T>());
  std::vector<T> A;
  for (T x : (flags & F_FEW ? make_alphabet<T>(1000) : dense<T>()))
    if (valid(x))
      A.push_back(x);
  scatter(A);
  const std::size_t M = A.size();
  for (int i = 0; i < N; ++i)
    A.push_back(T(A[i]));
  R out[64];
  unsigned bads = 0;
  for (int m = 0; m < (flags & F_MODES ? 4 : 1); ++m)
    {
      std::vector<R> r;
      r.reserve(A.size());
      std::fesetround(modes[m]);
      for (T x : A)
	r.push_back(ref(x));
      for (std::size_t i = 0; i < M; ++i)
	{
	  if (flags & F_NOEXC)
	    {
	      std::feclearexcept(FE_ALL_EXCEPT);
	      op(&A[i], out);
	      if (int e = std::fetestexcept(FE_ALL_EXCEPT))
		bad("raises floating-point exception " + std::to_string(e) + " for a=" + show(A[i]) + "...");
	    }
	  else
	    op(&A[i], out);
	  for (int l = 0; l < N; ++l)
	    if (__builtin_expect(!same<R>(out[l], r[i + l]), 0))
	      {
		bad("lane " + std::to_string(l) + " a=" + show(A[i + l]) + mname[m] + " expected " + show<R>(r[i + l]) + " got " + show(out[l]));
		if (++bads > 200)
		  {
		    std::fesetround(FE_TONEAREST);
		    return;
		  }
	      }
	}
      std::fesetround(FE_TONEAREST);
      st.states += M;
      st.execs += M;
      st.trans += M * N;
    }
  VH_SAMPLE(std::string(name) + " " + tname<T>() + " a=" + show(A[M / 2]) + " N=" + std::to_string(N));
  if constexpr (std::is_same_v<T, float>)
    if (deep && (flags & F_FULL) && std::getenv("VH_FULL"))
      {
	float a[64];
	for (std::uint64_t b = 0; b < (1ull << 32); b += N)
	  {
	    bool ok = true;
	    for (int l = 0; l < N; ++l)
	      {
		const std::uint32_t u = std::uint32_t(b + l);
		std::memcpy(&a[l], &u, 4);
		if (!valid(a[l]) || ((u & 0x7f800000) == 0x7f800000 && (u & 0x7fffff) && !(u & 0x400000)))
		  a[l] = 1;
	      }
	    op(a, out);
	    for (int l = 0; l < N; ++l)
	      ok = ok && same<R>(out[l], ref(a[l]));
	    if (!ok)
	      for (int l = 0; l < N; ++l)
		if (!same<R>(out[l], ref(a[l])))
		  {
		    bad("lane " + std::to_string(l) + " a=" + show(a[l]) + " expected " + show(ref(a[l])) + " got " + show(out[l]));
		    if (++bads > 200)
		      return;
		  }
	  }
	st.states += (1ull << 32) / N;
	st.execs += (1ull << 32) / N;
	st.trans += 1ull << 32;
      }
}
template <class T, class R> void fbinary(const char* name, int N, X2<T, R> op, S2<T, R> ref, P2<T> valid, int flags)
{
  if (!want(name))
    return;
  set_op(name, tname<T>());
  std::vector<std::pair<T, T>> P;
  const auto al = deep && !(flags & F_FEW) ? make_alphabet<T>(1000) : flags & F_FEW ? small_alphabet<T>() : alphabet<T>();
  for (T a : al)
    for (T b : al)
      if (valid(a, b))
	P.emplace_back(a, b);
  if (!(flags & F_FEW))
    {
      const auto big = make_alphabet<T>(1000);
      for (std::size_t i = 0; i < big.size(); ++i)
	for (std::size_t k : {std::size_t(0), std::size_t(1), std::size_t(2), std::size_t(5), big.size() / 2})
	  if (valid(big[i], big[(i + k) % big.size()]))
	    P.emplace_back(big[i], big[(i + k) % big.size()]);
    }
  std::stable_partition(P.begin(), P.end(), [](auto& p) { return std::isnormal(p.first) && std::isnormal(p.second); });
  scatter(P);
  const std::size_t M = P.size();
  std::vector<T> A, B;
  std::vector<R> r;
  for (std::size_t i = 0; i < M + N; ++i)
    {
      A.push_back(P[i % M].first);
      B.push_back(P[i % M].second);
      r.push_back(ref(A[i], B[i]));
    }
  R out[64];
  unsigned bads = 0;
  for (std::size_t i = 0; i < M; ++i)
    {
      if (flags & F_NOEXC)
	std::feclearexcept(FE_ALL_EXCEPT);
      op(&A[i], &B[i], out);
      if (flags & F_NOEXC)
	if (int e = std::fetestexcept(FE_ALL_EXCEPT))
	  bad("raises floating-point exception " + std::to_string(e) + " for a=" + show(A[i]) + "...");
      for (int l = 0; l < N; ++l)
	if (__builtin_expect(!same<R>(out[l], r[i + l]), 0))
	  {
	    bad("lane " + std::to_string(l) + " a=" + show(A[i + l]) + " b=" + show(B[i + l]) + " expected " + show<R>(r[i + l]) + " got " + show(out[l]));
	    if (++bads > 200)
	      return;
	  }
    }
  st.states += M;
  st.execs += M;
  st.trans += M * N;
}
template <class T> void fternary(const char* name, int N, X3<T> op, S3<T> ref)
{
  if (!want(name))
    return;
  set_op(name, tname<T>());
  std::vector<T> A, B, C, r;
  const auto& sm = small_alphabet<T>();
  const auto& al = alphabet<T>();
  auto add = [&](T a, T b, T c) {
    A.push_back(a);
    B.push_back(b);
    C.push_back(c);
    r.push_back(ref(a, b, c));
  };
  for (T a : sm)
    for (T b : sm)
      for (T c : sm)
	add(a, b, c);
  // products that need the full width before the addition
  for (T a : al)
    for (T b : al)
      {
	add(a, b, -(a * b));
	add(a, b, -(a * b) * (1 + std::numeric_limits<T>::epsilon()));
      }
  const std::size_t M = A.size();
  for (int i = 0; i < N; ++i)
    {
      A.push_back(T(A[i]));
      B.push_back(T(B[i]));
      C.push_back(T(C[i]));
      r.push_back(T(r[i]));
    }
  T out[64];
  unsigned bads = 0;
  for (std::size_t i = 0; i < M; ++i)
    {
      op(&A[i], &B[i], &C[i], out);
      for (int l = 0; l < N; ++l)
	if (__builtin_expect(!same<T>(out[l], r[i + l]), 0))
	  {
	    bad("lane " + std::to_string(l) + " a=" + show(A[i + l]) + " b=" + show(B[i + l]) + " c=" + show(C[i + l]) + " expected " + show(r[i + l]) + " got "
		+ show(out[l]));
	    if (++bads > 200)
	      return;
	  }
    }
  st.states += M;
  st.execs += M;
  st.trans += M * N;
}
template <class T, class I> void fint(const char* name, int N, XI<T, I> op, SI<T, I> ref)
{
  if (!want(name))
    return;
  set_op(name, tname<T>());
  std::vector<T> A, r;
  std::vector<I> B;
  constexpr int D = std::numeric_limits<T>::digits, E = std::numeric_limits<T>::max_exponent;
  std::vector<I> is;
  if constexpr (std::is_unsigned_v<I>)
    is = {0, 1, 2, 3, 4, 5, 7};
  else
    is = {I(0), I(1), I(-1), I(2), I(-2), I(3), I(-7), I(10), I(D - 1), I(-D), I(-D - 1), I(E - 1), I(E), I(-E), I(-E + 1), I(-E + 2), I(-E - D), I(-E - D + 1), I(2 * E), I(-2 * E), I(2 * E + D), I(-2 * E - D - 3),
	  std::numeric_limits<I>::max(), std::numeric_limits<I>::min(), I(INT_MAX), I(INT_MIN), I(40000), I(-40000)};
  for (T a : deep ? make_alphabet<T>(1000) : std::is_unsigned_v<I> ? small_alphabet<T>() : alphabet<T>())
    for (I i : is)
      {
	if (std::is_unsigned_v<I> && !(std::fabs(a) <= 1))
	  continue;
	A.push_back(a);
	B.push_back(i);
	r.push_back(ref(a, i));
      }
  const std::size_t M = A.size();
  for (int i = 0; i < N; ++i)
    {
      A.push_back(T(A[i]));
      B.push_back(I(B[i]));
      r.push_back(T(r[i]));
    }
  T out[64];
  unsigned bads = 0;
  for (std::size_t i = 0; i < M; ++i)
    {
      op(&A[i], &B[i], out);
      for (int l = 0; l < N; ++l)
	if (__builtin_expect(!same<T>(out[l], r[i + l]), 0))
	  {
	    bad("lane " + std::to_string(l) + " a=" + show(A[i + l]) + " i=" + show(B[i + l]) + " expected " + show(r[i + l]) + " got " + show(out[l]));
	    if (++bads > 200)
	      return;
	  }
    }
  st.states += M;
  st.execs += M;
  st.trans += M * N;
}
// distance of got from the exact value e in units of the last place of T at e
template <class T> static bool close(T got, ldouble e, ldouble ulps, ldouble abserr = 0)
{
  using L = std::numeric_limits<T>;
  const T et = T(e);
  if (std::isnan(e))
    return std::isnan(got);
  if (std::isinf(e))
    return got == et;
  if (std::isnan(got))
    return false;
  if (std::isinf(got)) // overflow only where the exact value is within reach of it
    return std::fabs(e) >= ldouble(L::max()) * (1 - ulps * ldouble(L::epsilon())) && (got > 0) == (e > 0);
  if (e == 0)
    return got == 0 && std::signbit(got) == std::signbit(e);
  int x;
  std::frexp(e, &x);
  const ldouble ulp = std::ldexp(1.0L, std::max(x, L::min_exponent) - L::digits);
  return std::fabs(ldouble(got) - e) <= (ulps + 0.5L) * ulp + abserr;
}
template <class T> void near1(const char* name, int N, X1<T, T> op, S1<ldouble, ldouble> ref, P1<T> valid, int ulps, ldouble rel, bool pi)
{
  if (!want(name))
    return;
  set_op(name, tname<T>());
  std::vector<T> A, D = dense<T>();
  if (pi)
    {
      const ldouble pi4 = 0.785398163397448309615660845819875721L;
      auto add = [&](ldouble k) {
	const T x = T(k * pi4);
	T lo = x, hi = x;
	for (int i = 0; i < (deep ? 4 : 2); ++i)
	  {
	    D.push_back(lo);
	    D.push_back(-hi);
	    lo = std::nextafter(lo, T(0));
	    hi = std::nextafter(hi, T(4 * hi));
	    D.push_back(hi);
	    D.push_back(-lo);
	  }
      };
      for (int k = 1; k < (deep ? 20000 : 1200); ++k)
	add(k);
      for (ldouble k = 1200; k < 1e12L; k *= deep ? 1.0003L : 1.01L)
	{
	  add(std::floor(k));
	  add(std::floor(k) + 1);
	}
      for (int e = 4; e < 52; ++e)
	for (int d = -3; d <= 3; ++d)
	  add(std::ldexp(1.0L, e) + d);
      for (T t : {T(393382), T(527449), T(0x1p31), T(0x1p30), T(1025 * pi4), T(6 * pi4), T(pi4)})
	for (int d = -20; d < 20; ++d)
	  {
	    T x = t;
	    for (int i = 0; i < std::abs(d); ++i)
	      x = std::nextafter(x, d < 0 ? T(0) : T(2 * t));
	    D.push_back(d & 1 ? x : -x);
	  }
    }
  for (T x : D)
    if (valid(x))
      A.push_back(x);
  if (pi) // vectors of small arguments only, of moderate arguments only, and mixed ones
    std::sort(A.begin(), A.end(), [](T a, T b) { return std::fabs(a) < std::fabs(b); });
  scatter(A);
  const std::size_t M = A.size();
  std::vector<ldouble> r;
  for (std::size_t i = 0; i < M; ++i)
    r.push_back(ref(A[i]));
  for (int i = 0; i < N; ++i)
    {
      A.push_back(T(A[i]));
      r.push_back(ldouble(r[i]));
    }
  T out[64];
  unsigned bads = 0;
  const std::size_t step = deep || N < 3 ? 1 : N % 2 ? 2 : 3;
  for (std::size_t i = 0; i < M; i += step)
    {
      op(&A[i], out);
      for (int l = 0; l < N; ++l)
	if (__builtin_expect(!close(out[l], r[i + l], ulps, rel == 0 ? 0 : rel * std::fabs(A[i + l])), 0))
	  {
	    bad("lane " + std::to_string(l) + " a=" + show(A[i + l]) + " expected " + show(T(r[i + l])) + " got " + show(out[l]));
	    if (++bads > 200)
	      return;
	  }
      ++st.states;
      ++st.execs;
      st.trans += N;
    }
  VH_SAMPLE(std::string(name) + " " + tname<T>() + " a=" + show(A[M / 2]) + " N=" + std::to_string(N));
}
// P: tuples of operands, walked once with those that are normal only and once mixed
template <class T, int K, class Op, class Ref>
static void walk(std::vector<std::array<T, K>> P, int N, int bcast, ldouble ulps, ldouble abserr, Op op, Ref ref)
{
  std::vector<std::array<T, K>> Q;
  for (auto& p : P)
    {
      bool n = true;
      for (T x : p)
	n = n && std::isnormal(x);
      if (n)
	Q.push_back(p);
    }
  auto mix = [](auto& v) {
    const auto w = v;
    if (!v.empty())
      scatter(v);
    v.erase(v.begin(), v.begin() + w.size());
  };
  mix(Q);
  mix(P);
  Q.insert(Q.end(), P.begin(), P.end());
  const std::size_t M = Q.size();
  std::vector<T> A[K];
  T buf[K][64];
  std::vector<ldouble> r;
  for (std::size_t i = 0; i < M + N; ++i)
    {
      for (int k = 0; k < K; ++k)
	A[k].push_back(Q[i % M][k]);
      r.push_back(bcast ? 0 : ref(Q[i % M]));
    }
  T out[64];
  unsigned bads = 0;
  for (std::size_t i = 0; i < M; ++i)
    {
      const T* p[K];
      for (int k = 0; k < K; ++k)
	if (bcast >> k & 1)
	  {
	    std::fill_n(buf[k], N, A[k][i]);
	    p[k] = buf[k];
	  }
	else
	  p[k] = &A[k][i];
      op(p, out);
      for (int l = 0; l < N; ++l)
	{
	  std::array<T, K> args;
	  for (int k = 0; k < K; ++k)
	    args[k] = p[k][l];
	  const ldouble e = bcast ? ref(args) : r[i + l];
	  if (__builtin_expect(!close(out[l], e, ulps, abserr), 0))
	    {
	      std::string s = "lane " + std::to_string(l);
	      for (int k = 0; k < K; ++k)
		s += std::string(" ") + char('a' + k) + "=" + show(args[k]);
	      bad(s + " expected " + show(T(e)) + " got " + show(out[l]));
	      if (++bads > 200)
		return;
	    }
	}
    }
  st.states += M;
  st.execs += M;
  st.trans += M * N;
}
template <class T> void near2(const char* name, int N, X2<T, T> op, S2<ldouble, ldouble> ref, P2<T> valid, int ulps, int bcast)
{
  if (!want(name))
    return;
  set_op(name, tname<T>());
  std::vector<std::array<T, 2>> P;
  const auto al = bcast ? small_alphabet<T>() : deep ? make_alphabet<T>(1000) : alphabet<T>();
  for (T a : al)
    for (T b : al)
      if (valid(a, b))
	P.push_back({a, b});
  if (!bcast)
    {
      const auto& d = dense<T>();
      for (std::size_t i = 0; i < d.size(); ++i)
	for (std::size_t k : {std::size_t(1), std::size_t(150), std::size_t(601), std::size_t(4007)})
	  if (valid(d[i], d[(i + k) % d.size()]) && (deep || (i + k) % 3 == 0))
	    P.push_back({d[i], d[(i + k) % d.size()]});
    }
  walk<T, 2>(P, N, bcast, ulps, 0, [&](const T* const* p, T* o) { op(p[0], p[1], o); }, [&](const std::array<T, 2>& a) { return ref(a[0], a[1]); });
}
template <class T> void near3(const char* name, int N, X3<T> op, S3<ldouble> ref, int ulps, int bcast)
{
  if (!want(name))
    return;
  set_op(name, tname<T>());
  std::vector<std::array<T, 3>> P;
  const auto& sm = small_alphabet<T>();
  const auto& al = alphabet<T>();
  for (T a : sm)
    for (T b : sm)
      for (T c : sm)
	P.push_back({a, b, c});
  if (!bcast)
    {
      for (std::size_t i = 0; i < al.size(); ++i)
	for (std::size_t j = 0; j < al.size(); ++j)
	  {
	    P.push_back({al[i], al[j], al[(i + j * 3) % al.size()]});
	    P.push_back({al[(i + j * 3) % al.size()], al[i], al[j]});
	  }
      const auto& d = dense<T>();
      for (std::size_t i = 0; i < d.size(); i += deep ? 1 : 3)
	for (std::size_t k : {std::size_t(1), std::size_t(601)})
	  P.push_back({d[i], d[(i + k) % d.size()], d[(i + k * 5) % d.size()]});
    }
  walk<T, 3>(P, N, bcast, ulps, 0, [&](const T* const* p, T* o) { op(p[0], p[1], p[2], o); }, [&](const std::array<T, 3>& a) { return ref(a[0], a[1], a[2]); });
}
template <class T>
void near_list(const char* name, int N, const std::vector<std::array<T, 3>>& list, X3<T> op, S3<ldouble> ref, ldouble ulps, ldouble abserr)
{
  if (!want(name))
    return;
  set_op(name, tname<T>());
  walk<T, 3>(list, N, 0, ulps, abserr, [&](const T* const* p, T* o) { op(p[0], p[1], p[2], o); }, [&](const std::array<T, 3>& a) { return ref(a[0], a[1], a[2]); });
}
#undef VH_FE
#define VH_FE
VH_F(float) VH_F(double) VH_F(ldouble)
} // namespace vh
