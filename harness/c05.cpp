// C05: where-expressions.
#include "vhcfg.h"
#include "drvw.h"
using namespace vh;
#define EA stdx::element_aligned
#define AI [[gnu::always_inline]]
template <class T> using wide = std::conditional_t<
  std::is_floating_point_v<T>, T,
  std::conditional_t<(sizeof(T) < sizeof(int)), int, std::make_unsigned_t<std::conditional_t<std::is_floating_point_v<T>, int, T>>>>;
struct Add { template <class T> bool operator()(T a, T b, T* r) const { return __builtin_add_overflow(a, b, r); } };
struct Sub { template <class T> bool operator()(T a, T b, T* r) const { return __builtin_sub_overflow(a, b, r); } };
struct Mul { template <class T> bool operator()(T a, T b, T* r) const { return __builtin_mul_overflow(a, b, r); } };
template <class T, class F> bool no_overflow(F f, T a, T b)
{
  if constexpr (std::is_integral_v<T> && std::is_signed_v<T> && sizeof(T) >= sizeof(int))
    {
      T r;
      return !f(a, b, &r);
    }
  else
    return true;
}
template <class M, class V, int S> [[gnu::always_inline]] inline M cmaskv()
{
  using T = typename V::value_type;
  const V v([](auto i) constexpr { return T(cmask(S, int(i), int(V::size()))); });
  return v != V(T(0));
}
template <class V, class T, bool SC, int S, class Op>
[[gnu::noinline]] void const_where1(const char* name, Op op, R2<T> ref)
{
  using M = typename V::mask_type;
  constexpr int N = V::size();
  T a[N], b[N], b1[N], o[4][N];
  bool k[N], kr[N];
  for (int i = 0; i < N; ++i)
    {
      a[i] = ctab<T>::val(S, i);
      b[i] = ctab<T>::nonzero(S + 1, SC ? 0 : i);
      if constexpr (std::is_integral_v<T>)
	b[i] = T(b[i] < 0 ? -b[i] : b[i]), b[i] = T(b[i] % 31 + 1);
      k[i] = cmask(S, i, N);
      kr[i] = cmask(S + 7, i, N);
    }
  clobber(a);
  clobber(kr);
  std::copy(b, b + N, b1);
  clobber(b);
  auto cb = [] {
    if constexpr (std::is_integral_v<T>)
      {
	auto f = [](int i) constexpr {
	  T x = ctab<T>::nonzero(S + 1, i);
	  x = T(x < 0 ? -x : x);
	  return T(x % 31 + 1);
	};
	if constexpr (SC)
	  return f(0);
	else
	  return V([&](auto i) constexpr { return f(int(i)); });
      }
    else if constexpr (SC)
      return ctab<T>::nonzero(S + 1, 0);
    else
      return V([](auto i) constexpr { return ctab<T>::nonzero(S + 1, int(i)); });
  };
  auto rb = [&] {
    if constexpr (SC)
      return b[0];
    else
      return load<V>(b);
  };
  {
    V v = load<V>(a);
    op(cmaskv<M, V, S>(), v, rb());
    v.copy_to(o[0], EA);
  }
  {
    V v = load<V>(a);
    op(loadm<M>(kr), v, cb());
    v.copy_to(o[1], EA);
  }
  {
    V v = load<V>(a);
    op(cmaskv<M, V, S>(), v, cb());
    v.copy_to(o[2], EA);
  }
  {
    V v = cvec<V, S>();
    op(cmaskv<M, V, S>(), v, cb());
    v.copy_to(o[3], EA);
  }
  where_const_check<T>(name, "constant mask", S, N, k, a, b1, o[0], ref);
  where_const_check<T>(name, "constant operand", S, N, kr, a, b1, o[1], ref);
  where_const_check<T>(name, "constant mask and operand", S, N, k, a, b1, o[2], ref);
  where_const_check<T>(name, "all constant", S, N, k, a, b1, o[3], ref);
}
template <class V, class T, bool SC, class Op> void const_where(const char* name, Op op, R2<T> ref)
{
  if (!want(name))
    return;
  const_where1<V, T, SC, 0>(name, op, ref);
  const_where1<V, T, SC, 1>(name, op, ref);
  const_where1<V, T, SC, 3>(name, op, ref);
  const_where1<V, T, SC, 9>(name, op, ref);
}

#if !VH_CONST
template <class T> void bool_where()
{ // where(bool, value): arithmetic and vector-free form
  const char* tn = tname<T>();
  auto id = [](auto a, auto) { return a; };
#define BW(NAME, X)                                                                                \
  if (want(NAME))                                                                                  \
    {                                                                                              \
      set_op(NAME, tn);                                                                            \
      for (T x : small_alphabet<T>())                                                              \
	for (T y : {T(1), T(3), T(2)})                                                             \
	  for (int kk = 0; kk < 2; ++kk)                                                           \
	    {                                                                                      \
	      T a = x, e = x, b = y;                                                               \
	      bool k = opaque(bool(kk));                                                           \
	      {                                                                                    \
		T& r = e;                                                                          \
		if (kk) { X(r); }                                                                  \
	      }                                                                                    \
	      {                                                                                    \
		auto r = [&]() -> decltype(auto) { return stdx::where(k, a); };                    \
		X(r());                                                                            \
	      }                                                                                    \
	      check_bool(same(a, e), "mask " + show(k) + " a=" + show(x) + " b=" + show(y) + " got " + show(a)); \
	      ++st.states;                                                                         \
	    }                                                                                      \
    }
#define O_AS(r) r = b
#define O_PL(r) r += b
#define O_MI(r) r -= b
#define O_MU(r) r *= b
#define O_DI(r) r /= b
#define O_MO(r) r %= b
#define O_AN(r) r &= b
#define O_OR(r) r |= b
#define O_XO(r) r ^= b
#define O_SL(r) r <<= b
#define O_SR(r) r >>= b
#define O_PP(r) ++r
#define O_MM(r) --r
#define O_P2(r) r++
#define O_M2(r) r--
  (void) id;
  BW("where(bool)=", O_AS)
  BW("where(bool)/=", O_DI)
  if constexpr (!std::is_signed_v<T> || std::is_floating_point_v<T>)
    {
      BW("where(bool)+=", O_PL)
      BW("where(bool)-=", O_MI)
      BW("where(bool)*=", O_MU)
      BW("where(bool)++", O_PP)
      BW("where(bool)--", O_MM)
      BW("where(bool)++ post", O_P2)
      BW("where(bool)-- post", O_M2)
    }
  if constexpr (std::is_integral_v<T>)
    {
      BW("where(bool)%=", O_MO)
      BW("where(bool)&=", O_AN)
      BW("where(bool)|=", O_OR)
      BW("where(bool)^=", O_XO)
      BW("where(bool)<<=", O_SL)
      BW("where(bool)>>=", O_SR)
    }
  if (want("-where(bool)"))
    {
      set_op("-where(bool)", tn);
      for (T x : {T(0), T(1), T(5)})
	for (int kk = 0; kk < 2; ++kk)
	  {
	    T a = x;
	    bool k = opaque(bool(kk));
	    T r = -stdx::where(k, a), rc = -stdx::where(k, std::as_const(a));
	    check_bool(same(r, kk ? T(-x) : x) && same(rc, r) && same(a, x), "a=" + show(x) + " got " + show(r));
	    ++st.states;
	  }
    }
}
#endif

template <class T> void run()
{
  using A = abi_of<T, VH_ABI>;
#if !VH_CONST && VH_ABI == 0
  bool_where<T>();
#endif
  if constexpr (!std::is_void_v<A>)
    {
      using V = stdx::simd<T, A>;
      using M = typename V::mask_type;
      using W = wide<T>;
      constexpr int N = V::size();
      constexpr bool I = std::is_integral_v<T>;
      constexpr int B = sizeof(T) * 8;
      auto any = [](T, T) { return true; };
      auto addok = [](T a, T b) { return no_overflow<T>(Add(), a, b); };
      auto subok = [](T a, T b) { return no_overflow<T>(Sub(), a, b); };
      auto mulok = [](T a, T b) { return no_overflow<T>(Mul(), a, b); };
      auto divok = [](T a, T b) {
	if constexpr (I)
	  {
	    if (b == 0)
	      return false;
	    if constexpr (std::is_signed_v<T>)
	      return !(sizeof(T) >= 4 && b == T(-1) && a == std::numeric_limits<T>::min());
	  }
	return !(VH_FINITE == 2 && std::is_floating_point_v<T>); // -ffast-math: through the reciprocal
      };
      auto incok = [](T a, T) { return no_overflow<T>(Add(), a, T(1)); };
      auto decok = [](T a, T) { return no_overflow<T>(Sub(), a, T(1)); };
      auto negok = [](T a, T) { return !(I && std::is_signed_v<T> && sizeof(T) >= 4 && a == std::numeric_limits<T>::min()); };
      auto rass = [](T, T b) { return b; };
      auto radd = [](T a, T b) { return T(W(a) + W(b)); };
      auto rsub = [](T a, T b) { return T(W(a) - W(b)); };
      auto rmul = [](T a, T b) {
	if constexpr (I)
	  return T((unsigned long long) a * (unsigned long long) b);
	else
	  return T(a * b);
      };
      auto rdiv = [](T a, T b) { return T(a / b); };
      auto rinc = [](T a, T) { return T(W(a) + W(1)); };
      auto rdec = [](T a, T) { return T(W(a) - W(1)); };
      auto rneg = [](T a, T) {
	if constexpr (I)
	  return T(-W(a));
	else
	  return T(-a);
      };
#if VH_CONST
#define VV(NAME, X, REF, OK) const_where<V, T, false>(NAME, [](const M k, V& a, auto b) AI { X; }, REF)
#define VS(NAME, X, REF, OK) const_where<V, T, true>(NAME " scalar", [](const M k, V& a, auto b) AI { X; }, REF)
#else
#define VV(NAME, X, REF, OK) where_op<T>(NAME, N, [](const bool* pk, const T* pa, const T* pb, T* o) { \
    V r = load<V>(pa); \
    [](const M k, V& a, const V b) AI { X; }(loadm<M>(pk), r, load<V>(pb)); r.copy_to(o, EA); }, REF, OK, false)
#define VS(NAME, X, REF, OK) where_op<T>(NAME " scalar", N, [](const bool* pk, const T* pa, const T* pb, T* o) { \
    V r = load<V>(pa); \
    [](const M k, V& a, const T b) AI { X; }(loadm<M>(pk), r, pb[0]); r.copy_to(o, EA); }, REF, OK, true)
#endif
#define BOTH(NAME, X, REF, OK) VV(NAME, X, REF, OK); VS(NAME, X, REF, OK)
      BOTH("where(k,a)=b", where(k, a) = b, rass, any);
      BOTH("where(k,a)+=b", where(k, a) += b, radd, addok);
      BOTH("where(k,a)-=b", where(k, a) -= b, rsub, subok);
      BOTH("where(k,a)*=b", where(k, a) *= b, rmul, mulok);
      BOTH("where(k,a)/=b", where(k, a) /= b, rdiv, divok);
      if constexpr (I)
	{
	  BOTH("where(k,a)%=b", where(k, a) %= b, ([](T a, T b) { return T(a % b); }), divok);
	  BOTH("where(k,a)&=b", where(k, a) &= b, ([](T a, T b) { return T(a & b); }), any);
	  BOTH("where(k,a)|=b", where(k, a) |= b, ([](T a, T b) { return T(a | b); }), any);
	  BOTH("where(k,a)^=b", where(k, a) ^= b, ([](T a, T b) { return T(a ^ b); }), any);
	  auto shok = [](T, T b) { return b >= T(0) && b < T(B < 32 ? 32 : B); };
	  auto rshl = [](T a, T b) { return B < 32 && b >= T(B) ? T(0) : T(std::make_unsigned_t<std::conditional_t<I, T, int>>(a) << int(b)); };
	  auto rshr = [](T a, T b) { return T(a >> int(b)); };
	  BOTH("where(k,a)<<=b", where(k, a) <<= b, rshl, shok);
	  BOTH("where(k,a)>>=b", where(k, a) >>= b, rshr, shok);
	}
      VV("++where(k,a)", ++where(k, a), rinc, incok);
      VV("--where(k,a)", --where(k, a), rdec, decok);
      VV("where(k,a)++", where(k, a)++, rinc, incok);
      VV("where(k,a)--", where(k, a)--, rdec, decok);
      VV("-where(k,a)", a = -where(k, a), rneg, negok);
      VV("-where(k,const a)", a = -where(k, std::as_const(a)), rneg, negok);
      VV("where(k,a)=-a", where(k, a) = -a, rneg, ([](T a, T) { return !(I && std::is_signed_v<T> && sizeof(T) >= 4 && a == std::numeric_limits<T>::min()); }));
#if !VH_CONST
      VS("where(k,a)=0", (void) b; where(k, a) = T(0), ([](T, T) { return T(0); }), any);
      if constexpr (!I)
	VS("where(k,a)=-0.", (void) b; where(k, a) = T(-0.), ([](T, T) { return T(-0.); }), any);
      VV("where(k&&a<b,a)=b", where(k && a < b, a) = b, ([](T a, T b) { return a < b ? b : a; }), any);
      // the right-hand side aliases the object
      VV("where(k,a)+=a", where(k, a) += a, ([](T a, T) { return T(W(a) + W(a)); }), ([](T a, T) { return no_overflow<T>(Add(), a, a); }));
      if constexpr (VH_ABI == 1 || VH_ABI > 100 && VH_ABI < 200)
	{
	  VS("where(k,a)=int", (void) b; where(k, a) = 3, ([](T, T) { return T(3); }), any);
	  // nested and sequenced
	  VV("where(!!k,a)=b", where(!!k, a) = b, rass, any);
	}
      // masks of masks
      const char* tn = tname<T>();
#define WM(NAME, X, E) where_mask(NAME, tn, N, [](const bool* pk, const bool* pa, const bool* pb, bool* o) { M r = loadm<M>(pa); [](const M k, M& a, const M b) AI { X; }(loadm<M>(pk), r, loadm<M>(pb)); r.copy_to(o, EA); }, [](bool k, bool a, bool b) -> bool { return E; })
      WM("where(k,m)=b", where(k, a) = b, k ? b : a);
      WM("where(k,m)=true", (void) b; where(k, a) = true, (void(b), k ? true : a));
      WM("where(k,m)=false", (void) b; where(k, a) = false, (void(b), k ? false : a));
      WM("where(k,m)=!m", (void) b; where(k, a) = !a, (void(b), k ? !a : a));
      if constexpr (VH_ABI > 100 && VH_ABI < 200)
	{ // the mask comes from another element type
	  using T2 = std::conditional_t<sizeof(T) == 4, short, int>;
	  using M2 = stdx::simd_mask<T2, A>;
	  where_op<T>("where(mask of other type,a)=b", N, [](const bool* pk, const T* pa, const T* pb, T* o) {
	    V r = load<V>(pa);
	    where(loadm<M2>(pk), r) = load<V>(pb);
	    r.copy_to(o, EA); }, rass, any, false);
	}
      // iteration over a mask
      if (want("for (i : where(k))"))
	{
	  set_op("for (i : where(k))", tn);
	  for (const auto& m : mask_patterns(N, 8))
	    {
	      bool k[64];
	      for (int i = 0; i < N; ++i)
		k[i] = m[i];
	      std::vector<int> got, exp;
	      const M mm = loadm<M>(k);
	      for (auto i : stdx::__proposed::where(mm))
		got.push_back(i);
	      for (int i = 0; i < N; ++i)
		if (k[i])
		  exp.push_back(i);
	      check_bool(got == exp, "mask " + show_mask(m));
	      ++st.states;
	    }
	}
#endif
    }
}
int main(int argc, char** argv)
{
  init(argc, argv);
  each_type([](auto t) { run<typename decltype(t)::type>(); });
  finish_line();
}
