// C18: expressions of several operators, evaluated in one optimized function, against the same operators one after the other.
#include "vhcfg.h"
#define EA stdx::element_aligned
using namespace vh;
#ifndef VH_FAM
#define VH_FAM 15
#endif
template <class T> using wide = std::conditional_t<
  std::is_floating_point_v<T>, T,
  std::conditional_t<(sizeof(T) < sizeof(int)), unsigned, std::make_unsigned_t<std::conditional_t<std::is_floating_point_v<T>, int, T>>>>;
template <class T> constexpr bool is_int = std::is_integral_v<T>;
template <class T> constexpr bool overflows = std::is_integral_v<T> && std::is_signed_v<T> && sizeof(T) >= sizeof(int);
#define AI [[gnu::always_inline]] static inline

// ---------------------------------------------------------------- operators
#define ARITH(NAME, SYM, BUILTIN)                                                                  \
  struct NAME                                                                                      \
  {                                                                                                \
    static constexpr const char* n = #SYM;                                                         \
    template <class T> static constexpr bool has = true;                                           \
    template <class V> AI V v(const V& a, const V& b) { return a SYM b; }                          \
    template <class T> static T s(T a, T b, bool& ok)                                              \
    {                                                                                              \
      if constexpr (overflows<T>)                                                                  \
	{                                                                                          \
	  T r;                                                                                     \
	  if (BUILTIN(a, b, &r))                                                                   \
	    ok = false;                                                                            \
	  return r;                                                                                \
	}                                                                                          \
      else if constexpr (std::is_floating_point_v<T>)                                              \
	return a SYM b;                                                                            \
      else                                                                                         \
	return T(wide<T>(a) SYM wide<T>(b));                                                       \
    }                                                                                              \
  };
ARITH(Add, +, __builtin_add_overflow)
ARITH(Sub, -, __builtin_sub_overflow)
ARITH(Mul, *, __builtin_mul_overflow)
#define DIVIDE(NAME, SYM, FP)                                                                      \
  struct NAME                                                                                      \
  {                                                                                                \
    static constexpr const char* n = #SYM;                                                         \
    template <class T> static constexpr bool has = FP || is_int<T>;                                \
    template <class V> AI V v(const V& a, const V& b) { return a SYM b; }                          \
    template <class T> static T s(T a, T b, bool& ok)                                              \
    {                                                                                              \
      if constexpr (is_int<T>)                                                                     \
	if (b == 0 || (std::is_signed_v<T> && sizeof(T) >= 4 && b == T(-1) && a == std::numeric_limits<T>::min())) \
	  {                                                                                        \
	    ok = false;                                                                            \
	    return a;                                                                              \
	  }                                                                                        \
      return T(a SYM b);                                                                           \
    }                                                                                              \
  };
DIVIDE(Div, /, true)
DIVIDE(Mod, %, false)
#define BITOP(NAME, SYM)                                                                           \
  struct NAME                                                                                      \
  {                                                                                                \
    static constexpr const char* n = #SYM;                                                         \
    template <class T> static constexpr bool has = is_int<T>;                                      \
    template <class V> AI V v(const V& a, const V& b) { return a SYM b; }                          \
    template <class T> static T s(T a, T b, bool&) { return T(a SYM b); }                          \
  };
BITOP(And, &)
BITOP(Or, |)
BITOP(Xor, ^)
struct Min
{
  static constexpr const char* n = "min";
  template <class T> static constexpr bool has = is_int<T>;
  template <class V> AI V v(const V& a, const V& b) { return min(a, b); }
  template <class T> static T s(T a, T b, bool&) { return b < a ? b : a; }
};
struct Max
{
  static constexpr const char* n = "max";
  template <class T> static constexpr bool has = is_int<T>;
  template <class V> AI V v(const V& a, const V& b) { return max(a, b); }
  template <class T> static T s(T a, T b, bool&) { return a < b ? b : a; }
};
// assignments through a named object
#define COMPOUND(NAME, BASE, SYM)                                                                  \
  struct NAME : BASE                                                                               \
  {                                                                                                \
    static constexpr const char* n = #SYM;                                                         \
    template <class V> AI V v(const V& a, const V& b)                                              \
    {                                                                                              \
      V r = a;                                                                                     \
      r SYM b;                                                                                     \
      return r;                                                                                    \
    }                                                                                              \
  };
COMPOUND(AddA, Add, +=)
COMPOUND(SubA, Sub, -=)
COMPOUND(MulA, Mul, *=)
// shifts by a constant
struct Shl
{
  static constexpr const char* n = "<<";
  template <class T> static constexpr bool has = is_int<T>;
  template <class V> AI V v(const V& a, int b) { return a << b; }
  template <class T> static T s(T a, int b, bool&) { return T(wide<T>(a) << b); }
};
struct Shr
{
  static constexpr const char* n = ">>";
  template <class T> static constexpr bool has = is_int<T>;
  template <class V> AI V v(const V& a, int b) { return a >> b; }
  template <class T> static T s(T a, int b, bool&) { return T(a >> b); }
};
struct Neg
{
  static constexpr const char* n = "-";
  template <class T> static constexpr bool has = true;
  template <class V> AI V v(const V& a) { return -a; }
  template <class T> static T s(T a, bool& ok)
  {
    if constexpr (std::is_floating_point_v<T>)
      return -a;
    else
      return Sub::s<T>(T(0), a, ok);
  }
};
struct Not
{
  static constexpr const char* n = "~";
  template <class T> static constexpr bool has = is_int<T>;
  template <class V> AI V v(const V& a) { return ~a; }
  template <class T> static T s(T a, bool&) { return T(~a); }
};
struct Abs
{
  static constexpr const char* n = "abs";
  template <class T> static constexpr bool has = std::is_signed_v<T>;
  template <class V> AI V v(const V& a) { return abs(a); }
  template <class T> static T s(T a, bool& ok)
  {
    if constexpr (std::is_floating_point_v<T>)
      return std::fabs(a);
    else
      {
	if (a == std::numeric_limits<T>::min())
	  ok = false; // specified for representable results
	return a < 0 ? T(-wide<T>(a)) : a;
      }
  }
};
struct Inc
{
  static constexpr const char* n = "++";
  template <class T> static constexpr bool has = true;
  template <class V> AI V v(V a) { return ++a; }
  template <class T> static T s(T a, bool& ok) { return Add::s<T>(a, T(1), ok); }
};
struct Dec
{
  static constexpr const char* n = "--";
  template <class T> static constexpr bool has = true;
  template <class V> AI V v(V a) { return --a; }
  template <class T> static T s(T a, bool& ok) { return Sub::s<T>(a, T(1), ok); }
};
#define COMPARE(NAME, SYM)                                                                         \
  struct NAME                                                                                      \
  {                                                                                                \
    static constexpr const char* n = #SYM;                                                         \
    template <class V> AI auto v(const V& a, const V& b) { return a SYM b; }                       \
    template <class T> static bool s(T a, T b) { return a SYM b; }                                 \
  };
COMPARE(Eq, ==)
COMPARE(Ne, !=)
COMPARE(Lt, <)
COMPARE(Le, <=)
COMPARE(Gt, >)
COMPARE(Ge, >=)
#define LOGIC(NAME, SYM)                                                                           \
  struct NAME                                                                                      \
  {                                                                                                \
    static constexpr const char* n = #SYM;                                                         \
    template <class M> AI M v(const M& a, const M& b) { return a SYM b; }                          \
    static bool s(bool a, bool b) { return a SYM b; }                                              \
  };
LOGIC(LAnd, &&)
LOGIC(LOr, ||)
LOGIC(BAnd, &)
LOGIC(BOr, |)
LOGIC(BXor, ^)

// ---------------------------------------------------------------- trees
struct X
{
  template <class T> static constexpr bool has = true;
  template <class V> AI V v(const V& x, const V&) { return x; }
  template <class T> static T s(T x, T, bool&) { return x; }
  static std::string n() { return "x"; }
};
struct Y
{
  template <class T> static constexpr bool has = true;
  template <class V> AI V v(const V&, const V& y) { return y; }
  template <class T> static T s(T, T y, bool&) { return y; }
  static std::string n() { return "y"; }
};
template <int K> struct C
{
  template <class T> static constexpr bool has = K >= 0 || std::is_signed_v<T>;
  template <class V> AI V v(const V&, const V&) { return V(typename V::value_type(K)); }
  template <class T> static T s(T, T, bool&) { return T(K); }
  static std::string n() { return std::to_string(K); }
};
template <class O, class L, class R> struct Bin
{
  template <class T> static constexpr bool has = O::template has<T> && L::template has<T> && R::template has<T>;
  template <class V> AI V v(const V& x, const V& y) { return O::template v<V>(L::template v<V>(x, y), R::template v<V>(x, y)); }
  template <class T> static T s(T x, T y, bool& ok)
  {
    const T l = L::template s<T>(x, y, ok), r = R::template s<T>(x, y, ok);
    return ok ? O::template s<T>(l, r, ok) : l;
  }
  static std::string n() { return "(" + L::n() + O::n + R::n() + ")"; }
};
template <class O, class L, int K> struct Sh
{
  template <class T> static constexpr bool has = O::template has<T> && L::template has<T> && K < int(sizeof(T)) * 8;
  template <class V> AI V v(const V& x, const V& y) { return O::template v<V>(L::template v<V>(x, y), K); }
  template <class T> static T s(T x, T y, bool& ok)
  {
    const T l = L::template s<T>(x, y, ok);
    if (O::n[0] == '<' && overflows<T> && ok)
      {
	T r;
	if (__builtin_mul_overflow(l, T(1ull << (K % 63)), &r))
	  ok = false;
      }
    return O::template s<T>(l, K, ok);
  }
  static std::string n() { return "(" + L::n() + O::n + std::to_string(K) + ")"; }
};
template <class O, class L> struct Un
{
  template <class T> static constexpr bool has = O::template has<T> && L::template has<T>;
  template <class V> AI V v(const V& x, const V& y) { return O::template v<V>(L::template v<V>(x, y)); }
  template <class T> static T s(T x, T y, bool& ok)
  {
    const T l = L::template s<T>(x, y, ok);
    return ok ? O::template s<T>(l, ok) : l;
  }
  static std::string n() { return std::string(O::n) + "(" + L::n() + ")"; }
};
// there and back through another element type
template <class U, class L> struct Via
{
  template <class T> static constexpr bool has = L::template has<T>;
  template <class V> AI V v(const V& x, const V& y)
  {
    return stdx::static_simd_cast<V>(stdx::static_simd_cast<stdx::fixed_size_simd<U, V::size()>>(L::template v<V>(x, y)));
  }
  template <class T> static bool in(T l)
  {
    if constexpr (std::is_floating_point_v<T> && std::is_integral_v<U>)
      return l > T(-100) * std::is_signed_v<U> && l < T(100);
    else if constexpr (std::is_integral_v<T> && std::is_floating_point_v<U>)
      return ldouble(U(l)) < ldouble(std::numeric_limits<T>::max()) || U(l) == U(T(l) - 1);
    else
      return true;
  }
  template <class T> static T s(T x, T y, bool& ok)
  {
    const T l = L::template s<T>(x, y, ok);
    if (!ok || !in(l))
      {
	ok = false;
	return l;
      }
    const U u = static_cast<U>(l);
    return static_cast<T>(u);
  }
  static std::string n() { return std::string(tname<U>()) + "(" + L::n() + ")"; }
};
// masks
template <class O, class L, class R> struct Cmp
{
  template <class T> static constexpr bool has = L::template has<T> && R::template has<T>;
  template <class V> AI auto v(const V& x, const V& y) { return O::template v<V>(L::template v<V>(x, y), R::template v<V>(x, y)); }
  template <class T> static bool s(T x, T y, bool& ok) { return O::template s<T>(L::template s<T>(x, y, ok), R::template s<T>(x, y, ok)); }
  static std::string n() { return "(" + L::n() + O::n + R::n() + ")"; }
};
template <class O, class L, class R> struct Log
{
  template <class T> static constexpr bool has = L::template has<T> && R::template has<T>;
  template <class V> AI auto v(const V& x, const V& y) { return O::template v<typename V::mask_type>(L::template v<V>(x, y), R::template v<V>(x, y)); }
  template <class T> static bool s(T x, T y, bool& ok)
  {
    const bool l = L::template s<T>(x, y, ok), r = R::template s<T>(x, y, ok);
    return O::s(l, r);
  }
  static std::string n() { return "(" + L::n() + O::n + R::n() + ")"; }
};
template <class L> struct LNot
{
  template <class T> static constexpr bool has = L::template has<T>;
  template <class V> AI auto v(const V& x, const V& y) { return !L::template v<V>(x, y); }
  template <class T> static bool s(T x, T y, bool& ok) { return !L::template s<T>(x, y, ok); }
  static std::string n() { return "!" + L::n(); }
};
// r = B; where(m, r) = A
template <class M, class A, class B> struct Sel
{
  template <class T> static constexpr bool has = M::template has<T> && A::template has<T> && B::template has<T>;
  template <class V> AI V v(const V& x, const V& y)
  {
    V r = B::template v<V>(x, y);
    where(M::template v<V>(x, y), r) = A::template v<V>(x, y);
    return r;
  }
  template <class T> static T s(T x, T y, bool& ok)
  {
    const bool m = M::template s<T>(x, y, ok);
    const T a = A::template s<T>(x, y, ok), b = B::template s<T>(x, y, ok);
    return m ? a : b;
  }
  static std::string n() { return "where" + M::n() + "{" + A::n() + ":" + B::n() + "}"; }
};
// r = B; where(m, r) op= A
template <class M, class O, class A, class B> struct SelOp
{
  template <class T> static constexpr bool has = M::template has<T> && O::template has<T> && A::template has<T> && B::template has<T>;
  template <class V> AI V v(const V& x, const V& y)
  {
    V r = B::template v<V>(x, y);
    const V a = A::template v<V>(x, y);
    if constexpr (std::is_same_v<O, Add>)
      where(M::template v<V>(x, y), r) += a;
    else if constexpr (std::is_same_v<O, Sub>)
      where(M::template v<V>(x, y), r) -= a;
    else if constexpr (std::is_same_v<O, Mul>)
      where(M::template v<V>(x, y), r) *= a;
    else
      where(M::template v<V>(x, y), r) ^= a;
    return r;
  }
  template <class T> static T s(T x, T y, bool& ok)
  {
    const bool m = M::template s<T>(x, y, ok);
    const T a = A::template s<T>(x, y, ok), b = B::template s<T>(x, y, ok);
    const T r = O::template s<T>(b, a, ok);
    return m ? r : b;
  }
  static std::string n() { return "where" + M::n() + "{" + B::n() + O::n + "=" + A::n() + "}"; }
};

// ---------------------------------------------------------------- enumeration
template <class V, class E> void tree()
{
  using T = typename V::value_type;
  if constexpr (E::template has<T>)
    binary<T>(
      E::n().c_str(), int(V::size()), [](const T* pa, const T* pb, T* po) { E::template v<V>(load<V>(pa), load<V>(pb)).copy_to(po, EA); },
      [](T x, T y) {
	bool ok = true;
	return E::template s<T>(x, y, ok);
      },
      [](T x, T y) {
	bool ok = true;
	E::template s<T>(x, y, ok);
	return ok;
      });
}
template <class... Ts> struct L
{
};
template <class V, class... As, class F> void over(L<As...>, F&& f) { (f(tag<As>()), ...); }
#define OVER(LIST, NAME) over<V>(LIST(), [](auto tag_##NAME) { using NAME = typename decltype(tag_##NAME)::type;
#define END })
using Bins = L<Add, Sub, Mul, And, Or, Xor, Min, Max>;
using Ariths = L<Add, Sub, Mul>;
using Small = L<Add, Sub, Mul, AddA, SubA, MulA, Xor, And>;
using Divs = L<Div, Mod>;
using Uns = L<Neg, Not, Abs, Inc, Dec>;
using Cmps = L<Eq, Ne, Lt, Le, Gt, Ge>;
using Logs = L<LAnd, LOr, BAnd, BOr, BXor>;
template <class V> void family1()
{ // two binary operators over x and y
  OVER(Bins, P)
  OVER(Bins, Q) // with each operand of the inner operator on either side
    using I = Bin<P, X, Y>;
    tree<V, Bin<Q, I, Y>>();
    tree<V, Bin<Q, I, X>>();
    tree<V, Bin<Q, Y, I>>();
#if VH_DEEP
    tree<V, Bin<Q, X, I>>();
    tree<V, Bin<Q, I, Bin<P, Y, X>>>();
#endif
  END;
  END;
  OVER(Divs, Q)
  OVER(Small, P)
    tree<V, Bin<Q, Bin<P, X, Y>, Y>>();
    tree<V, Bin<P, Bin<Q, X, Y>, Y>>();
  END;
  tree<V, Bin<Add, Bin<Mul, Bin<Q, X, Y>, Y>, Bin<Q, X, Y>>>();
  END;
  tree<V, Bin<Add, Bin<Mul, Bin<Div, X, Y>, Y>, Bin<Mod, X, Y>>>();
}
template <class V> void family2()
{ // an operator with a constant, then another one
  using K = L<C<1>, C<3>, C<4>, C<-1>, C<100>>;
  using K2 = L<C<1>, C<4>, C<127>>;
  OVER(Small, P)
  OVER(K2, A)
  using I = Bin<P, X, A>;
  OVER(Small, Q)
    tree<V, Bin<Q, I, A>>();
  END;
  OVER(Divs, Q)
    tree<V, Bin<Q, I, A>>();
  END;
  tree<V, Sh<Shr, I, 1>>();
  tree<V, Sh<Shl, I, 2>>();
  tree<V, Bin<P, Sh<Shr, X, 1>, A>>();
  END;
  END;
  OVER(Divs, P)
  OVER(K, A)
    tree<V, Bin<P, X, A>>();
    tree<V, Bin<Mul, Bin<P, X, A>, A>>();
    tree<V, Bin<P, Bin<Mul, X, A>, A>>();
    tree<V, Bin<Sub, X, Bin<Mul, Bin<P, X, A>, A>>>();
    tree<V, Bin<P, A, Bin<Or, X, C<1>>>>();
  END;
  END;
#define SHIFTS(A, B)                                                                               \
  tree<V, Sh<Shr, Sh<Shl, X, A>, B>>();                                                            \
  tree<V, Sh<Shl, Sh<Shr, X, A>, B>>();                                                            \
  tree<V, Sh<Shl, Sh<Shl, X, A>, B>>();                                                            \
  tree<V, Sh<Shr, Sh<Shr, X, A>, B>>();                                                            \
  tree<V, Bin<Or, Sh<Shl, X, A>, Sh<Shr, X, int(sizeof(typename V::value_type)) * 8 - A>>>();      \
  tree<V, Bin<Sub, Sh<Shl, X, A>, Sh<Shr, Y, B>>>()
  SHIFTS(1, 1);
  SHIFTS(3, 2);
  SHIFTS(4, 4);
  SHIFTS(7, 7);
  SHIFTS(5, 1);
  OVER(Uns, P)
  OVER(Uns, Q)
    tree<V, Un<P, Un<Q, X>>>();
#if VH_DEEP
    OVER(Uns, R)
      tree<V, Un<P, Un<Q, Un<R, X>>>>();
    END;
#endif
  END;
  OVER(Bins, Q)
    tree<V, Un<P, Bin<Q, X, Y>>>();
    tree<V, Bin<Q, Un<P, X>, Y>>();
    tree<V, Bin<Q, Un<P, X>, Un<P, Y>>>();
    tree<V, Bin<Q, X, Un<P, X>>>();
  END;
  END;
}
template <class V> void family3()
{ // comparisons of expressions, logic of comparisons, selection
  OVER(Cmps, R)
  OVER(Small, P)
    tree<V, Sel<Cmp<R, Bin<P, X, C<1>>, X>, C<1>, C<0>>>();
    tree<V, Sel<Cmp<R, Bin<P, X, C<3>>, Bin<P, Y, C<3>>>, C<1>, C<0>>>();
    tree<V, Sel<Cmp<R, Bin<P, X, Y>, X>, X, Y>>();
    tree<V, Sel<Cmp<R, Bin<P, X, Y>, C<0>>, X, Y>>();
  END;
  OVER(Uns, P)
    tree<V, Sel<Cmp<R, Un<P, X>, X>, C<1>, C<0>>>();
    tree<V, Sel<Cmp<R, Un<P, X>, Un<P, Y>>, X, Y>>();
  END;
  tree<V, Sel<Cmp<R, X, C<0>>, Un<Neg, X>, X>>();
  tree<V, Sel<Cmp<R, X, Y>, X, Y>>();
  tree<V, Sel<LNot<Cmp<R, X, Y>>, X, Y>>();
  tree<V, SelOp<Cmp<R, X, Y>, Add, X, Y>>();
  tree<V, SelOp<Cmp<R, X, Y>, Sub, Y, X>>();
  tree<V, SelOp<Cmp<R, X, Y>, Mul, C<4>, X>>();
  tree<V, SelOp<LNot<Cmp<R, X, C<0>>>, Xor, Y, X>>();
  OVER(Cmps, S)
    tree<V, Sel<Log<LAnd, Cmp<R, X, Y>, Cmp<S, Y, X>>, X, C<0>>>();
    tree<V, Sel<Log<LOr, Cmp<R, X, Y>, LNot<Cmp<S, X, Y>>>, Y, C<0>>>();
    tree<V, Sel<Log<BXor, Cmp<R, X, Y>, Cmp<S, X, C<0>>>, X, Y>>();
#if VH_DEEP
    tree<V, Sel<Log<BAnd, LNot<Cmp<R, X, Y>>, Cmp<S, X, C<1>>>, X, Y>>();
    tree<V, Sel<Log<BOr, Cmp<R, X, C<1>>, Cmp<S, X, C<4>>>, X, Y>>();
    tree<V, Sel<Cmp<R, Sel<Cmp<S, X, Y>, X, Y>, X>, X, Y>>();
#endif
  END;
  END;
}
template <class V> void family4()
{ // conversions inside of expressions; three operators
  using Us = L<schar, uchar, short, ushort, int, uint, long, ulong, float, double>;
  OVER(Us, U)
    tree<V, Via<U, X>>();
    tree<V, Bin<Add, Via<U, X>, Y>>();
    tree<V, Bin<Sub, X, Via<U, X>>>();
    tree<V, Sel<Cmp<Eq, Via<U, X>, X>, X, Y>>();
  END;
  OVER(Ariths, P)
  OVER(Ariths, Q)
  OVER(Ariths, R)
    tree<V, Bin<R, Bin<Q, Bin<P, X, Y>, X>, Y>>();
    tree<V, Bin<R, Bin<P, X, C<3>>, Bin<Q, Y, C<3>>>>();
#if VH_DEEP
    tree<V, Bin<R, Bin<P, X, Y>, Bin<Q, Y, X>>>();
#endif
  END;
  END;
  END;
}
template <class T> void run()
{
  using A = abi_of<T, VH_ABI>;
  if constexpr (!std::is_void_v<A>)
    {
      using V = stdx::simd<T, A>;
      if constexpr (VH_FAM & 1)
	family1<V>();
      if constexpr (VH_FAM & 2)
	family2<V>();
      if constexpr (VH_FAM & 4)
	family3<V>();
      if constexpr (VH_FAM & 8)
	family4<V>();
    }
}
int main(int argc, char** argv)
{
  init(argc, argv);
  each_type([](auto t) { run<typename decltype(t)::type>(); });
  finish_line();
}
