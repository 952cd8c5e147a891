// C19: operations evaluated by the compiler (constant expressions) against the scalar operations at run time.
#include "vhcfg.h"
using namespace vh;
#define EA stdx::element_aligned

// ---------------------------------------------------------------- operands known to the compiler
template <class T> struct cval
{
  static constexpr int n = 20;
  static constexpr T get(int k)
  {
    if constexpr (std::is_floating_point_v<T>)
      {
	constexpr T v[n] = {0, T(-0.), 1, -1, T(.5), T(-1.5), 3, 7, T(-.1), T(1) / 3, 127, T(-128.5), T(65535.75), T(1e10), T(-1e10), std::numeric_limits<T>::max() / 4,
			    std::numeric_limits<T>::min() * 2, T(-3.25), T(1 << 24), T(2.75)};
	return v[k];
      }
    else
      {
	using L = std::numeric_limits<T>;
	constexpr T mid = T(T(1) << (sizeof(T) * 4 - 1));
	constexpr T v[n] = {0, 1, T(-1), 2, T(-2), 3, 5, T(-7), 10, 100, 127, T(-128), L::max(), L::min(), T(L::max() - 1), T(L::min() + 1), mid, T(mid - 1), T(-mid), T(0x5555555555555555ull)};
	return v[k];
      }
  }
  // the values for which the operation is not defined, or rounds, in arithmetic
  static constexpr T a(int s) { return get(s % (n * n) / n); }
  static constexpr T b(int s) { return get(s % (n * n) % n); }
};
// values for comparisons only
template <class T> constexpr T special(int k, T x)
{
  if constexpr (std::is_floating_point_v<T>)
    return k % 7 == 3 ? std::numeric_limits<T>::infinity() : k % 11 == 5 ? -std::numeric_limits<T>::infinity() : k % 13 == 1 ? std::numeric_limits<T>::quiet_NaN() : x;
  else
    return x;
}

template <class T> constexpr bool is_int = std::is_integral_v<T>;
template <class T> using wide = std::conditional_t<(sizeof(T) < 8), long long, __int128>;
template <class T> constexpr bool fits(wide<T> x)
{
  if constexpr (!is_int<T>)
    return true;
  else if (sizeof(T) < 4 || std::is_unsigned_v<T>)
    return true; // wraps around
  else
    return x >= wide<T>(std::numeric_limits<T>::min()) && x <= wide<T>(std::numeric_limits<T>::max());
}
// kinds of side conditions
enum { ANY, ADD, SUB, MUL, DIV, CMP, NEG };
template <int C, class T> constexpr bool defined(T a, T b)
{
  if constexpr (!is_int<T>)
    {
      // results that overflow are not constant expressions
      constexpr T lo = T(1e-12), hi = T(1e12);
      const T x = a < 0 ? -a : a, y = b < 0 ? -b : b;
      if (C == MUL || C == DIV)
	return (x == 0 || (x > lo && x < hi)) && ((y == 0 && C == MUL) || (y > lo && y < hi));
      return true;
    }
  else
    {
      using W = wide<T>;
      if (C == ADD)
	return fits<T>(W(a) + W(b));
      if (C == SUB)
	return fits<T>(W(a) - W(b));
      if (C == MUL)
	{
	  if constexpr (sizeof(T) >= 4 && std::is_signed_v<T>)
	    return fits<T>(W(a) * W(b));
	  return true;
	}
      if (C == DIV)
	return b != 0 && !(std::is_signed_v<T> && b == T(-1) && a == std::numeric_limits<T>::min());
      if (C == NEG)
	return sizeof(T) < 4 || !std::is_signed_v<T> || a != std::numeric_limits<T>::min();
      return true;
    }
}
template <int C, class T> constexpr T opa(int s)
{
  const T a = cval<T>::a(s), b = cval<T>::b(s);
  if (C == CMP)
    return special(s, a);
  return defined<C>(a, b) ? a : T(C == DIV ? 3 : 2);
}
template <int C, class T> constexpr T opb(int s)
{
  const T a = cval<T>::a(s), b = cval<T>::b(s);
  if (C == CMP)
    return special(s / 3, b);
  return defined<C>(a, b) ? b : T(1);
}

// ---------------------------------------------------------------- tables evaluated by the compiler
template <class V, class Op> struct table
{
  using T = typename V::value_type;
  static constexpr int N = V::size();
  static constexpr int step = VH_DEEP ? 1 : N > 4 ? N / 4 : 1;
  static constexpr int K = cval<T>::n * cval<T>::n / step + 1;
  static constexpr auto one(int s)
  {
    const V a([=](auto i) { return opa<Op::cond, T>(s * step + i); });
    const V b([=](auto i) { return opb<Op::cond, T>(s * step + i); });
    return Op::f(a, b);
  }
  using R = decltype(one(0));
  template <int... S> static constexpr std::array<R, sizeof...(S)> make(std::integer_sequence<int, S...>) { return {{one(S)...}}; }
};
template <class Tab, auto = (Tab::make(std::make_integer_sequence<int, Tab::K>()), 0)> constexpr bool is_constant(int) { return true; }
template <class Tab> constexpr bool is_constant(long) { return false; }
template <class Tab> struct holder
{
  static constexpr auto v = Tab::make(std::make_integer_sequence<int, Tab::K>());
};

template <class V, class Op, class Ref> void check(const char* name, bool must, Ref ref)
{
  using T = typename V::value_type;
  using Tab = table<V, Op>;
  constexpr int N = V::size();
  if (!want(name))
    return;
  set_op(name, tname<T>());
  constexpr bool constant = is_constant<Tab>(0);
  if constexpr (constant)
    {
      using R = typename Tab::R;
      using E = decltype(ref(T(), T()));
      for (int s = 0; s < Tab::K; ++s)
	{
	  E want_[N], got[N];
	  for (int i = 0; i < N; ++i)
	    {
	      const T a = opaque(opa<Op::cond, T>(s * Tab::step + i)), b = opaque(opb<Op::cond, T>(s * Tab::step + i));
	      want_[i] = ref(a, b);
	    }
	  const R& r = holder<Tab>::v[s];
	  if constexpr (stdx::is_simd_v<R> || stdx::is_simd_mask_v<R>)
	    r.copy_to(got, EA);
	  else
	    for (int i = 0; i < N; ++i)
	      got[i] = r[i];
	  for (int i = 0; i < N; ++i)
	    if (!same(got[i], want_[i]))
	      {
		bad("operands " + show(opa<Op::cond, T>(s * Tab::step + i)) + " " + show(opb<Op::cond, T>(s * Tab::step + i)) + " lane " + std::to_string(i) + " of " + std::to_string(N)
		    + ": constant " + show(got[i]) + ", expected " + show(want_[i]));
		break;
	      }
	  ++st.states, ++st.execs, st.trans += N;
	  VH_SAMPLE(std::string(name) + " " + tname<T>() + " constant table of " + std::to_string(Tab::K) + " vectors of " + std::to_string(N));
	}
    }
  else if (must)
    check_bool(false, std::string("not a constant expression: ") + name);
}
// every element of the constant object read in a constant expression, too
template <class V> constexpr std::array<typename V::value_type, V::size()> elements(const V& v)
{
  std::array<typename V::value_type, V::size()> r = {};
  for (std::size_t i = 0; i < V::size(); ++i)
    r[i] = v[i];
  return r;
}
#define OP(NAME, COND, ...)                                                                        \
  struct NAME                                                                                      \
  {                                                                                                \
    static constexpr int cond = COND;                                                              \
    template <class V> static constexpr auto f(const V& a, const V& b)                             \
    {                                                                                              \
      (void)a, (void)b;                                                                            \
      __VA_ARGS__;                                                                                 \
    }                                                                                              \
  }
OP(Gen, ANY, return a);
OP(Sub0, ANY, return elements(a));
OP(SubAdd, ADD, return elements(V(a + b)));
OP(Bc, ANY, return V(a[0]) + V());
OP(Add, ADD, return a + b);
OP(Sub, SUB, return a - b);
OP(Mul, MUL, return a * b);
OP(Div, DIV, return a / b);
OP(Mod, DIV, return a % b);
OP(And, ANY, return a & b);
OP(Or, ANY, return a | b);
OP(Xor, ANY, return a ^ b);
OP(Cpl, ANY, return ~a);
OP(Neg, NEG, return -a);
OP(Pos, ANY, return +a);
OP(Not, CMP, return !a);
OP(Eq, CMP, return a == b);
OP(Ne, CMP, return a != b);
OP(Lt, CMP, return a < b);
OP(Le, CMP, return a <= b);
OP(Gt, CMP, return a > b);
OP(Ge, CMP, return a >= b);
OP(Min, ANY, return min(a, b));
OP(Max, ANY, return max(a, b));
OP(MinMax1, ANY, return stdx::minmax(a, b).first);
OP(MinMax2, ANY, return stdx::minmax(a, b).second);
OP(Clamp, ANY, return stdx::clamp(a, min(a, b), max(a, b)) + V());
OP(AddEq, ADD, V r = a; r += b; return r);
OP(SubEq, SUB, V r = a; r -= b; return r);
OP(MulEq, MUL, V r = a; r *= b; return r);
OP(DivEq, DIV, V r = a; r /= b; return r);
OP(ModEq, DIV, V r = a; r %= b; return r);
OP(AndEq, ANY, V r = a; r &= b; return r);
OP(OrEq, ANY, V r = a; r |= b; return r);
OP(XorEq, ANY, V r = a; r ^= b; return r);
OP(Scal, ADD, using T = typename V::value_type; return T(1) * a + b * T(1));
OP(Shl, ANY, return (a & V(typename V::value_type(3))) << 3);
OP(Shr, ANY, return a >> 2);
OP(ShlV, ANY, return (a & V(typename V::value_type(3))) << (b & V(typename V::value_type(3))));
OP(ShrV, ANY, return a >> (b & V(typename V::value_type(7))));
OP(Inc, ANY, V r = (a & V(typename V::value_type(63))); ++r; return r);
OP(MaskT, ANY, return typename V::mask_type(true));
OP(MaskF, ANY, return typename V::mask_type(false));
OP(MEq, CMP, return (a < b) == (a == b));
OP(MNe, CMP, return (a < b) != (a == b));
OP(MAnd, CMP, return (a <= b) && (a == b));
OP(MBand, CMP, return (a <= b) & (a == b));
OP(MBor, CMP, return (a < b) | (a == b));
OP(MBxor, CMP, return (a <= b) ^ (a == b));
OP(MNot, CMP, return !(a < b));
OP(Hmin, ANY, return std::array<typename V::value_type, V::size()>{stdx::hmin(V(a[0]))});

template <class A> struct is_register : std::false_type {};
template <int B> struct is_register<stdx::simd_abi::_VecBuiltin<B>> : std::true_type {};
template <int B> struct is_register<stdx::simd_abi::_VecBltnBtmsk<B>> : std::true_type {};

template <class T> void run()
{
  using A = abi_of<T, VH_ABI>;
  if constexpr (!std::is_void_v<A>)
    {
      using V = stdx::simd<T, A>;
#define C(NAME, MUST, ...) check<V, NAME>(#NAME, MUST, [](T a, T b) { (void)a, (void)b; __VA_ARGS__; })
#define FITS (sizeof(V) <= 32)
      constexpr bool m = stdx::__is_scalar_abi<A>() || is_register<A>::value;
      C(Gen, m, return a);
      C(Sub0, m, return a);
      C(SubAdd, m, return T(a + b));
      C(Add, m, return T(a + b));
      C(Sub, m, return T(a - b));
      C(Mul, m, return T(std::conditional_t<is_int<T>, std::conditional_t<(sizeof(T) < 4), unsigned, T>, T>(a) * b));
      C(Div, m, return T(a / b));
      C(Neg, m, return T(-a));
      C(Pos, m, return a);
      C(Not, m, return a == T());
      C(Eq, m && !(sizeof(V) == 8 && sizeof(T) < 8), return a == b);
      C(Ne, m, return a != b);
      C(Lt, m, return a < b);
      C(Le, m, return a <= b);
      C(Gt, m, return a > b);
      C(Ge, m, return a >= b);
      if constexpr (is_int<T>)
	{
	  C(Min, m, return b < a ? b : a);
	  C(Max, m, return a < b ? b : a);
	  C(MinMax1, m, return b < a ? b : a);
	  C(MinMax2, m, return a < b ? b : a);
	  C(Clamp, m, return a);
	  C(Mod, m, return T(a % b));
	  C(And, m, return T(a & b));
	  C(Or, m, return T(a | b));
	  C(Xor, m, return T(a ^ b));
	  C(Cpl, false, return T(~a));
	  C(ModEq, m, return T(a % b));
	  C(AndEq, m, return T(a & b));
	  C(OrEq, m, return T(a | b));
	  C(XorEq, m, return T(a ^ b));
	  C(Shl, false, return T((a & 3) << 3));
	  C(Shr, false, return T(a >> 2));
	  C(ShlV, false, return T((a & 3) << (b & 3)));
	  C(ShrV, false, return T(a >> (b & 7)));
	  C(Inc, false, return T((a & 63) + 1));
	}
      C(AddEq, m, return T(a + b));
      C(SubEq, m, return T(a - b));
      C(MulEq, m, return T(std::conditional_t<is_int<T>, std::conditional_t<(sizeof(T) < 4), unsigned, T>, T>(a) * b));
      C(DivEq, m, return T(a / b));
      C(Scal, m, return T(a + b));
      C(MaskT, false, return true);
      C(MaskF, m, return false);
      C(MEq, false, return (a < b) == (a == b));
      C(MNe, false, return (a < b) != (a == b));
      C(MAnd, false, return (a <= b) && (a == b));
      C(MBand, false, return (a <= b) && (a == b));
      C(MBor, false, return (a < b) || (a == b));
      C(MBxor, false, return (a <= b) != (a == b));
      C(MNot, false, return !(a < b));
    }
}
int main(int argc, char** argv)
{
  init(argc, argv);
  each_type([](auto t) { run<typename decltype(t)::type>(); });
  finish_line();
}
