// C17: which calls participate in overload resolution, and the types of their results, for all combinations of element types.
#include "vhcfg.h"
#include <cstdarg>
using namespace vh;
namespace sa = stdx::simd_abi;
#define ALLT char, schar, uchar, short, ushort, int, uint, long, ulong, llong, ullong, float, double, ldouble, wchar_t, char16_t, char32_t

[[gnu::noinline]] void chk(const char* name, const char* tn, bool got, bool expect, const char* fmt, ...)
{
  if (!want(name))
    return;
  set_op(name, tn);
  st.states++, st.trans++, st.execs++;
  if (got != expect)
    {
      char buf[300];
      va_list ap;
      va_start(ap, fmt);
      const int n = vsnprintf(buf, sizeof buf - 40, fmt, ap);
      va_end(ap);
      snprintf(buf + n, 40, ": %s, specified: %s", got ? "yes" : "no", expect ? "yes" : "no");
      check_bool(false, buf);
    }
}
// ---------------------------------------------------------------- the specification
enum Unscoped { un };
enum class Scoped { sc };
template <class X> struct To // a class type convertible to X only
{
  operator X() const;
};
struct Nothing {};

template <class F> constexpr int vbits() { return std::numeric_limits<F>::digits; }
// every value of F can be represented in T
template <class F, class T> constexpr bool preserving()
{
  if constexpr (std::is_same_v<F, T>)
    return true;
  else if constexpr (std::is_integral_v<F> && std::is_integral_v<T>)
    return (std::is_unsigned_v<F> || std::is_signed_v<T>) && vbits<F>() <= vbits<T>();
  else if constexpr (std::is_integral_v<F>)
    return vbits<F>() <= vbits<T>();
  else if constexpr (std::is_integral_v<T>)
    return false;
  else
    return sizeof(F) <= sizeof(T);
}
// a value of type F is implicitly accepted where an element of type T is expected
template <class F, class T> constexpr bool accepted()
{
  if constexpr (std::is_same_v<F, bool>)
    return false;
  else if constexpr (std::is_arithmetic_v<F>)
    return preserving<F, T>() || std::is_same_v<F, int> || (std::is_same_v<F, uint> && std::is_unsigned_v<T>);
  else
    return std::is_convertible_v<F, T>;
}
// integer conversion rank
template <class T> constexpr int rank()
{
  if (std::is_same_v<T, char> || std::is_same_v<T, schar> || std::is_same_v<T, uchar>)
    return 1;
  if (std::is_same_v<T, short> || std::is_same_v<T, ushort> || std::is_same_v<T, char16_t>)
    return 2;
  if (std::is_same_v<T, int> || std::is_same_v<T, uint> || std::is_same_v<T, wchar_t> || std::is_same_v<T, char32_t>)
    return 3;
  if (std::is_same_v<T, long> || std::is_same_v<T, ulong>)
    return 4;
  return 5;
}
template <class T> constexpr int maxn() { return sa::max_fixed_size<T>; }
// implicit conversion between vectors of equal size with the fixed_size ABI
template <class F, class T> constexpr bool vconv()
{
  if constexpr (!preserving<F, T>())
    return false;
  else if constexpr (std::is_integral_v<F> && std::is_integral_v<T>)
    return rank<F>() < rank<T>() || std::is_same_v<F, T>;
  else
    return true;
}
template <class A> constexpr bool is_fixed = false;
template <int N> constexpr bool is_fixed<sa::fixed_size<N>> = true;

template <class F, class... A> constexpr bool can = std::is_invocable_v<F, A...>;
template <class R, class F, class... A> constexpr bool gives()
{
  if constexpr (std::is_invocable_v<F, A...>)
    return std::is_same_v<std::invoke_result_t<F, A...>, R>;
  else
    return false;
}
#define FN1(id, ...) auto id = [](auto&& a) -> decltype(__VA_ARGS__) { return __VA_ARGS__; }
#define FN2(id, ...) auto id = [](auto&& a, auto&& b) -> decltype(__VA_ARGS__) { return __VA_ARGS__; }
#define FN3(id, ...) auto id = [](auto&& a, auto&& b, auto&& c) -> decltype(__VA_ARGS__) { return __VA_ARGS__; }
#define FW(x) static_cast<decltype(x)>(x)

FN2(o_add, a + b);
FN2(o_sub, a - b);
FN2(o_mul, a* b);
FN2(o_div, a / b);
FN2(o_mod, a % b);
FN2(o_and, a& b);
FN2(o_or, a | b);
FN2(o_xor, a ^ b);
FN2(o_shl, a << b);
FN2(o_shr, a >> b);
FN2(o_land, a&& b);
FN2(o_lor, a || b);
FN2(o_eq, a == b);
FN2(o_ne, a != b);
FN2(o_lt, a < b);
FN2(o_le, a <= b);
FN2(o_gt, a > b);
FN2(o_ge, a >= b);
FN2(a_set, FW(a) = b);
FN2(a_add, FW(a) += b);
FN2(a_sub, FW(a) -= b);
FN2(a_mul, FW(a) *= b);
FN2(a_div, FW(a) /= b);
FN2(a_mod, FW(a) %= b);
FN2(a_and, FW(a) &= b);
FN2(a_or, FW(a) |= b);
FN2(a_xor, FW(a) ^= b);
FN2(a_shl, FW(a) <<= b);
FN2(a_shr, FW(a) >>= b);
FN1(u_not, !a);
FN1(u_com, ~a);
FN1(u_neg, -a);
FN1(u_pos, +a);
FN1(u_inc, ++FW(a));
FN1(u_dec, --FW(a));
FN1(u_pinc, FW(a)++);
FN1(u_pdec, FW(a)--);
using stdx::where;
using stdx::reduce;
using stdx::hmin;
using stdx::hmax;
FN2(f_where, where(a, b));
FN1(f_reduce, reduce(a));
FN1(f_hmin, hmin(a));
FN1(f_hmax, hmax(a));
FN1(f_all, stdx::all_of(a));
FN1(f_any, stdx::any_of(a));
FN1(f_none, stdx::none_of(a));
FN1(f_some, stdx::some_of(a));
FN1(f_pop, stdx::popcount(a));
FN1(f_ffs, stdx::find_first_set(a));
FN1(f_fls, stdx::find_last_set(a));
FN2(f_min, stdx::min(a, b));
FN2(f_max, stdx::max(a, b));
FN2(f_minmax, stdx::minmax(a, b));
FN3(f_clamp, stdx::clamp(a, b, c));
FN2(f_concat, stdx::concat(a, b));
FN2(f_from, a.copy_from(b, stdx::element_aligned));
FN2(f_to, a.copy_to(b, stdx::element_aligned));

template <class V> struct Cast
{
  static constexpr auto f_static = [](auto&& a) -> decltype(stdx::static_simd_cast<V>(a)) { return stdx::static_simd_cast<V>(a); };
  static constexpr auto f_simd = [](auto&& a) -> decltype(stdx::simd_cast<V>(a)) { return stdx::simd_cast<V>(a); };
  static constexpr auto f_mstatic = [](auto&& a) -> decltype(stdx::__proposed::static_simd_cast<V>(a)) { return stdx::__proposed::static_simd_cast<V>(a); };
  static constexpr auto f_split = [](auto&& a) -> decltype(stdx::split<V>(a)) { return stdx::split<V>(a); };
};
template <std::size_t... N> struct Sizes
{
  static constexpr auto f = [](auto&& a) -> decltype(stdx::split<N...>(a)) { return stdx::split<N...>(a); };
};
template <class X> struct Gen
{
  template <class I> X operator()(I) const;
};
#define GIVES(name, expect, R, F, fmt, ...)                                                        \
  do                                                                                               \
    {                                                                                              \
      chk(name, tn, can<__VA_ARGS__>, expect, fmt);                                                \
      if (expect)                                                                                  \
	chk(name " result type", tn, gives<R, __VA_ARGS__>(), true, fmt);                          \
    }                                                                                              \
  while (0)

template <class V> constexpr auto samesign()
{
}
template <class U> struct unmk
{
  using type = U;
};
template <class F, bool = std::is_integral_v<F>> struct msigned { using type = F; };
template <class F> struct msigned<F, true> { using type = std::make_signed_t<std::make_unsigned_t<F>>; };

// ---------------------------------------------------------------- per vector type
template <class V, class From> void from_value(const char* fn)
{
  using T = typename V::value_type;
  using R = typename V::reference;
  const char* tn = tname<T>();
  constexpr bool acc = accepted<From, T>();
  chk("implicit broadcast", tn, std::is_convertible_v<From, V>, acc, "from %s", fn);
  chk("implicit broadcast const&", tn, std::is_convertible_v<const From&, V>, acc, "from const %s&", fn);
  chk("implicit broadcast &", tn, std::is_convertible_v<From&, V>, acc, "from %s&", fn);
  chk("broadcast construction", tn, std::is_constructible_v<V, From>, acc, "from %s", fn);
  if (!std::is_same_v<From, bool>) // the library lets bool through here; not specified
    chk("generator", tn, std::is_constructible_v<V, Gen<From>>, acc, "returning %s", fn);
  chk("generator is explicit", tn, std::is_convertible_v<Gen<From>, V>, false, "returning %s", fn);
  chk("assign broadcast", tn, (can<decltype(a_set), V&, const From&>), acc, "from %s", fn);
  constexpr bool in = std::is_integral_v<T>;
#define OP(name, F, ok, R)                                                                         \
  chk(name, tn, can<decltype(F), const V&, const From&>, ok, "vector op %s", fn);                  \
  chk(name, tn, can<decltype(F), const From&, const V&>, ok, "%s op vector", fn);                  \
  if (ok)                                                                                          \
    chk(name " type", tn, gives<R, decltype(F), const V&, const From&>() && gives<R, decltype(F), const From&, const V&>(), true, "with %s", fn);
  using M = typename V::mask_type;
  OP("+", o_add, acc, V)
  OP("-", o_sub, acc, V)
  OP("*", o_mul, acc, V)
  OP("/", o_div, acc, V)
  OP("%", o_mod, acc && in, V)
  OP("&", o_and, acc && in, V)
  OP("|", o_or, acc && in, V)
  OP("^", o_xor, acc && in, V)
  OP("==", o_eq, acc, M)
  OP("!=", o_ne, acc, M)
  OP("<", o_lt, acc, M)
  OP("<=", o_le, acc, M)
  OP(">", o_gt, acc, M)
  OP(">=", o_ge, acc, M)
#undef OP
#define OP(name, F, ok)                                                                            \
  chk(name, tn, can<decltype(F), V&, const From&>, ok, "vector op= %s", fn);                       \
  chk(name, tn, can<decltype(F), const V&, const From&>, false, "const vector op= %s", fn);        \
  if (ok)                                                                                          \
    chk(name " type", tn, gives<V&, decltype(F), V&, const From&>(), true, "with %s", fn);
  OP("+=", a_add, acc)
  OP("-=", a_sub, acc)
  OP("*=", a_mul, acc)
  OP("/=", a_div, acc)
  OP("%=", a_mod, acc && in)
  OP("&=", a_and, acc && in)
  OP("|=", a_or, acc && in)
  OP("^=", a_xor, acc && in)
#undef OP
  // elements: v[i] = x, v[i] op= x
  if (!std::is_same_v<From, bool>)
    chk("v[i] =", tn, (can<decltype(a_set), R, const From&>), acc, "%s", fn);
  chk("v[i] = on an lvalue", tn, (can<decltype(a_set), R&, const From&>), false, "%s", fn);
  if constexpr (std::is_arithmetic_v<From> && !std::is_same_v<From, bool>)
    {
      using C = std::conditional_t<std::is_floating_point_v<T> || std::is_floating_point_v<From>, double, int>; // only used where both are integral
#define OP(name, F, op)                                                                            \
  {                                                                                                \
    using TT = decltype(std::declval<T>() op std::declval<From>());                                \
    chk("v[i] " name, tn, can<decltype(F), R, const From&>, accepted<From, TT>() && accepted<TT, T>(), "%s", fn); \
    chk("v[i] on an lvalue " name, tn, can<decltype(F), R&, const From&>, false, "%s", fn);         \
  }
      OP("+=", a_add, +)
      OP("-=", a_sub, -)
      OP("*=", a_mul, *)
      OP("/=", a_div, /)
      if constexpr (std::is_integral_v<T> && std::is_integral_v<From>)
	{
	  OP("%=", a_mod, %)
	  OP("&=", a_and, &)
	  OP("|=", a_or, |)
	  OP("^=", a_xor, ^)
	  OP("<<=", a_shl, <<)
	  OP(">>=", a_shr, >>)
	}
      else
	{
	  chk("v[i] %=", tn, can<decltype(a_mod), R, const From&>, false, "%s", fn);
	  chk("v[i] &=", tn, can<decltype(a_and), R, const From&>, false, "%s", fn);
	  chk("v[i] <<=", tn, can<decltype(a_shl), R, const From&>, false, "%s", fn);
	}
#undef OP
    }
  // memory
  constexpr bool vec = std::is_arithmetic_v<From> && !std::is_same_v<From, bool>;
  if constexpr (!std::is_reference_v<From>)
    {
      chk("copy_from", tn, (can<decltype(f_from), V&, const From*>), vec, "from %s*", fn);
      chk("copy_to", tn, (can<decltype(f_to), const V&, From*>), vec, "to %s*", fn);
      chk("copy_to const memory", tn, (can<decltype(f_to), const V&, const From*>), false, "to const %s*", fn);
      chk("copy_from of a const vector", tn, (can<decltype(f_from), const V&, const From*>), false, "from %s*", fn);
      if (vec)
	chk("load constructor", tn, (std::is_constructible_v<V, const From*, stdx::element_aligned_tag>), true, "from %s*", fn);
    }
}
template <class V> void per_vector(const char* how)
{
  using T = typename V::value_type;
  using A = typename V::abi_type;
  using M = typename V::mask_type;
  const char* tn = tname<T>();
  constexpr bool in = std::is_integral_v<T>;
  constexpr int N = V::size();
  each(tlist<ALLT, bool>(), [](auto f) { from_value<V, typename decltype(f)::type>(tname<typename decltype(f)::type>()); });
  from_value<V, Unscoped>("unscoped enumeration");
  from_value<V, Scoped>("scoped enumeration");
  from_value<V, To<T>>("class convertible to the element type");
  from_value<V, Nothing>("unrelated class");
  from_value<V, void*>("void*");
  from_value<V, To<float>>("class convertible to float");
  from_value<V, To<int>>("class convertible to int");
  // operators of two vectors
#define B(name, F, ok, R)                                                                          \
  chk("vectors " name, tn, can<decltype(F), const V&, const V&>, ok, how);                         \
  if (ok)                                                                                          \
    chk("vectors " name " type", tn, gives<R, decltype(F), const V&, const V&>(), true, how);
  B("+", o_add, true, V) B("-", o_sub, true, V) B("*", o_mul, true, V) B("/", o_div, true, V) B("%", o_mod, in, V)
  B("&", o_and, in, V) B("|", o_or, in, V) B("^", o_xor, in, V) B("<<", o_shl, in, V) B(">>", o_shr, in, V)
  B("==", o_eq, true, M) B("!=", o_ne, true, M) B("<", o_lt, true, M) B("<=", o_le, true, M) B(">", o_gt, true, M) B(">=", o_ge, true, M)
  B("&&", o_land, false, M) B("||", o_lor, false, M)
#undef B
#define B(name, F, ok)                                                                             \
  chk("vectors " name, tn, can<decltype(F), V&, const V&>, ok, how);                               \
  chk("vectors " name, tn, can<decltype(F), const V&, const V&>, false, "const left operand");
  B("=", a_set, true) B("+=", a_add, true) B("-=", a_sub, true) B("*=", a_mul, true) B("/=", a_div, true) B("%=", a_mod, in)
  B("&=", a_and, in) B("|=", a_or, in) B("^=", a_xor, in) B("<<=", a_shl, in) B(">>=", a_shr, in)
#undef B
  chk("<< int", tn, gives<V, decltype(o_shl), const V&, int>(), in, how);
  chk(">> int", tn, gives<V, decltype(o_shr), const V&, int>(), in, how);
  chk("<<= int", tn, gives<V&, decltype(a_shl), V&, int>(), in, how);
  chk(">>= int", tn, gives<V&, decltype(a_shr), V&, int>(), in, how);
  chk("unary !", tn, gives<M, decltype(u_not), const V&>(), true, how);
  chk("unary ~", tn, can<decltype(u_com), const V&>, in, how);
  chk("unary ~ type", tn, gives<V, decltype(u_com), const V&>(), in, how);
  chk("unary -", tn, gives<V, decltype(u_neg), const V&>(), true, how);
  chk("unary +", tn, gives<V, decltype(u_pos), const V&>(), true, how);
  chk("++", tn, gives<V&, decltype(u_inc), V&>(), true, how);
  chk("--", tn, gives<V&, decltype(u_dec), V&>(), true, how);
  chk("post ++", tn, gives<V, decltype(u_pinc), V&>(), true, how);
  chk("post --", tn, gives<V, decltype(u_pdec), V&>(), true, how);
  chk("++ of a constant", tn, can<decltype(u_inc), const V&>, false, how);
  chk("-- of a constant", tn, can<decltype(u_dec), const V&>, false, how);
  using R = typename V::reference;
  chk("++v[i]", tn, can<decltype(u_inc), R> && can<decltype(u_dec), R>, true, how);
  chk("v[i]++", tn, gives<T, decltype(u_pinc), R>() && gives<T, decltype(u_pdec), R>(), true, how);
  chk("++ on a named reference", tn, can<decltype(u_inc), R&> || can<decltype(u_pinc), R&>, false, how);
  chk("reference is not copyable", tn, std::is_copy_constructible_v<R>, false, how);
  chk("convertible to its element", tn, std::is_convertible_v<V, T>, false, how);
  chk("convertible to bool", tn, std::is_convertible_v<V, bool> || std::is_convertible_v<M, bool>, false, how);
  // masks
  chk("mask from bool", tn, std::is_constructible_v<M, bool>, true, how);
  chk("mask from bool is explicit", tn, std::is_convertible_v<bool, M>, false, how);
#define B(name, F, ok, R)                                                                          \
  chk("masks " name, tn, can<decltype(F), const M&, const M&>, ok, how);                           \
  if (ok)                                                                                          \
    chk("masks " name " type", tn, gives<R, decltype(F), const M&, const M&>(), true, how);
  B("&&", o_land, true, M) B("||", o_lor, true, M) B("&", o_and, true, M) B("|", o_or, true, M) B("^", o_xor, true, M)
  B("==", o_eq, true, M) B("!=", o_ne, true, M) B("+", o_add, false, M) B("-", o_sub, false, M) B("<", o_lt, false, M) B("<<", o_shl, false, M)
#undef B
#define B(name, F, ok)                                                                             \
  chk("masks " name, tn, can<decltype(F), M&, const M&>, ok, how);                                 \
  chk("masks " name, tn, can<decltype(F), const M&, const M&>, false, "const left operand");
  B("&=", a_and, true) B("|=", a_or, true) B("^=", a_xor, true) B("+=", a_add, false)
#undef B
  chk("mask !", tn, gives<M, decltype(u_not), const M&>(), true, how);
  chk("mask ~ - ++", tn, can<decltype(u_com), const M&> || can<decltype(u_neg), const M&> || can<decltype(u_inc), M&>, false, how);
  chk("mask op vector", tn, can<decltype(o_land), const M&, const V&> || can<decltype(o_and), const V&, const M&> || can<decltype(o_add), const V&, const M&>, false, how);
  // reductions
#define B(name, F, R)                                                                              \
  chk(name, tn, gives<R, decltype(F), const M&>(), true, "of a mask");                             \
  chk(name, tn, gives<R, decltype(F), bool>(), true, "of bool");                                   \
  chk(name, tn, can<decltype(F), int> || can<decltype(F), double> || can<decltype(F), void*>, false, "of int, double or a pointer"); \
  chk(name, tn, can<decltype(F), const V&>, false, "of a vector");
  B("all_of", f_all, bool) B("any_of", f_any, bool) B("none_of", f_none, bool) B("some_of", f_some, bool)
  B("popcount", f_pop, int) B("find_first_set", f_ffs, int) B("find_last_set", f_fls, int)
#undef B
  chk("reduce", tn, gives<T, decltype(f_reduce), const V&>(), true, how);
  chk("hmin", tn, gives<T, decltype(f_hmin), const V&>(), true, how);
  chk("hmax", tn, gives<T, decltype(f_hmax), const V&>(), true, how);
  chk("reduce of a mask", tn, can<decltype(f_reduce), const M&> || can<decltype(f_hmin), const M&>, false, how);
  chk("min", tn, gives<V, decltype(f_min), const V&, const V&>() && gives<V, decltype(f_max), const V&, const V&>(), true, how);
  chk("minmax", tn, gives<std::pair<V, V>, decltype(f_minmax), const V&, const V&>(), true, how);
  chk("clamp", tn, gives<V, decltype(f_clamp), const V&, const V&, const V&>(), true, how);
  // where
  using WE = stdx::where_expression<M, V>;
  using CWE = stdx::const_where_expression<M, V>;
  chk("where(mask, vector)", tn, gives<WE, decltype(f_where), const M&, V&>(), true, how);
  chk("where(mask, const vector)", tn, gives<CWE, decltype(f_where), const M&, const V&>(), true, how);
  chk("where(mask, mask)", tn, gives<stdx::where_expression<M, M>, decltype(f_where), const M&, M&>(), true, how);
  chk("where(mask, const mask)", tn, gives<stdx::const_where_expression<M, M>, decltype(f_where), const M&, const M&>(), true, how);
  chk("where(bool, value)", tn, gives<stdx::where_expression<bool, T>, decltype(f_where), bool, T&>(), true, how);
  chk("where(bool, const value)", tn, gives<stdx::const_where_expression<bool, T>, decltype(f_where), bool, const T&>(), true, how);
  chk("where(int, value)", tn, can<decltype(f_where), int, T&>, false, how);
  chk("where_expression is a const_where_expression", tn, std::is_base_of_v<CWE, WE>, true, how);
  chk("reduce(where)", tn, gives<T, decltype(f_reduce), const CWE&>() && gives<T, decltype(f_hmin), const CWE&>() && gives<T, decltype(f_hmax), const CWE&>(), true, how);
  // split and concat
  using S1 = stdx::simd<T, sa::scalar>;
  using SN = stdx::simd<T, sa::deduce_t<T, N>>;
  chk("split to scalars", tn, gives<std::array<S1, N>, decltype(Cast<S1>::f_split), const V&>(), true, how);
  if constexpr (N * 2 <= maxn<T>())
    {
      using W = stdx::simd<T, sa::deduce_t<T, N * 2>>;
      chk("split to a wider vector", tn, can<decltype(Cast<W>::f_split), const V&>, false, how);
      chk("concat", tn, gives<W, decltype(f_concat), const V&, const V&>(), true, how);
    }
  if constexpr (N % 2 == 0)
    {
      using W = stdx::simd<T, sa::deduce_t<T, N / 2>>;
      chk("split to halves", tn, gives<std::array<W, 2>, decltype(Cast<W>::f_split), const V&>(), true, how);
      chk("split<sizes>", tn, gives<std::tuple<W, W>, decltype(Sizes<N / 2, N / 2>::f), const V&>(), true, how);
    }
  if constexpr (N >= 4)
    {
      using X = stdx::fixed_size_simd<T, 3>;
      chk("split into parts of 3", tn, can<decltype(Cast<X>::f_split), const V&>, N % 3 == 0, how);
      chk("split<sizes> of a different sum", tn, can<decltype(Sizes<1, N - 2>::f), const V&> || can<decltype(Sizes<1, N>::f), const V&>, false, how);
      using W1 = stdx::simd<T, sa::deduce_t<T, N - 1>>;
      chk("split<1, N-1>", tn, gives<std::tuple<S1, W1>, decltype(Sizes<1, N - 1>::f), const V&>(), true, how);
    }
  // against all other vector types
  each(tlist<ALLT>(), [&](auto u) {
    using U = typename decltype(u)::type;
    const char* un = tname<U>();
    constexpr bool other = !std::is_same_v<U, T>;
    if constexpr (N <= maxn<U>())
      {
	using W = stdx::fixed_size_simd<U, N>;
	using D = stdx::simd<U, sa::deduce_t<U, N>>;
	using K = typename W::mask_type;
	using KD = typename D::mask_type;
	// V <- W, V <- D
	constexpr bool fx = is_fixed<A>;
	constexpr bool cw = std::is_same_v<V, W> || (fx && vconv<U, T>());
	constexpr bool cd = std::is_same_v<V, D> || (fx && is_fixed<typename D::abi_type> && vconv<U, T>());
	chk("implicit conversion", tn, std::is_convertible_v<const W&, V>, cw, "%s from fixed_size of %s", how, un);
	chk("construction", tn, std::is_constructible_v<V, const W&>, cw, "%s from fixed_size of %s", how, un);
	chk("implicit conversion", tn, std::is_convertible_v<const D&, V>, cd, "%s from deduced of %s", how, un);
	chk("construction", tn, std::is_constructible_v<V, const D&>, cd, "%s from deduced of %s", how, un);
	chk("assignment", tn, std::is_assignable_v<V&, const W&>, cw, "%s from fixed_size of %s", how, un);
	constexpr bool back = std::is_same_v<V, W> || (fx && vconv<T, U>());
	if constexpr (other)
	  {
	    chk("mixed +", tn, can<decltype(o_add), const V&, const W&>, cw != back, "%s with fixed_size of %s", how, un);
	    chk("mixed ==", tn, can<decltype(o_eq), const V&, const W&>, cw != back, "%s with fixed_size of %s", how, un);
	    if constexpr (!is_fixed<typename D::abi_type>)
	      chk("mixed +", tn, can<decltype(o_add), const V&, const D&>, false, "%s with deduced of %s", how, un);
	    if (cw && !back)
	      chk("mixed + type", tn, gives<V, decltype(o_add), const V&, const W&>() && gives<V, decltype(o_add), const W&, const V&>(), true, "%s with fixed_size of %s", how, un);
	    chk("concat of different types", tn, can<decltype(f_concat), const V&, const W&>, false, "%s with %s", how, un);
	    chk("split to another element type", tn, can<decltype(Cast<stdx::simd<U, sa::scalar>>::f_split), const V&>, false, "%s to %s", how, un);
	    chk("where with the mask of another type", tn, can<decltype(f_where), const KD&, V&>, fx && is_fixed<typename D::abi_type>, "%s, %s", how, un);
	  }
	// masks convert implicitly only between fixed_size of equal size
	chk("implicit mask conversion", tn, std::is_convertible_v<const K&, M>, fx || std::is_same_v<K, M>, "%s from fixed_size of %s", how, un);
	if constexpr (!is_fixed<typename KD::abi_type>)
	  chk("implicit mask conversion", tn, std::is_convertible_v<const KD&, M>, std::is_same_v<KD, M>, "%s from deduced of %s", how, un);
	// casts
	constexpr bool pres = preserving<T, U>();
	chk("static_simd_cast<vector>", tn, gives<W, decltype(Cast<W>::f_static), const V&>() && gives<D, decltype(Cast<D>::f_static), const V&>(), true, "%s to %s", how, un);
	chk("simd_cast<vector>", tn, can<decltype(Cast<W>::f_simd), const V&>, pres, "%s to fixed_size of %s", how, un);
	chk("simd_cast<vector>", tn, can<decltype(Cast<D>::f_simd), const V&>, pres, "%s to deduced of %s", how, un);
	if (pres)
	  chk("simd_cast<vector> type", tn, gives<W, decltype(Cast<W>::f_simd), const V&>() && gives<D, decltype(Cast<D>::f_simd), const V&>(), true, "%s to %s", how, un);
	// the same integer type but for the sign (P2TS issue 65)
	constexpr bool signchange = std::is_integral_v<T> && std::is_integral_v<U>
				    && std::is_same_v<typename msigned<T>::type, typename msigned<U>::type>;
	if constexpr (!other || signchange)
	  {
	    using E = stdx::simd<U, A>;
	    chk("static_simd_cast<element type> type", tn, gives<E, decltype(Cast<U>::f_static), const V&>(), true, "%s to %s", how, un);
	    chk("simd_cast<element type>", tn, can<decltype(Cast<U>::f_simd), const V&>, pres, "%s to %s", how, un);
	    if (pres)
	      chk("simd_cast<element type> type", tn, gives<E, decltype(Cast<U>::f_simd), const V&>(), true, "%s to %s", how, un);
	  }
	else
	  {
	    chk("static_simd_cast<element type> type", tn, gives<W, decltype(Cast<U>::f_static), const V&>(), true, "%s to %s", how, un);
	    chk("simd_cast<element type>", tn, can<decltype(Cast<U>::f_simd), const V&>, pres, "%s to %s", how, un);
	    if (pres)
	      chk("simd_cast<element type> type", tn, gives<W, decltype(Cast<U>::f_simd), const V&>(), true, "%s to %s", how, un);
	  }
	chk("mask static_simd_cast", tn, gives<KD, decltype(Cast<D>::f_mstatic), const M&>() && gives<KD, decltype(Cast<KD>::f_mstatic), const M&>(), true, "%s to %s", how, un);
      }
    if constexpr (N + 1 <= maxn<U>())
      {
	using X = stdx::fixed_size_simd<U, N + 1>;
	chk("conversion between different sizes", tn, std::is_constructible_v<V, const X&> || std::is_constructible_v<X, const V&> || std::is_assignable_v<V&, const X&>, false, "%s and %s", how, un);
	chk("mask conversion between different sizes", tn, std::is_constructible_v<M, const typename X::mask_type&>, false, "%s and %s", how, un);
	chk("static_simd_cast to a different size", tn, can<decltype(Cast<X>::f_static), const V&> || can<decltype(Cast<X>::f_simd), const V&>, false, "%s to %s", how, un);
	chk("mask static_simd_cast to a different size", tn, can<decltype(Cast<typename X::mask_type>::f_mstatic), const M&>, false, "%s to %s", how, un);
	chk("operators on different sizes", tn, can<decltype(o_add), const V&, const X&> || can<decltype(o_lt), const X&, const V&>, false, "%s and %s", how, un);
	chk("where with a different size", tn, can<decltype(f_where), const typename X::mask_type&, V&>, false, "%s and %s", how, un);
      }
  });
}

// ---------------------------------------------------------------- <cmath>
#define M1(X)                                                                                      \
  X(acos, V) X(asin, V) X(atan, V) X(sin, V) X(cos, V) X(tan, V) X(acosh, V) X(asinh, V) X(atanh, V) X(sinh, V) X(cosh, V) X(tanh, V)                      \
  X(exp, V) X(exp2, V) X(expm1, V) X(log, V) X(log10, V) X(log1p, V) X(log2, V) X(logb, V) X(cbrt, V) X(sqrt, V) X(erf, V) X(erfc, V) X(lgamma, V)         \
  X(tgamma, V) X(ceil, V) X(floor, V) X(nearbyint, V) X(rint, V) X(round, V) X(trunc, V) X(comp_ellint_1, V) X(comp_ellint_2, V) X(expint, V)              \
  X(riemann_zeta, V) X(ilogb, IV) X(fpclassify, IV) X(lrint, LV) X(lround, LV) X(llrint, LLV) X(llround, LLV)                                              \
  X(isfinite, M) X(isinf, M) X(isnan, M) X(isnormal, M)
#define M2(X)                                                                                      \
  X(atan2, V) X(pow, V) X(fmod, V) X(remainder, V) X(nextafter, V) X(fdim, V) X(fmax, V) X(fmin, V) X(beta, V) X(comp_ellint_3, V) X(cyl_bessel_i, V)      \
  X(cyl_bessel_j, V) X(cyl_bessel_k, V) X(cyl_neumann, V) X(ellint_1, V) X(ellint_2, V) X(isgreater, M) X(isgreaterequal, M) X(isless, M)                  \
  X(islessequal, M) X(islessgreater, M) X(isunordered, M)
#define X(f, R) FN1(m_##f, f(a));
M1(X)
X(abs, V)
X(fabs, V)
X(signbit, M)
#undef X
#define X(f, R) FN2(m_##f, f(a, b));
M2(X)
X(hypot, V)
X(copysign, V)
X(frexp, V)
X(modf, V)
X(ldexp, V)
X(scalbn, V)
X(scalbln, V)
X(hermite, V)
X(laguerre, V)
X(legendre, V)
X(sph_bessel, V)
X(sph_neumann, V)
#undef X
FN3(m_fma, fma(a, b, c));
FN3(m_ellint_3, ellint_3(a, b, c));
FN3(m_hypot3, hypot(a, b, c));
FN3(m_remquo, remquo(a, b, c));
FN3(m_assoc_laguerre, assoc_laguerre(a, b, c));
FN3(m_assoc_legendre, assoc_legendre(a, b, c));
FN3(m_sph_legendre, sph_legendre(a, b, c));

template <class V> void math(const char* how)
{
  using T = typename V::value_type;
  using M = typename V::mask_type;
  constexpr int N = V::size();
  using IV = stdx::fixed_size_simd<int, N>;
  using UV = stdx::fixed_size_simd<unsigned, N>;
  using LV = stdx::fixed_size_simd<long, N>;
  using LLV = stdx::fixed_size_simd<long long, N>;
  const char* tn = tname<T>();
  constexpr bool fp = std::is_floating_point_v<T>;
#define X(f, R)                                                                                    \
  chk(#f, tn, can<decltype(m_##f), const V&>, fp, how);                                            \
  if constexpr (fp)                                                                                \
    chk(#f " type", tn, gives<R, decltype(m_##f), const V&>(), true, how);
  M1(X)
#undef X
  chk("abs", tn, gives<V, decltype(m_abs), const V&>(), std::is_signed_v<T>, how);
  if (fp)
    chk("fabs", tn, gives<V, decltype(m_fabs), const V&>(), true, how);
  chk("signbit", tn, gives<M, decltype(m_signbit), const V&>(), true, how);
#define X(f, R)                                                                                    \
  chk(#f, tn, gives<R, decltype(m_##f), const V&, const V&>(), fp, how);                           \
  chk(#f, tn, can<decltype(m_##f), const V&, const V&>, fp, how);
  M2(X)
  X(hypot, V)
  X(copysign, V)
#undef X
  chk("fma", tn, gives<V, decltype(m_fma), const V&, const V&, const V&>(), fp, how);
  chk("hypot3", tn, gives<V, decltype(m_hypot3), const V&, const V&, const V&>(), fp, how);
  chk("ellint_3", tn, gives<V, decltype(m_ellint_3), const V&, const V&, const V&>(), fp, how);
  chk("fma", tn, can<decltype(m_fma), const V&, const V&, const V&>, fp, how);
  chk("hypot3", tn, can<decltype(m_hypot3), const V&, const V&, const V&>, fp, how);
  chk("ellint_3", tn, can<decltype(m_ellint_3), const V&, const V&, const V&>, fp, how);
  chk("frexp", tn, gives<V, decltype(m_frexp), const V&, IV*>(), fp, how);
  chk("frexp", tn, can<decltype(m_frexp), const V&, LV*> || can<decltype(m_frexp), const V&, int*>, false, "wrong exponent type");
  chk("modf", tn, gives<V, decltype(m_modf), const V&, V*>(), fp, how);
  chk("modf", tn, can<decltype(m_modf), const V&, T*>, false, "pointer to an element");
  chk("ldexp", tn, gives<V, decltype(m_ldexp), const V&, const IV&>(), fp, how);
  chk("scalbn", tn, gives<V, decltype(m_scalbn), const V&, const IV&>(), fp, how);
  chk("scalbln", tn, gives<V, decltype(m_scalbln), const V&, const LV&>(), fp, how);
  chk("ldexp int", tn, gives<V, decltype(m_ldexp), const V&, int>(), fp, how);
  chk("scalbn int", tn, gives<V, decltype(m_scalbn), const V&, int>(), fp, how);
  chk("scalbln long", tn, gives<V, decltype(m_scalbln), const V&, long>() && gives<V, decltype(m_scalbln), const V&, int>(), fp, how);
  chk("remquo", tn, gives<V, decltype(m_remquo), const V&, const V&, IV*>(), fp, how);
  chk("special functions with a degree", tn, gives<V, decltype(m_hermite), const UV&, const V&>(), fp, "hermite");
  chk("special functions with a degree", tn, gives<V, decltype(m_laguerre), const UV&, const V&>(), fp, "laguerre");
  chk("special functions with a degree", tn, gives<V, decltype(m_legendre), const UV&, const V&>(), fp, "legendre");
  chk("special functions with a degree", tn, gives<V, decltype(m_sph_bessel), const UV&, const V&>(), fp, "sph_bessel");
  chk("special functions with a degree", tn, gives<V, decltype(m_sph_neumann), const UV&, const V&>(), fp, "sph_neumann");
  chk("special functions with a degree", tn, gives<V, decltype(m_assoc_laguerre), const UV&, const UV&, const V&>(), fp, "assoc_laguerre");
  chk("special functions with a degree", tn, gives<V, decltype(m_assoc_legendre), const UV&, const UV&, const V&>(), fp, "assoc_legendre");
  chk("special functions with a degree", tn, gives<V, decltype(m_sph_legendre), const UV&, const UV&, const V&>(), fp, "sph_legendre");
  auto mixed = [&](auto f, const char* fn) {
    using F = typename decltype(f)::type;
    constexpr bool ok = fp && accepted<F, T>();
#define X(f, R)                                                                                    \
  chk(#f, tn, gives<R, decltype(m_##f), const V&, const F&>(), ok, "of vector and %s", fn);        \
  chk(#f, tn, gives<R, decltype(m_##f), const F&, const V&>(), ok, "of %s and vector", fn);        \
  chk(#f, tn, can<decltype(m_##f), const V&, const F&>, ok, "of vector and %s", fn);               \
  chk(#f, tn, can<decltype(m_##f), const F&, const V&>, ok, "of %s and vector", fn);
    M2(X)
    X(hypot, V)
#undef X
#define X(id)                                                                                      \
  chk(#id, tn, gives<V, decltype(m_##id), const V&, const V&, const F&>(), ok, "of vector, vector, %s", fn); \
  chk(#id, tn, gives<V, decltype(m_##id), const V&, const F&, const V&>(), ok, "of vector, %s, vector", fn); \
  chk(#id, tn, gives<V, decltype(m_##id), const F&, const V&, const V&>(), ok, "of %s, vector, vector", fn);
    X(hypot3)
    X(fma)
    X(ellint_3)
#undef X
  };
  each(tlist<ALLT, bool>(), [&](auto f) { mixed(f, tname<typename decltype(f)::type>()); });
  mixed(tag<Scoped>(), "scoped enumeration");
  mixed(tag<Nothing>(), "unrelated class");
  mixed(tag<To<T>>(), "class convertible to the element type");
  each(tlist<float, double, int, uint>(), [&](auto u) {
    using U = typename decltype(u)::type;
    using W = stdx::fixed_size_simd<U, N>;
    if constexpr (!std::is_same_v<U, T>)
      {
	constexpr bool ok = fp && is_fixed<typename V::abi_type> && vconv<U, T>();
	constexpr bool rev = std::is_floating_point_v<U> && is_fixed<typename V::abi_type> && vconv<T, U>();
	chk("pow", tn, gives<V, decltype(m_pow), const V&, const W&>(), ok && !rev, "with fixed_size of %s", tname<U>());
	chk("atan2", tn, gives<V, decltype(m_atan2), const W&, const V&>(), ok && !rev, "with fixed_size of %s", tname<U>());
	chk("hypot", tn, gives<V, decltype(m_hypot), const W&, const V&>(), ok && !rev, "with fixed_size of %s", tname<U>());
      }
  });
}
int main(int argc, char** argv)
{
  init(argc, argv);
  each_type([](auto t) {
    using T = typename decltype(t)::type;
    using A = abi_of<T, VH_ABI>;
    VH_SAMPLE(std::string("overloads with ") + tname<T>());
    if constexpr (!std::is_void_v<A>)
      {
	const char* how = VH_ABI == 0 ? "scalar" : VH_ABI == 1 ? "native" : VH_ABI > 100 && VH_ABI < 200 ? "fixed_size" : "deduced";
	per_vector<stdx::simd<T, A>>(how);
	math<stdx::simd<T, A>>(how);
      }
  });
  finish_line();
}
