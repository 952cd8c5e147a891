// C20: the numeric traits (P1841) of every arithmetic type against std::numeric_limits.
#include "vhcfg.h"
#include <cstdarg>
using namespace vh;

void chk(const char* name, const char* tn, bool ok, const char* fmt, ...)
{
  if (!want(name))
    return;
  set_op(name, tn);
  st.states++, st.trans++, st.execs++;
  if (first_sample.empty())
    first_sample = std::string(name) + " " + tn;
  if (!ok)
    {
      char buf[200];
      va_list ap;
      va_start(ap, fmt);
      vsnprintf(buf, sizeof buf, fmt, ap);
      va_end(ap);
      check_bool(false, buf);
    }
}
template <class T> bool bits_same(T a, T b)
{
  if constexpr (std::is_floating_point_v<T>)
    return std::memcmp(&a, &b, sizeof(T) == 16 ? (LDBL_MANT_DIG == 64 ? 10 : 16) : sizeof(T)) == 0;
  else
    return a == b;
}
template <template <class> class Tr, class T> constexpr bool exists = std::__value_exists_v<Tr, T>;
template <class T, class = void> struct has_value : std::false_type {};
template <class T> struct has_value<T, std::void_t<decltype(T::value)>> : std::true_type {};

// name, trait, expected existence, expected value, its type
#define TRAIT(NAME, EXISTS, VALUE, TYPE)                                                           \
  {                                                                                                \
    chk(#NAME " exists", tn, exists<std::__##NAME, Q> == bool(EXISTS) && has_value<std::__##NAME<Q>>::value == bool(EXISTS), "%d", exists<std::__##NAME, Q>); \
    if constexpr ((EXISTS) && has_value<std::__##NAME<Q>>::value)                                  \
      {                                                                                            \
	chk(#NAME " type", tn, std::is_same_v<decltype(std::__##NAME<Q>::value), const TYPE> && std::is_same_v<decltype(std::__##NAME##_v<Q>), const TYPE>, "-"); \
	constexpr auto v = std::__##NAME<Q>::value;                                                \
	constexpr auto w = std::__##NAME##_v<Q>;                                                   \
	chk(#NAME, tn, bits_same<TYPE>(v, VALUE) && bits_same<TYPE>(w, VALUE), "%.25Lg, expected %.25Lg", (long double)(v), (long double)(VALUE)); \
	chk("value_or " #NAME, tn, bits_same<TYPE>(std::__value_or<std::__##NAME, Q, std::remove_cv_t<TYPE>>(TYPE(3)), v), "-"); \
      }                                                                                            \
    else                                                                                           \
      {                                                                                            \
	chk("value_or " #NAME, tn, std::__value_or<std::__##NAME, Q, int>(42) == 42 && std::__value_or<std::__##NAME, Q, int>() == 0, "-"); \
	chk("value_or " #NAME " converts", tn, std::__value_or<std::__##NAME, Q, double>(1.5) == 1.5, "-"); \
      }                                                                                            \
  }

template <class Q> void traits(const char* tn)
{
  using T = std::remove_cv_t<Q>;
  using L = std::numeric_limits<T>;
  constexpr bool ar = std::is_arithmetic_v<T>, fl = std::is_floating_point_v<T>;
  using V = std::conditional_t<ar, T, int>;
  using LV = std::numeric_limits<V>;
  TRAIT(digits, ar, LV::digits, int)
  TRAIT(digits10, ar, LV::digits10, int)
  TRAIT(radix, ar, LV::radix, int)
  TRAIT(finite_max, ar, LV::max(), V)
  TRAIT(finite_min, ar, LV::lowest(), V)
  TRAIT(norm_min, ar, fl ? LV::min() : V(1), V)
  TRAIT(denorm_min, ar, fl ? LV::denorm_min() : V(1), V)
  TRAIT(max_digits10, ar, fl ? LV::max_digits10 : LV::digits10 + 1, int)
  TRAIT(epsilon, fl, LV::epsilon(), V)
  TRAIT(infinity, fl, LV::infinity(), V)
  TRAIT(quiet_NaN, fl, LV::quiet_NaN(), V)
  TRAIT(round_error, fl, LV::round_error(), V)
  TRAIT(max_exponent, fl, LV::max_exponent, int)
  TRAIT(max_exponent10, fl, LV::max_exponent10, int)
  TRAIT(min_exponent, fl, LV::min_exponent, int)
  TRAIT(min_exponent10, fl, LV::min_exponent10, int)
  chk("signaling_NaN exists", tn, exists<std::__signaling_NaN, Q> == fl, "-");
  chk("reciprocal_overflow_threshold exists", tn, exists<std::__reciprocal_overflow_threshold, Q> == fl, "-");
  if constexpr (fl)
    {
      const T s = std::__signaling_NaN<Q>::value, l = L::signaling_NaN();
      chk("signaling_NaN", tn, bits_same<T>(s, l), "-");
      // the smallest value whose reciprocal is finite
      const T x = opaque(T(std::__reciprocal_overflow_threshold<Q>::value));
#if !VH_FAST // (which may flush subnormal numbers to zero)
      chk("reciprocal_overflow_threshold", tn, x > 0 && T(1) / x <= L::max() && T(1) / x > L::max() / 2, "%.25Lg", (long double)(x));
      const T below = opaque(T(std::nextafter(x, T(0))));
      chk("reciprocal_overflow_threshold is the smallest", tn, T(1) / below > L::max(), "%.25Lg", (long double)(x));
#endif
      chk("reciprocal_overflow_threshold_v", tn, x == T(std::__reciprocal_overflow_threshold_v<Q>), "-");
    }
  constexpr bool same = std::is_same_v<T, Q>;
  if constexpr (same)
    {
#if VH_FAST
      constexpr bool ieee = false;
#else
      constexpr bool ieee = fl;
#endif
#ifdef __SUPPORT_SNAN__
      constexpr bool snan = ieee;
#else
      constexpr bool snan = false;
#endif
      chk("has_iec559_behavior NaN", tn, std::__has_iec559_behavior_v<std::__quiet_NaN, T> == ieee, "-");
      chk("has_iec559_behavior infinity", tn, std::__has_iec559_behavior_v<std::__infinity, T> == ieee, "-");
      chk("has_iec559_behavior sNaN", tn, std::__has_iec559_behavior_v<std::__signaling_NaN, T> == snan, "-");
    }
}
template <class T> void all(const char* tn)
{
  traits<T>(tn);
  traits<const T>((std::string("const ") + tn).c_str());
  traits<volatile T>((std::string("volatile ") + tn).c_str());
  traits<const volatile T>((std::string("cv ") + tn).c_str());
}
enum Enum { E0 };
enum class SEnum : unsigned { E1 };
struct Cls { static constexpr int digits = 3; operator int() const { return 0; } };
int main(int argc, char** argv)
{
  init(argc, argv);
  each(tlist<char, schar, uchar, short, ushort, int, uint, long, ulong, llong, ullong, float, double, ldouble, wchar_t, char16_t, char32_t, bool>(), [](auto t) {
    using T = typename decltype(t)::type;
    all<T>(tname<T>());
  });
#ifdef __cpp_char8_t
  all<char8_t>("char8_t");
#endif
#ifdef __GLIBCXX_TYPE_INT_N_0
  all<__int128>("__int128");
  all<unsigned __int128>("unsigned __int128");
#endif
  all<Enum>("enum");
  all<SEnum>("enum class");
  all<Cls>("class");
  all<int*>("pointer");
  all<std::array<float, 2>>("array");
  finish_line();
}
