// Common harness, part 1: alphabets, reporting, types. Does not use the library under test.
#pragma once
#include <algorithm>
#include <array>
#include <bitset>
#include <cfenv>
#include <cfloat>
#include <climits>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>

namespace vh
{
using schar = signed char;
using uchar = unsigned char;
using ushort = unsigned short;
using uint = unsigned int;
using ulong = unsigned long;
using llong = long long;
using ullong = unsigned long long;
using ldouble = long double;

template <class T> struct tag { using type = T; };
template <class... Ts> struct tlist {};
template <class F, class... Ts> void each(tlist<Ts...>, F&& f) { (f(tag<Ts>()), ...); }

template <class T> const char* tname();
#define VH_TN(T, N) template <> inline const char* tname<T>() { return N; }
VH_TN(char, "char")
VH_TN(schar, "schar")
VH_TN(uchar, "uchar")
VH_TN(short, "short")
VH_TN(ushort, "ushort")
VH_TN(int, "int")
VH_TN(uint, "uint")
VH_TN(long, "long")
VH_TN(ulong, "ulong")
VH_TN(llong, "llong")
VH_TN(ullong, "ullong")
VH_TN(float, "float")
VH_TN(double, "double")
VH_TN(ldouble, "ldouble")
VH_TN(wchar_t, "wchar_t")
VH_TN(char16_t, "char16_t")
VH_TN(char32_t, "char32_t")
VH_TN(bool, "bool")

// ---------------------------------------------------------------- reporting
struct Stats
{
  unsigned long long states = 0;  // distinct (configuration, operand) states enumerated
  unsigned long long trans = 0;	  // reference-model transitions (one element / one memory cell each)
  unsigned long long execs = 0;	  // executions of the real library compared with the model
  unsigned long long bad = 0;
};
extern Stats st;
extern char cur_op[256], cur_T[64];
extern std::string only_op; // replay filter
extern std::string first_sample;
extern bool deep; // thorough tier
extern int finite; // 1: operands and results are finite (-ffinite-math-only); 2: and neither subnormal nor -0 (-ffast-math)
bool special(float);
bool special(double);
bool special(long double);
bool undetermined(float);
bool undetermined(double);
bool undetermined(long double);
extern bool division_traps;

template <class T> std::string show(T x);
void set_op(const char* op, const char* T);
void bad(const std::string& detail);
void check_bool(bool ok, const std::string& detail);
void finish_line();
void init(int argc, char** argv);
template <class T> std::vector<T> make_alphabet(int want_size);
template <class T> const std::vector<T>& alphabet();
template <class T> const std::vector<T>& small_alphabet();
template <class T> std::vector<T> all_values16();
std::vector<std::vector<char>> mask_patterns(int n, int lim);
std::string show_mask(const std::vector<char>& m);

#define VH_ALL_TYPES(X)                                                                            \
  X(char) X(schar) X(uchar) X(short) X(ushort) X(int) X(uint) X(long) X(ulong) X(llong) X(ullong)  \
  X(float) X(double) X(ldouble) X(wchar_t) X(char16_t) X(char32_t)
#define VH_X(T)                                                                                    \
  extern template std::string show<T>(T);                                                          \
  extern template std::vector<T> make_alphabet<T>(int);                                            \
  extern template const std::vector<T>& alphabet<T>();                                             \
  extern template const std::vector<T>& small_alphabet<T>();                                       \
  extern template std::vector<T> all_values16<T>();
VH_ALL_TYPES(VH_X)
#undef VH_X
extern template std::string show<bool>(bool);

inline bool want(const char* op) { return only_op.empty() || only_op == op; }
#define VH_SAMPLE(...)                                                                             \
  do                                                                                               \
    {                                                                                              \
      if (vh::first_sample.empty())                                                                 \
	vh::first_sample = __VA_ARGS__;                                                            \
    }                                                                                              \
  while (0)

// ---------------------------------------------------------------- values
template <class T> bool same(T a, T b)
{
  if constexpr (std::is_floating_point_v<T>)
    {
      if (finite && undetermined(b)) // b is the reference
	return true;
      if (std::isnan(a) || std::isnan(b))
	return std::isnan(a) && std::isnan(b);
      return a == b && (finite == 2 || std::signbit(a) == std::signbit(b));
    }
  else
    return a == b;
}

template <class T> T opaque(T x)
{
  asm volatile("" : "+m"(x));
  return x;
}
template <class T> void clobber(T& x) { asm volatile("" : "+m"(x)); }

// compile-time tables for the constant-operand runs: small, valid for every operator
template <class T> struct ctab
{
  static constexpr int n = 11;
  static constexpr int iv[n] = {3, 1, 7, 0, 100, 2, 64, 5, 31, 127, 11};
  static constexpr int nz[n] = {2, 5, 1, 3, 9, 7, 100, 4, 13, 6, 10};
  static constexpr T val(int seed, int i)
  {
    const int k = (i * 3 + seed * 5 + i / 7) % n;
    int x = iv[k];
    if constexpr (std::is_signed_v<T>)
      if ((i * 7 + seed + i / 3) % 3 == 1)
	x = -x;
    if constexpr (std::is_floating_point_v<T>)
      return T(x) / 4;
    else
      return T(x);
  }
  static constexpr T nonzero(int seed, int i)
  {
    const int k = (i * 2 + seed * 3 + i / 5) % n;
    int x = nz[k];
    if constexpr (std::is_signed_v<T>)
      if ((i * 5 + seed) % 3 == 2)
	x = -x;
    return T(x);
  }
};
constexpr bool cmask(int seed, int i, int n)
{
  switch (seed)
    {
    case 0: return false;
    case 1: return true;
    case 2: return i == 0;
    case 3: return i == n - 1;
    case 4: return i % 2 == 0;
    case 5: return i % 2 == 1;
    case 6: return i < n / 2;
    case 7: return i >= n / 2;
    case 8: return i != n / 2;
    case 9: return (i * 5 / 3) % 3 != 1;
    default: return i % 3 == seed % 3;
    }
}
template <class C> std::string show_lanes(const C& c)
{
  std::string s = "[";
  for (std::size_t i = 0; i < c.size(); ++i)
    {
      if (i)
	s += ' ';
      s += show(c[i]);
    }
  return s + "]";
}

} // namespace vh
