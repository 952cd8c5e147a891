#include "drvr.h"
namespace vh
{
// equal up to the sign of zero (the order of a floating-point sum is unspecified and so is the identity used for padding)
template <class T> static bool eqz(T a, T b)
{
  if constexpr (std::is_floating_point_v<T>)
    return a == b || (std::isnan(a) && std::isnan(b));
  else
    return a == b;
}
template <class T> static T neutral(Fold f)
{
  using L = std::numeric_limits<T>;
  switch (f)
    {
    case PLUS:
    case OR:
    case XOR: return T();
    case TIMES: return T(1);
    case MIN: return L::has_infinity && !finite ? L::infinity() : L::max();
    case MAX: return L::has_infinity && !finite ? -L::infinity() : L::lowest();
    default:
      if constexpr (std::is_integral_v<T>)
	return T(~T());
      else
	return T();
    }
}
template <class T> static bool usable(Fold f, T x)
{
  if constexpr (std::is_floating_point_v<T>)
    return !((f == MIN || f == MAX) && std::isnan(x));
  else
    return true;
}
// operands whose fold is exact in every order
template <class T> static std::vector<T> exact(Fold f)
{
  std::vector<T> r;
  if constexpr (std::is_floating_point_v<T>)
    {
      if (f == PLUS)
	for (int i = 0; i < 61; ++i)
	  r.push_back(T((i * 7919) % 4001 - 2000) / 4);
      else if (f == TIMES)
	for (int i = 0; i < 29; ++i)
	  r.push_back(T((i * 5 % 3 ? 1 : -1)) * (i % 4 == 0 ? T(2) : i % 4 == 1 ? T(0.5) : i % 7 == 3 ? T(4) : T(1)));
      else
	for (T x : alphabet<T>())
	  if (usable(f, x))
	    r.push_back(x);
    }
  else
    {
      r = alphabet<T>();
      if (f == TIMES) // keep the product odd, i.e. never absorbed, and the low bits mixed
	for (T& x : r)
	  x = T(x | 1);
    }
  return r;
}
template <class T> static bool one(const T* v, int N, Fold f, RD<T> op)
{
  T e = v[0];
  for (int i = 1; i < N; ++i)
    e = fold(f, e, v[i]);
  const T g = op(v);
  ++st.states;
  ++st.execs;
  st.trans += N;
  if (eqz(e, g))
    return true;
  std::string s;
  for (int i = 0; i < N; ++i)
    s += (i ? "," : "") + show(v[i]);
  bad("{" + s + "} expected " + show(e) + " got " + show(g));
  return false;
}
template <class T> void reduce_check(const char* name, int N, Fold f, RD<T> op)
{
  if (!want(name))
    return;
  set_op(name, tname<T>());
  T v[64];
  const auto ex = exact<T>(f);
  // every element on its own: all values in every lane, the others neutral
  for (int l = 0; l < N; ++l)
    for (T x : alphabet<T>())
      if (usable(f, x))
	{
	  for (int i = 0; i < N; ++i)
	    v[i] = neutral<T>(f);
	  v[l] = x;
	  if (!one(v, N, f, op))
	    return;
	}
  // every pair of lanes, all values of the small alphabet
  for (int a = 0; a < N; ++a)
    for (int b = a + 1; b < N; ++b)
      for (std::size_t k = 0; k < (deep ? ex.size() : 4); ++k)
	{
	  for (int i = 0; i < N; ++i)
	    v[i] = neutral<T>(f);
	  v[a] = ex[(k + a * 5) % ex.size()];
	  v[b] = ex[(k * 3 + b * 7 + 1) % ex.size()];
	  if (!one(v, N, f, op))
	    return;
	}
  // windows
  for (std::size_t s = 1; s <= (deep ? 7 : 3); ++s)
    for (std::size_t k = 0; k < ex.size(); ++k)
      {
	for (int i = 0; i < N; ++i)
	  v[i] = ex[(k + i * s) % ex.size()];
	if (!one(v, N, f, op))
	  return;
      }
  // small vectors: everything
  const auto& sm = small_alphabet<T>();
  std::vector<T> s2;
  for (std::size_t i = 0; i < sm.size(); i += deep || N <= 2 ? 1 : N == 3 ? 3 : 5)
    if (usable(f, sm[i]))
      s2.push_back(sm[i]);
  if constexpr (std::is_floating_point_v<T>)
    if (f == PLUS || f == TIMES)
      s2 = exact<T>(f), s2.resize(std::min<std::size_t>(s2.size(), 9));
  if (N <= 3 || (N == 4 && s2.size() < 16))
    {
      std::size_t tot = 1;
      for (int i = 0; i < N; ++i)
	tot *= s2.size();
      for (std::size_t c = 0; c < tot; ++c)
	{
	  std::size_t q = c;
	  for (int i = 0; i < N; ++i, q /= s2.size())
	    v[i] = s2[q % s2.size()];
	  if (!one(v, N, f, op))
	    return;
	}
    }
  VH_SAMPLE(std::string(name) + " " + tname<T>() + " N=" + std::to_string(N));
}
template <class T> void masked_reduce_check(const char* name, int N, Fold f, T none, MRD<T> op)
{
  if (!want(name))
    return;
  set_op(name, tname<T>());
  const auto ex = exact<T>(f);
  T v[64];
  bool k[64];
  std::size_t w = 0;
  auto go = [&](const std::vector<char>& m) {
    bool any = false;
    T e = none;
    for (int i = 0; i < N; ++i)
      {
	k[i] = m[i];
	if (m[i])
	  {
	    e = any ? fold(f, e, v[i]) : v[i];
	    any = true;
	  }
      }
    const T g = op(k, v);
    ++st.states;
    ++st.execs;
    st.trans += N;
    if (eqz(e, g))
      return true;
    std::string s;
    for (int i = 0; i < N; ++i)
      s += (i ? "," : "") + show(v[i]);
    bad("mask " + show_mask(m) + " {" + s + "} expected " + show(e) + " got " + show(g));
    return false;
  };
  const auto masks = mask_patterns(N, deep ? 12 : 8);
  for (const auto& m : masks)
    for (int rep = 0; rep < 3; ++rep)
      {
	w = w * 3 + 7;
	for (int i = 0; i < N; ++i)
	  { // what is not selected would change the result most
	    v[i] = ex[(w + i * (rep + 1)) % ex.size()];
	    if constexpr (std::is_floating_point_v<T>)
	      {
		if (!m[i] && rep == 1 && !finite)
		  v[i] = std::numeric_limits<T>::quiet_NaN();
	      }
	    else if (!m[i] && rep == 1)
	      v[i] = f == MIN ? std::numeric_limits<T>::lowest() : f == MAX ? std::numeric_limits<T>::max() : f == AND ? T(0) : f == OR ? T(-1) : v[i];
	  }
	if (!go(m))
	  return;
      }
  // all values in one selected lane
  std::vector<char> m(N);
  for (int l = 0; l < N; ++l)
    for (T x : alphabet<T>())
      if (usable(f, x))
	{
	  for (int i = 0; i < N; ++i)
	    {
	      v[i] = ex[(w + i) % ex.size()];
	      m[i] = i == l;
	    }
	  ++w;
	  v[l] = x;
	  if (!go(m))
	    return;
	}
}
template <class T> void clamp_check(const char* name, int N, K3<T> op)
{
  if (!want(name))
    return;
  set_op(name, tname<T>());
  std::vector<T> A, L, H;
  const auto& al = alphabet<T>();
  const auto& sm = small_alphabet<T>();
  for (T x : al)
    for (std::size_t i = 0; i < sm.size(); i += deep ? 1 : 3)
      for (std::size_t j = 0; j < sm.size(); j += deep ? 1 : 4)
	if (x == x && sm[i] <= sm[j] && !(x == 0 && (sm[i] == 0 || sm[j] == 0)))
	  {
	    A.push_back(x);
	    L.push_back(sm[i]);
	    H.push_back(sm[j]);
	  }
  const std::size_t M = A.size();
  for (int i = 0; i < N; ++i)
    {
      A.push_back(A[i]);
      L.push_back(L[i]);
      H.push_back(H[i]);
    }
  T out[64];
  for (std::size_t i = 0; i < M; ++i)
    {
      op(&A[i], &L[i], &H[i], out);
      for (int l = 0; l < N; ++l)
	{
	  const T x = A[i + l], lo = L[i + l], hi = H[i + l];
	  const T e = x < lo ? lo : hi < x ? hi : x;
	  if (!(out[l] == e))
	    bad("lane " + std::to_string(l) + " v=" + show(x) + " lo=" + show(lo) + " hi=" + show(hi) + " expected " + show(e) + " got " + show(out[l]));
	}
    }
  st.states += M;
  st.trans += M * N;
  st.execs += M;
}
template <class T> void reduce_const(const char* name, int N, Fold f, int seed, T got)
{
  if (!want(name))
    return;
  set_op(name, tname<T>());
  T e = ctab<T>::val(seed, 0);
  for (int i = 1; i < N; ++i)
    e = fold(f, e, ctab<T>::val(seed, i));
  if (!eqz(e, got) && !(std::is_floating_point_v<T> && f == TIMES))
    bad("constants, seed " + std::to_string(seed) + " expected " + show(e) + " got " + show(got));
  ++st.states;
  ++st.execs;
  st.trans += N;
}
#define VH_X(T)                                                                                    \
  template void reduce_check<T>(const char*, int, Fold, RD<T>);                                    \
  template void masked_reduce_check<T>(const char*, int, Fold, T, MRD<T>);                         \
  template void clamp_check<T>(const char*, int, K3<T>);                                           \
  template void reduce_const<T>(const char*, int, Fold, int, T);
VH_ALL_TYPES(VH_X)
} // namespace vh
