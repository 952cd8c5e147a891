#include "drvw.h"
namespace vh
{
template <class T> static bool bits_equal(const T& a, const T& b)
{
  return std::memcmp(&a, &b, std::is_same_v<T, ldouble> ? 10 : sizeof(T)) == 0;
}
template <class T> static const std::vector<std::vector<char>>& masks_for(int N)
{
  static std::map<int, std::vector<std::vector<char>>> c;
  auto& r = c[N];
  if (r.empty())
    r = mask_patterns(N, deep ? 12 : 8);
  return r;
}

template <class T> void where_op(const char* name, int N, KW<T> op, R2<T> ref, P2<T> valid, bool scalar)
{
  if (!want(name))
    return;
  set_op(name, tname<T>());
  std::vector<T> A, B;
  const auto& al = deep ? alphabet<T>() : small_alphabet<T>();
  for (T b : al)
    for (T a : al)
      {
	A.push_back(a);
	B.push_back(b);
      }
  const std::size_t M = A.size();
  for (int i = 0; i < N; ++i)
    {
      A.push_back(A[i]);
      B.push_back(B[i]);
    }
  T a[64], b[64], out[64];
  bool k[64];
  unsigned long long n = 0;
  auto one = [&](const std::vector<char>& m, std::size_t w) {
    bool anysel = false;
    for (int i = 0; i < N; ++i)
      {
	k[i] = m[i];
	a[i] = A[w + i];
	b[i] = scalar ? B[w] : B[w + i];
	if (k[i] && !valid(a[i], b[i]))
	  {
	    if (!scalar)
	      b[i] = T(1);
	    if (!valid(a[i], b[i]))
	      a[i] = T(1);
	    if (!valid(a[i], b[i]))
	      return;
	  }
	anysel |= k[i];
      }
    op(k, a, b, out);
    ++n;
    for (int i = 0; i < N; ++i)
      {
	bool ok;
	T e;
	if (k[i])
	  {
	    e = ref(a[i], b[i]);
	    ok = bits_equal(e, out[i]) || same(out[i], e);
	  }
	else
	  {
	    e = a[i];
	    ok = bits_equal(e, out[i]);
	  }
	if (__builtin_expect(!ok, 0))
	  bad("mask " + show_mask(m) + " lane " + std::to_string(i) + (k[i] ? " (selected)" : " (not selected)") + " a="
	      + show(a[i]) + " b=" + show(b[i]) + " expected " + show(e) + " got " + show(out[i]));
      }
  };
  // every operand pair in every lane, selected and not
  std::vector<std::vector<char>> four(4, std::vector<char>(N));
  for (int i = 0; i < N; ++i)
    {
      four[0][i] = 1;
      four[2][i] = i & 1;
      four[3][i] = !(i & 1);
    }
  for (const auto& m : four)
    for (std::size_t w = 0; w < M; ++w)
      one(m, w);
  // every mask pattern with windows spread over the operand pairs
  const auto& ms = masks_for<T>(N);
  const std::size_t per = std::max<std::size_t>(2, (deep ? 40000 : 4000) / ms.size());
  std::size_t w = 0;
  for (const auto& m : ms)
    for (std::size_t i = 0; i < per; ++i)
      one(m, w = (w + 7 * N + 3) % M);
  st.states += n;
  st.execs += n;
  st.trans += n * N;
  VH_SAMPLE(std::string(name) + " " + tname<T>() + " mask " + show_mask(ms[ms.size() / 2]));
}

template <class T>
void where_const_check(const char* name, const char* how, int seed, int N, const bool* k, const T* a, const T* b,
		       const T* out, R2<T> ref)
{
  set_op(name, tname<T>());
  for (int i = 0; i < N; ++i)
    {
      const T e = k[i] ? ref(a[i], b[i]) : a[i];
      if (!(bits_equal(e, out[i]) || (k[i] && same(out[i], e))))
	bad(std::string(how) + " seed " + std::to_string(seed) + " lane " + std::to_string(i) + (k[i] ? " (selected)" : " (not selected)")
	    + " a=" + show(a[i]) + " b=" + show(b[i]) + " expected " + show(e) + " got " + show(out[i]));
    }
  ++st.states;
  ++st.execs;
  st.trans += N;
}

void where_mask(const char* name, const char* T, int N, KWM op, bool (*ref)(bool k, bool a, bool b))
{
  if (!want(name))
    return;
  set_op(name, T);
  const auto ms = mask_patterns(N, deep ? 7 : 5);
  std::vector<const std::vector<char>*> sub;
  const std::size_t step = std::max<std::size_t>(1, ms.size() / 24);
  for (std::size_t i = 0; i < ms.size(); i += N <= 5 ? 1 : step)
    sub.push_back(&ms[i]);
  bool k[64], a[64], b[64], o[64];
  for (const auto& m : ms)
    for (auto* pa : sub)
      for (std::size_t q = 0; q < sub.size(); q += N <= 5 ? 1 : 5)
	{
	  auto* pb = sub[q];
	  for (int i = 0; i < N; ++i)
	    {
	      k[i] = m[i];
	      a[i] = (*pa)[i];
	      b[i] = (*pb)[i];
	    }
	  op(k, a, b, o);
	  for (int i = 0; i < N; ++i)
	    if (o[i] != ref(k[i], a[i], b[i]))
	      bad("k=" + show_mask(m) + " a=" + show_mask(*pa) + " b=" + show_mask(*pb) + " lane " + std::to_string(i) + " got "
		  + show(o[i]));
	  ++st.states;
	  ++st.execs;
	  st.trans += N;
	}
}
#define VH_X(T)                                                                                    \
  template void where_op<T>(const char*, int, KW<T>, R2<T>, P2<T>, bool);                          \
  template void where_const_check<T>(const char*, const char*, int, int, const bool*, const T*,    \
				     const T*, const T*, R2<T>);
VH_ALL_TYPES(VH_X)
} // namespace vh
