#include "drvm.h"
namespace vh
{
static std::string ms(const bool* m, int N)
{
  std::string s;
  for (int i = 0; i < N; ++i)
    s += m[i] ? '1' : '0';
  return s;
}
static bool byte_is(const bool* p, bool v)
{
  unsigned char c;
  std::memcpy(&c, p, 1);
  return c == (unsigned char) v;
}
static const std::vector<std::vector<char>>& patterns(int N)
{
  static std::map<int, std::vector<std::vector<char>>> cache;
  auto it = cache.find(N);
  if (it == cache.end())
    it = cache.emplace(N, mask_patterns(N, deep ? 18 : 12)).first;
  return it->second;
}
// pairs: all pairs for N <= 6 (8 deep); else all patterns against a diagonal selection
template <class F> static void pairs(int N, F&& f)
{
  if (N <= (deep ? 9 : 7))
    {
      for (auto& a : mask_patterns(N, 10))
	for (auto& b : mask_patterns(N, 10))
	  f((const bool*) a.data(), (const bool*) b.data());
      return;
    }
  const auto& p = patterns(N);
  const std::size_t M = p.size();
  for (std::size_t i = 0; i < M; ++i)
    for (std::size_t d : {std::size_t(0), std::size_t(1), std::size_t(2), std::size_t(3), M / 2, M / 3, M - 1, (i * 7919) % M, (i * 104729 + 17) % M})
      f((const bool*) p[i].data(), (const bool*) p[(i + d) % M].data());
}
void lanes_check(const char* name, const char* T, const char* detail, int N, const bool* got, const bool* exp)
{
  if (!want(name))
    return;
  set_op(name, T);
  for (int i = 0; i < N; ++i)
    if (!byte_is(got + i, exp[i]))
      {
	bad(std::string(detail) + " expected " + ms(exp, N) + " got " + ms(got, N));
	break;
      }
  ++st.states;
  ++st.execs;
  st.trans += N;
}
void int_check(const char* name, const char* T, const char* detail, long long got, long long exp)
{
  if (!want(name))
    return;
  set_op(name, T);
  if (got != exp)
    bad(std::string(detail) + " expected " + show(exp) + " got " + show(got));
  ++st.states;
  ++st.execs;
  ++st.trans;
}
void mask_unary(const char* name, const char* T, int N, MK1 op, MR1 ref)
{
  if (!want(name))
    return;
  set_op(name, T);
  bool out[64];
  for (auto& a : patterns(N))
    {
      std::memset(out, 0x5a, sizeof out);
      const bool* m = (const bool*) a.data();
      op(m, out);
      for (int i = 0; i < N; ++i)
	if (!byte_is(out + i, ref(m[i])))
	  {
	    bad("lane " + std::to_string(i) + " mask " + ms(m, N) + " got " + ms(out, N));
	    break;
	  }
      ++st.states;
      ++st.execs;
      st.trans += N;
    }
}
void mask_binary(const char* name, const char* T, int N, MK2 op, MR2 ref)
{
  if (!want(name))
    return;
  set_op(name, T);
  pairs(N, [&](const bool* a, const bool* b) {
    bool out[64];
    std::memset(out, 0x5a, sizeof out);
    op(a, b, out);
    for (int i = 0; i < N; ++i)
      if (!byte_is(out + i, ref(a[i], b[i])))
	{
	  bad("lane " + std::to_string(i) + " a=" + ms(a, N) + " b=" + ms(b, N) + " got " + ms(out, N));
	  break;
	}
    ++st.states;
    ++st.execs;
    st.trans += N;
    VH_SAMPLE(std::string(name) + " " + T + " a=" + ms(a, N) + " b=" + ms(b, N) + " -> " + ms(out, N));
  });
}
const char* red_name(Red r)
{
  static const char* n[] = {"all_of", "any_of", "none_of", "some_of", "popcount", "find_first_set", "find_last_set"};
  return n[r];
}
int mask_ref(Red r, const bool* m, int N)
{
  int n = 0, first = -1, last = -1;
  for (int i = 0; i < N; ++i)
    if (m[i])
      {
	++n;
	if (first < 0)
	  first = i;
	last = i;
      }
  switch (r)
    {
    case ALL: return n == N;
    case ANY: return n > 0;
    case NONE: return n == 0;
    case SOME: return n > 0 && n < N;
    case COUNT: return n;
    case FIRST: return first;
    default: return last;
    }
}
void mask_reduce(const char* name, const char* T, int N, Red r, MI2 op, MR2 comb)
{
  const std::string nm = std::string(red_name(r)) + "(" + name + ")";
  if (!want(nm.c_str()))
    return;
  set_op(nm.c_str(), T);
  auto one = [&](const bool* a, const bool* b) {
    bool m[64];
    for (int i = 0; i < N; ++i)
      m[i] = comb(a[i], b[i]);
    const int e = mask_ref(r, m, N);
    if ((r == FIRST || r == LAST) && e < 0)
      return; // precondition: not empty
    const int g = op(a, b);
    if (g != e)
      bad("mask " + ms(m, N) + " (a=" + ms(a, N) + " b=" + ms(b, N) + ") expected " + show(e) + " got " + show(g));
    ++st.states;
    ++st.execs;
    st.trans += N;
  };
  pairs(N, one);
}
void mask_set(const char* name, const char* T, int N, MSET op)
{
  if (!want(name))
    return;
  set_op(name, T);
  for (auto& a : mask_patterns(N, 10))
    {
      const bool* m = (const bool*) a.data();
      for (int i = 0; i < N; ++i)
	for (int v = 0; v < 2; ++v)
	  {
	    bool out[64];
	    op(m, i, v, out);
	    for (int l = 0; l < N; ++l)
	      if (!byte_is(out + l, l == i ? v : m[l]))
		{
		  bad("mask " + ms(m, N) + " [" + show(i) + "]=" + show(v) + " got " + ms(out, N));
		  break;
		}
	    ++st.states;
	    ++st.execs;
	    st.trans += N;
	  }
    }
}
void mask_to_bits(const char* name, const char* T, int N, MB op)
{
  if (!want(name))
    return;
  set_op(name, T);
  for (auto& a : patterns(N))
    {
      const bool* m = (const bool*) a.data();
      unsigned long long e = 0;
      for (int i = 0; i < N; ++i)
	e |= (unsigned long long) m[i] << i;
      const unsigned long long g = op(m);
      if (g != e)
	bad("mask " + ms(m, N) + " expected " + show(e) + " got " + show(g));
      ++st.states;
      ++st.execs;
      st.trans += N;
    }
}
void mask_from_bits(const char* name, const char* T, int N, BM op)
{
  if (!want(name))
    return;
  set_op(name, T);
  for (auto& a : patterns(N))
    {
      const bool* m = (const bool*) a.data();
      unsigned long long e = 0;
      for (int i = 0; i < N; ++i)
	e |= (unsigned long long) m[i] << i;
      bool out[64];
      op(e, out);
      for (int l = 0; l < N; ++l)
	if (!byte_is(out + l, m[l]))
	  {
	    bad("bits " + ms(m, N) + " got " + ms(out, N));
	    break;
	  }
      ++st.states;
      ++st.execs;
      st.trans += N;
    }
}
} // namespace vh
