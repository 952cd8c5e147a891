#include "drvl.h"
namespace vh
{
template <class F, class T> static bool conv_ok(F f)
{
  if constexpr (std::is_floating_point_v<F> && !std::is_floating_point_v<T>)
    { // defined if the truncated value is representable
      using L = std::numeric_limits<T>;
      if (!(f == f))
	return false;
      const long double t = std::trunc((long double) f);
      return t >= (long double) L::min() && t <= (long double) L::max();
    }
  else if constexpr (std::is_floating_point_v<F> && std::is_floating_point_v<T> && sizeof(F) > sizeof(T))
    { // narrowing is undefined for finite values out of range
      if (!std::isfinite(f))
	return true;
      return std::fabs(f) <= (F) std::numeric_limits<T>::max();
    }
  else
    return true;
}
template <class From, class To> const PairTable& pair_table()
{
  static const PairTable r = [] {
    std::vector<From> al;
    if constexpr (std::is_same_v<From, bool>)
      al = {false, true};
    else
      {
	al = make_alphabet<From>(1000);
	if constexpr (std::is_floating_point_v<From> && std::is_integral_v<To>)
	  {
	    using L = std::numeric_limits<To>;
	    for (long double x : {(long double) L::max(), (long double) L::max() - 1, (long double) L::max() - 0.5L, (long double) L::min(), (long double) L::min() + 1,
				  (long double) L::max() / 2, (long double) L::max() / 2 + 1, (long double) L::max() / 3, 100.7L, -100.7L, 127.9L, -128.9L, 255.5L, 32767.5L, 65535.9L,
				  2147483647.L, 2147483648.L, 4294967295.L, 4294967296.L, 1e15L, 1e18L, 1.5e9L, 3e9L})
	      {
		al.push_back(From(x));
		al.push_back(std::nextafter(From(x), From(0)));
	      }
	  }
      }
    std::vector<From> f;
    std::vector<To> t;
    for (From x : al)
      if (conv_ok<From, To>(x))
	{
	  f.push_back(x);
	  t.push_back(static_cast<To>(x));
	}
    PairTable p;
    p.n = f.size();
    p.fs = sizeof(From);
    p.ts = sizeof(To);
    auto* a = new unsigned char[p.n * p.fs]();
    auto* b = new unsigned char[p.n * p.ts]();
    auto* c = new unsigned char[p.n * p.ts]();
    for (std::size_t i = 0; i < p.n; ++i)
      {
	const From x = f[i];
	const To y = t[i];
	std::memcpy(a + i * p.fs, &x, std::is_same_v<From, ldouble> ? 10 : p.fs);
	// C++ lets the implementation choose either neighbour when a 64-bit integer is not representable
	// as float; the library rounds differently from the compiler on AVX2
	To z = y;
	if constexpr (sizeof(From) == 8 && std::is_integral_v<From> && std::is_same_v<To, float>)
	  if ((long double) y != (long double) x)
	    z = std::nextafter(y, (long double) y < (long double) x ? (To) INFINITY : -(To) INFINITY);
	std::memcpy(c + i * p.ts, &z, std::is_same_v<To, ldouble> ? 10 : p.ts);
	std::memcpy(b + i * p.ts, &y, std::is_same_v<To, ldouble> ? 10 : p.ts);
      }
    p.from = a;
    p.to = b;
    p.alt = c;
    p.cmp = std::is_same_v<To, float> ? 1 : std::is_same_v<To, double> ? 2 : std::is_same_v<To, ldouble> ? 3 : 0;
    p.show_from = [](const void* q) {
      From x;
      std::memcpy(&x, q, sizeof x);
      return show(x);
    };
    p.show_to = [](const void* q) {
      To x;
      std::memcpy(&x, q, sizeof x);
      return show(x);
    };
    return p;
  }();
  return r;
}
static bool eq1(int cmp, std::size_t sz, const unsigned char* a, const unsigned char* b)
{
  if (cmp != 3 && std::memcmp(a, b, sz) == 0)
    return true;
  switch (cmp)
    {
    case 1: { float x, y; std::memcpy(&x, a, 4); std::memcpy(&y, b, 4); return same(x, y); }
    case 2: { double x, y; std::memcpy(&x, a, 8); std::memcpy(&y, b, 8); return same(x, y); }
    case 3: { ldouble x, y; std::memcpy(&x, a, 16); std::memcpy(&y, b, 16); return same(x, y); }
    default: return false;
    }
}
static bool eq(const PairTable& t, std::size_t i, const unsigned char* got)
{ return eq1(t.cmp, t.ts, t.to + i * t.ts, got) || eq1(t.cmp, t.ts, t.alt + i * t.ts, got); }
// [inaccessible page][2 pages][inaccessible page]
struct Arena
{
  unsigned char *lo, *hi;
  Arena()
  {
    auto* p = (unsigned char*) mmap(nullptr, 4 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(p, 4096, PROT_NONE);
    mprotect(p + 3 * 4096, 4096, PROT_NONE);
    lo = p + 4096;
    hi = p + 3 * 4096;
  }
};
static Arena& arena()
{
  static Arena a;
  return a;
}
// addresses for an object of the given size: touching the upper and the lower inaccessible page, and
// every offset relative to a 64-byte block that the alignment allows
static std::vector<unsigned char*> places(std::size_t bytes, std::size_t align)
{
  auto& a = arena();
  std::vector<unsigned char*> r;
  r.push_back((unsigned char*) ((std::uintptr_t) (a.hi - bytes) / align * align));
  r.push_back((unsigned char*) (((std::uintptr_t) a.lo + align - 1) / align * align));
  unsigned char* mid = a.lo + 4096 - 64;
  mid = (unsigned char*) (((std::uintptr_t) mid) / align * align);
  for (std::size_t o = 0; o < 64 + align; o += align)
    if (mid + o + bytes <= a.hi)
      r.push_back(mid + o);
  return r;
}
static std::string where_is(const unsigned char* p, std::size_t bytes)
{
  auto& a = arena();
  if (p + bytes == a.hi)
    return "array ends at an inaccessible page";
  if (p == a.lo)
    return "array starts after an inaccessible page";
  return "address % 64 == " + std::to_string((std::uintptr_t) p % 64);
}
// the largest alignment guaranteed for a vector never exceeds a page here
void load_check(const char* name, const char* T, int N, const PairTable& t, std::size_t align, LOAD op)
{
  if (!want(name))
    return;
  set_op(name, T);
  const auto pl = places(N * t.fs, align);
  alignas(64) unsigned char out[64 * 16 + 64];
  std::size_t w = 0;
  const std::size_t rounds = std::max(t.n + N, pl.size() * 2);
  VH_SAMPLE(std::string(name) + " " + T + " N=" + std::to_string(N) + " first element " + t.show_from(t.from) + " at " + std::to_string(pl.size()) + " addresses");
  for (std::size_t r = 0; r < rounds; ++r)
    {
      unsigned char* p = pl[r % pl.size()];
      w = r % t.n;
      for (int i = 0; i < N; ++i)
	std::memcpy(p + i * t.fs, t.from + (w + i) % t.n * t.fs, t.fs);
      std::memset(out, 0x5a, sizeof out);
      op(p, out);
      for (int i = 0; i < N; ++i)
	{
	  const auto* e = t.to + (w + i) % t.n * t.ts;
	  if (!eq(t, (w + i) % t.n, out + i * t.ts))
	    bad("element " + std::to_string(i) + " in memory " + t.show_from(t.from + (w + i) % t.n * t.fs) + " expected "
		+ t.show_to(e) + " got " + t.show_to(out + i * t.ts) + "; " + where_is(p, N * t.fs));
	}
    }
  st.states += rounds;
  st.execs += rounds;
  st.trans += rounds * N;
}
void store_check(const char* name, const char* T, int N, const PairTable& t, std::size_t align, STORE op)
{
  if (!want(name))
    return;
  set_op(name, T);
  const std::size_t bytes = N * t.ts;
  const auto pl = places(bytes, align);
  alignas(64) unsigned char in[64 * 16];
  auto& a = arena();
  const std::size_t rounds = std::max(t.n + N, pl.size() * 2);
  VH_SAMPLE(std::string(name) + " " + T + " N=" + std::to_string(N) + " first element " + t.show_from(t.from) + " at " + std::to_string(pl.size()) + " addresses");
  for (std::size_t r = 0; r < rounds; ++r)
    {
      unsigned char* p = pl[r % pl.size()];
      const std::size_t w = r % t.n;
      for (int i = 0; i < N; ++i)
	std::memcpy(in + i * t.fs, t.from + (w + i) % t.n * t.fs, t.fs);
      unsigned char* b = std::max(a.lo, p - 160);
      unsigned char* e = std::min(a.hi, p + bytes + 160);
      std::memset(b, 0xc3, e - b);
      op(in, p);
      for (int i = 0; i < N; ++i)
	{
	  const auto* x = t.to + (w + i) % t.n * t.ts;
	  if (!eq(t, (w + i) % t.n, p + i * t.ts))
	    bad("element " + std::to_string(i) + " of the vector " + t.show_from(in + i * t.fs) + " expected in memory "
		+ t.show_to(x) + " got " + t.show_to(p + i * t.ts) + "; " + where_is(p, bytes));
	}
      for (unsigned char* q = b; q < e; ++q)
	if ((q < p || q >= p + bytes) && *q != 0xc3)
	  {
	    bad("wrote outside of the array: byte " + std::to_string(q - p) + " of " + std::to_string(bytes) + "; " + where_is(p, bytes));
	    break;
	  }
    }
  st.states += rounds;
  st.execs += rounds;
  st.trans += rounds * N;
}

// Masked accesses. A placement puts the array so that a boundary between accessible and inaccessible
// memory lies before element `cut` (only elements before it are selected) or after it.
struct Placement
{
  unsigned char* p;
  int first, last; // accessible elements [first, last)
};
static std::vector<Placement> masked_places(int N, std::size_t es, std::size_t align)
{
  auto& a = arena();
  std::vector<Placement> r;
  auto ok = [&](unsigned char* p) { return (std::uintptr_t) p % align == 0; };
  unsigned char* mid = (unsigned char*) ((std::uintptr_t) (a.lo + 4096) / align * align);
  r.push_back({mid, 0, N});
  for (int c = 0; c <= N; ++c)
    {
      unsigned char* p = a.hi - c * es; // elements before c are accessible
      if (ok(p) && p + N * es <= a.hi + 4096)
	r.push_back({p, 0, c});
      p = a.lo - c * es; // elements from c on are accessible
      if (ok(p) && p >= a.lo - 4096)
	r.push_back({p, c, N});
    }
  // every offset inside a 64-byte block
  for (std::size_t o = 0; o < 64; o += align)
    r.push_back({mid + o, 0, N});
  return r;
}
static std::vector<std::vector<char>> masks_in(int N, int f, int l, int lim, bool all)
{
  std::vector<std::vector<char>> r;
  if (all)
    return mask_patterns(N, lim);
  const int n = l - f;
  std::vector<std::vector<char>> sub;
  sub = n <= 4 ? mask_patterns(n, 4) : std::vector<std::vector<char>>();
  if (n > 4)
    {
      for (int k = 0; k < 6; ++k)
	{
	  std::vector<char> m(n);
	  for (int i = 0; i < n; ++i)
	    m[i] = k == 0 ? 1 : k == 1 ? 0 : k == 2 ? i == 0 : k == 3 ? i == n - 1 : k == 4 ? i % 2 : i % 3 == 0;
	  sub.push_back(m);
	}
    }
  for (auto& s : sub)
    {
      std::vector<char> m(N, 0);
      std::copy(s.begin(), s.end(), m.begin() + f);
      r.push_back(m);
    }
  return r;
}
void masked_load_check(const char* name, const char* T, int N, const PairTable& t, std::size_t align, MLOAD op, bool zero_init)
{
  if (!want(name))
    return;
  set_op(name, T);
  alignas(64) unsigned char out[64 * 16], old[64 * 16];
  std::size_t w = 0;
  int placed = 0;
  for (const auto& pl : masked_places(N, t.fs, align))
    for (const auto& m : masks_in(N, pl.first, pl.last, deep ? 12 : 8, !placed++))
      {
	bool k[64];
	w = (w + 1) % t.n;
	for (int i = 0; i < N; ++i)
	  {
	    k[i] = m[i];
	    if (i >= pl.first && i < pl.last)
	      std::memcpy(pl.p + i * t.fs, t.from + (w + i) % t.n * t.fs, t.fs);
	    // previous value: some other element of the table
	    std::memcpy(old + i * t.ts, t.to + (w + i * 3 + 5) % t.n * t.ts, t.ts);
	  }
	std::memcpy(out, old, sizeof out);
	if (zero_init)
	  std::memset(old, 0, sizeof old);
	op(k, pl.p, out);
	for (int i = 0; i < N; ++i)
	  {
	    const auto* e = k[i] ? t.to + (w + i) % t.n * t.ts : old + i * t.ts;
	    if (!(k[i] ? eq(t, (w + i) % t.n, out + i * t.ts)
		       : std::memcmp(e, out + i * t.ts, t.cmp == 3 ? 10 : t.ts) == 0))
	      bad("mask " + show_mask(m) + " element " + std::to_string(i) + (k[i] ? " (selected) in memory " + t.show_from(pl.p + i * t.fs) : " (not selected)")
		  + " expected " + t.show_to(e) + " got " + t.show_to(out + i * t.ts) + "; accessible elements ["
		  + std::to_string(pl.first) + "," + std::to_string(pl.last) + ")");
	  }
	VH_SAMPLE(std::string(name) + " " + T + " mask " + show_mask(m) + ", accessible elements [" + std::to_string(pl.first) + "," + std::to_string(pl.last) + ")");
	++st.states;
	++st.execs;
	st.trans += N;
      }
}
void masked_store_check(const char* name, const char* T, int N, const PairTable& t, std::size_t align, MSTORE op)
{
  if (!want(name))
    return;
  set_op(name, T);
  alignas(64) unsigned char in[64 * 16];
  auto& a = arena();
  const std::size_t bytes = N * t.ts;
  std::size_t w = 0;
  int placed = 0;
  for (const auto& pl : masked_places(N, t.ts, align))
    for (const auto& m : masks_in(N, pl.first, pl.last, deep ? 12 : 8, !placed++))
      {
	bool k[64];
	w = (w + 1) % t.n;
	for (int i = 0; i < N; ++i)
	  {
	    k[i] = m[i];
	    std::memcpy(in + i * t.fs, t.from + (w + i) % t.n * t.fs, t.fs);
	  }
	unsigned char* b = std::max(a.lo, pl.p - 160);
	unsigned char* e = std::min(a.hi, pl.p + bytes + 160);
	std::memset(b, 0xc3, e - b);
	op(k, in, pl.p);
	std::vector<char> touched(e - b, 0);
	for (int i = 0; i < N; ++i)
	  if (k[i])
	    {
	      const auto* x = t.to + (w + i) % t.n * t.ts;
	      unsigned char* q = pl.p + i * t.ts;
	      if (!eq(t, (w + i) % t.n, q))
		bad("mask " + show_mask(m) + " element " + std::to_string(i) + " (selected) " + t.show_from(in + i * t.fs) + " expected in memory "
		    + t.show_to(x) + " got " + t.show_to(q) + "; " + where_is(pl.p, bytes));
	      std::fill(touched.begin() + (q - b), touched.begin() + (q - b) + t.ts, 1);
	    }
	for (unsigned char* q = b; q < e; ++q)
	  if (!touched[q - b] && *q != 0xc3)
	    {
	      bad("mask " + show_mask(m) + " wrote unselected memory at element " + std::to_string((q - pl.p) / double(t.ts)) + "; accessible elements ["
		  + std::to_string(pl.first) + "," + std::to_string(pl.last) + ")");
	      break;
	    }
	VH_SAMPLE(std::string(name) + " " + T + " mask " + show_mask(m) + ", accessible elements [" + std::to_string(pl.first) + "," + std::to_string(pl.last) + ")");
	++st.states;
	++st.execs;
	st.trans += N;
      }
}
#define VH_Y(U, T) template const PairTable& pair_table<U, T>();
VH_ALL_TYPES(VH_PAIRS1)
VH_Y(bool, bool)
} // namespace vh
