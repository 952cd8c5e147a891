// Definitions of vhcore.h; compiled once per check run, independent of the library under test.
#include "vhcore.h"
#include <ucontext.h>
namespace vh
{
Stats st;
static std::map<std::string, int> bad_per_key;
char cur_op[256] = "startup";
char cur_T[64] = "-";
std::string only_op;
std::string first_sample;
bool deep = false;
int finite = 0;
static bool nonfinite(float x)
{
  std::uint32_t b;
  std::memcpy(&b, &x, 4);
  return (b & 0x7f800000) == 0x7f800000;
}
static bool nonfinite(double x)
{
  std::uint64_t b;
  std::memcpy(&b, &x, 8);
  return (b & 0x7ff0000000000000) == 0x7ff0000000000000;
}
static bool nonfinite(long double x) { return !(std::fabs(x) <= LDBL_MAX); }
// (by the bits: floating-point comparisons may treat subnormal numbers as zero)
template <class T> static bool special_(T x)
{
  if (nonfinite(x))
    return true;
  if (finite < 2)
    return false;
  std::uint64_t b[2] = {};
  std::memcpy(b, &x, sizeof(T) == 16 ? 10 : sizeof(T));
  if constexpr (sizeof(T) == 4)
    return b[0] == 0x80000000u || (b[0] << 33 != 0 && (b[0] & 0x7f800000) == 0);
  else if constexpr (sizeof(T) == 8)
    return b[0] == 0x8000000000000000u || (b[0] << 1 != 0 && (b[0] & 0x7ff0000000000000) == 0);
  else
    return (b[1] & 0x7fff) == 0 && (b[0] || b[1]);
}
// results that these options leave open
template <class T> static bool undetermined_(T x)
{
  const T nz = T(-0.);
  return special_(x) && std::memcmp(&x, &nz, sizeof(T) == 16 ? 10 : sizeof(T)) != 0;
}
bool undetermined(float x) { return undetermined_(x); }
bool undetermined(double x) { return undetermined_(x); }
bool undetermined(long double x) { return undetermined_(x); }
bool special(float x) { return special_(x); }
bool special(double x) { return special_(x); }
bool special(long double x) { return special_(x); }

template <class T> std::string show(T x)
{
  char buf[128];
  if constexpr (std::is_same_v<T, bool>)
    return x ? "true" : "false";
  else if constexpr (std::is_floating_point_v<T>)
    {
      if (std::isnan(x))
	return "nan";
      std::snprintf(buf, sizeof buf, "%La", (long double) x);
      return buf;
    }
  else if constexpr (std::is_signed_v<T>)
    {
      std::snprintf(buf, sizeof buf, "%lld", (long long) x);
      return buf;
    }
  else if constexpr (std::is_integral_v<T>)
    {
      std::snprintf(buf, sizeof buf, "%llu", (unsigned long long) x);
      return buf;
    }
  else
    return "?";
}

void set_op(const char* op, const char* T)
{
  std::snprintf(cur_op, sizeof cur_op, "%s", op);
  std::snprintf(cur_T, sizeof cur_T, "%s", T);
}

// key: op|T|detail ; the driver adds the configuration
void bad(const std::string& detail)
{
  ++st.bad;
  std::string key = std::string(cur_op) + "|" + cur_T;
  if (++bad_per_key[key] <= 3)
    {
      std::printf("BAD %s|%s\n", key.c_str(), detail.c_str());
      std::fflush(stdout);
    }
}
void check_bool(bool ok, const std::string& detail)
{
  ++st.execs;
  ++st.trans;
  if (!ok)
    bad(detail);
}
void finish_line()
{
  std::printf("STATS %llu %llu %llu %llu\n", st.states, st.trans, st.execs, st.bad);
  if (!first_sample.empty())
    std::printf("SAMPLE %s\n", first_sample.c_str());
  std::printf("DONE\n");
  std::fflush(stdout);
}
static void on_signal(int s)
{
  char buf[512];
  int n = std::snprintf(buf, sizeof buf, "BAD %s|%s|crash signal %d\n", cur_op, cur_T, s);
  (void) !write(1, buf, n);
  n = std::snprintf(buf, sizeof buf, "STATS %llu %llu %llu %llu\nDONE\n", st.states, st.trans,
		    st.execs, st.bad + 1);
  (void) !write(1, buf, n);
  _exit(3);
}
// Division on ARM and POWER does not trap. The back ends for these targets run here on a host where it does:
// give the idiv and div instructions the result of the target instead.
bool division_traps = true;
static void on_fpe(int sig, siginfo_t*, void* ctx)
{
  auto* g = static_cast<ucontext_t*>(ctx)->uc_mcontext.gregs;
  static const int order[16] = {REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI,
				REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15};
  auto* p = reinterpret_cast<const unsigned char*>(g[REG_RIP]);
  int rex = 0, size = 4;
  if (*p == 0x66)
    ++p, size = 2;
  if ((*p & 0xf0) == 0x40)
    rex = *p++;
  if (division_traps || (*p != 0xf6 && *p != 0xf7))
    return on_signal(sig);
  if (*p == 0xf6)
    size = 1;
  else if (rex & 8)
    size = 8;
  const int modrm = p[1], mod = modrm >> 6, op = (modrm >> 3) & 7, rm = modrm & 7;
  if (op != 6 && op != 7)
    return on_signal(sig);
  p += 2;
  unsigned long long d = 0;
  if (mod == 3)
    {
      if (size == 1 && !rex && rm >= 4)
	d = g[order[rm - 4]] >> 8;
      else
	d = g[order[rm | (rex & 1 ? 8 : 0)]];
    }
  else
    {
      long long a = 0;
      bool rip = false;
      if (rm == 4)
	{
	  const int sib = *p++, index = ((sib >> 3) & 7) | (rex & 2 ? 8 : 0);
	  if (index != 4)
	    a += g[order[index]] << (sib >> 6);
	  if ((sib & 7) == 5 && mod == 0)
	    a += *reinterpret_cast<const int*>(p), p += 4;
	  else
	    a += g[order[(sib & 7) | (rex & 1 ? 8 : 0)]];
	}
      else if (rm == 5 && mod == 0)
	rip = true, a += *reinterpret_cast<const int*>(p), p += 4;
      else
	a += g[order[rm | (rex & 1 ? 8 : 0)]];
      if (mod == 1)
	a += *reinterpret_cast<const signed char*>(p), ++p;
      else if (mod == 2)
	a += *reinterpret_cast<const int*>(p), p += 4;
      if (rip)
	a += reinterpret_cast<long long>(p);
      std::memcpy(&d, reinterpret_cast<const void*>(a), size);
    }
  if (size < 8)
    d &= (1ull << 8 * size) - 1;
  // x / 0 == 0 with remainder x, MIN / -1 == MIN with remainder 0
  auto& ax = g[REG_RAX];
  auto& dx = g[REG_RDX];
  if (size == 1)
    {
      const unsigned x = ax & 0xff;
      ax = (ax & ~0xffffll) | (d == 0 ? x << 8 : x);
    }
  else
    {
      const long long m = size == 8 ? -1ll : size == 4 ? 0xffffffffll : 0xffffll, keep = size == 2 ? ~0xffffll : 0;
      const long long x = ax & m;
      dx = (dx & keep) | (d == 0 ? x : 0);
      ax = (ax & keep) | (d == 0 ? 0 : x);
    }
  g[REG_RIP] = reinterpret_cast<long long>(p);
}
void init(int argc, char** argv)
{
  struct sigaction fpe = {};
  fpe.sa_sigaction = on_fpe;
  fpe.sa_flags = SA_SIGINFO | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT})
    std::signal(s, on_signal);
  sigaction(SIGFPE, &fpe, nullptr);
  for (int i = 1; i < argc; ++i)
    if (!std::strcmp(argv[i], "--deep"))
      deep = true;
    else
      only_op = argv[i];
}
template <class T> void uniq(std::vector<T>& v)
{
  std::vector<T> r;
  for (T x : v)
    {
      bool dup = false;
      for (T y : r)
	if (same(x, y))
	  {
	    dup = true;
	    break;
	  }
      if (!dup)
	r.push_back(x);
    }
  v.swap(r);
}

// boundary alphabet of T; 8-bit types: every value
template <class T> std::vector<T> make_alphabet(int want_size)
{
  std::vector<T> v;
  using L = std::numeric_limits<T>;
  if constexpr (std::is_floating_point_v<T>)
    {
      const T nan = L::quiet_NaN(), inf = L::infinity();
      auto pm = [&](T x) {
	v.push_back(x);
	v.push_back(-x);
      };
      pm(0);
      pm(1);
      pm(inf);
      v.push_back(nan);
      pm(L::max());
      pm(L::min());
      pm(L::denorm_min());
      pm(T(0.5));
      pm(T(2));
      pm(T(3));
      pm(T(1.5));
      pm(T(2.5));
      pm(T(0.1));
      pm(T(1) + L::epsilon());
      pm(T(1) - L::epsilon() / 2);
      if (want_size > 32)
	{
	  pm(std::nextafter(L::min(), T(0)));
	  pm(T(7));
	  pm(T(10));
	  pm(std::nextafter(T(0.5), T(0)));
	  pm(std::nextafter(T(0.5), T(1)));
	  pm(std::nextafter(T(1.5), T(1)));
	  pm(std::ldexp(T(1), L::digits - 1));
	  pm(std::ldexp(T(1), L::digits - 1) + 1);
	  pm(std::ldexp(T(1), L::digits - 2) + T(0.5));
	  pm(std::ldexp(T(1), L::digits));
	  pm(std::ldexp(T(1), 31));
	  pm(std::ldexp(T(1), 63));
	  pm(std::sqrt(L::max()));
	  pm(std::sqrt(L::min()));
	  pm(L::max() / 2);
	  pm(L::min() * 2);
	  pm(T(1) / T(3));
	  pm(T(123.456));
	  pm(T(3.14159265358979323846));
	}
      if (want_size > 128)
	for (int e = L::min_exponent; e < L::max_exponent;
	     e += std::max(1, (L::max_exponent - L::min_exponent) / 60))
	  {
	    pm(std::ldexp(T(1), e));
	    pm(std::ldexp(T(1.7182818), e));
	  }
    }
  else if constexpr (sizeof(T) == 1)
    {
      // simple values first
      for (int i = 0; i < 256; ++i)
	v.push_back(T(i));
    }
  else
    {
      for (int i : {0, 1, 2, 3, 5, 7, 10, 127, 128, 255, 256})
	v.push_back(T(i));
      for (int i : {-1, -2, -3, -7, -128, -129, -256})
	v.push_back(T(i));
      v.push_back(L::max());
      v.push_back(L::min());
      v.push_back(T(L::max() - 1));
      v.push_back(T(L::min() + 1));
      v.push_back(T(L::max() / 2));
      v.push_back(T(L::max() / 2 + 1));
      v.push_back(T(L::min() / 2));
      v.push_back(T(0x5555555555555555ull));
      v.push_back(T(0xaaaaaaaaaaaaaaaaull));
      v.push_back(T(0x0123456789abcdefull));
      v.push_back(T(0xfedcba9876543210ull));
      if (want_size > 40)
	{
	  for (unsigned b = 2; b < sizeof(T) * 8; b += (sizeof(T) * 8 > 32 ? 3 : sizeof(T) > 2 ? 2 : 1))
	    {
	      v.push_back(T(1ull << b));
	      v.push_back(T((1ull << b) - 1));
	    }
	  v.push_back(T(0x8000000080000000ull));
	  v.push_back(T(0x7fffffff7fffffffull));
	  v.push_back(T(0x00ff00ff00ff00ffull));
	  v.push_back(T(0xff00ff00ff00ff00ull));
	  v.push_back(T(0x80007fffull));
	  v.push_back(T(0xffff0000ffffull));
	  v.push_back(T(0x100000000ull));
	  v.push_back(T(0xffffffffull));
	  v.push_back(T(0x80000000ull));
	}
      if (want_size > 128)
	{
	  unsigned long long x = 0x9e3779b97f4a7c15ull;
	  for (int i = 0; i < 160; ++i)
	    {
	      x ^= x << 13;
	      x ^= x >> 7;
	      x ^= x << 17;
	      v.push_back(T(x));
	    }
	}
    }
  if constexpr (std::is_floating_point_v<T>)
    if (finite)
      v.erase(std::remove_if(v.begin(), v.end(), [](T x) { return special(x); }), v.end());
  uniq(v);
  return v;
}
template <class T> const std::vector<T>& alphabet()
{
  static const std::vector<T> v = make_alphabet<T>(64);
  return v;
}
template <class T> const std::vector<T>& small_alphabet()
{
  static const std::vector<T> v = [] {
    auto r = make_alphabet<T>(32);
    if (r.size() > 40)
      {
	std::vector<T> s;
	for (int i : {0, 1, 2, 3, 7, 8, 15, 16, 31, 63, 64, 100, 126, 127, 128, 129, 170, 85, 192, 200, 253, 254, 255})
	  s.push_back(T(i));
	return s;
      }
    return r;
  }();
  return v;
}
template <class T> std::vector<T> all_values16()
{
  std::vector<T> v(65536);
  for (int i = 0; i < 65536; ++i)
    v[i] = T(i);
  return v;
}

// every bit pattern for n <= lim; otherwise a structured family that includes every single bit,
// every pair of bits, every prefix/suffix/interval of set bits and their complements
std::vector<std::vector<char>> mask_patterns(int n, int lim)
{
  std::vector<std::vector<char>> r;
  if (n <= lim)
    {
      for (unsigned long p = 0; p < (1ul << n); ++p)
	{
	  std::vector<char> m(n);
	  for (int i = 0; i < n; ++i)
	    m[i] = (p >> i) & 1;
	  r.push_back(m);
	}
      return r;
    }
  std::set<std::vector<char>> seen;
  auto add = [&](std::vector<char> m) {
    for (int c = 0; c < 2; ++c)
      {
	if (seen.insert(m).second)
	  r.push_back(m);
	for (auto& b : m)
	  b = !b;
      }
  };
  add(std::vector<char>(n, 0));
  for (int i = 0; i < n; ++i)
    for (int j = i; j < n; ++j)
      {
	std::vector<char> m(n, 0);
	m[i] = m[j] = 1;
	add(m);
	for (int k = i; k <= j; ++k)
	  m[k] = 1;
	add(m);
      }
  for (int per = 2; per <= 8; ++per)
    for (int off = 0; off < per; ++off)
      {
	std::vector<char> m(n, 0);
	for (int i = 0; i < n; ++i)
	  m[i] = (i % per) == off;
	add(m);
	for (int i = 0; i < n; ++i)
	  m[i] = (i / per) % 2 == (off & 1);
	add(m);
      }
  return r;
}
std::string show_mask(const std::vector<char>& m)
{
  std::string s;
  for (char c : m)
    s += c ? '1' : '0';
  return s;
}


#define VH_X(T)                                                                                    \
  template std::string show<T>(T);                                                                 \
  template std::vector<T> make_alphabet<T>(int);                                                   \
  template const std::vector<T>& alphabet<T>();                                                    \
  template const std::vector<T>& small_alphabet<T>();                                              \
  template std::vector<T> all_values16<T>();
VH_ALL_TYPES(VH_X)
template std::string show<bool>(bool);
} // namespace vh
