// C21: straight-line programs of vector and scalar accesses to the same objects, against the same accesses one after the other.
#include "vhcfg.h"
using namespace vh;
#define EA stdx::element_aligned
#define AI [[gnu::always_inline]] static inline
#ifndef VH_DEPTH
#define VH_DEPTH 3
#endif
#ifndef VH_FAM
#define VH_FAM 31
#endif

template <class T> struct other_ { using type = std::conditional_t<(sizeof(T) < 4), int, std::conditional_t<std::is_floating_point_v<T>, short, float>>; };
template <class T> using other = typename other_<T>::type;

// everything a program touches: x, y and the flags are arrays of scalars, v, w and k are vectors
enum Op { W0, WL, CP, L0, L1, S0, S1, ML, MS, AR, CL, CS, W2, XC, GE, EV, ER, SW, VC, WA, KL, KP, KW, KE, KR, KC, END };
static const char* const opname[] = {"x[0]=a", "x[N]=b", "x[N-1]=x[0]", "v.copy_from(x)", "v.copy_from(x+1)", "v.copy_to(x)", "v.copy_to(x+1)", "where(k,v).copy_from(x+1)", "where(k,v).copy_to(x)", "v+=1",
				     "v.copy_from(y)", "v.copy_to(y+1)", "y[1]+=7", "swap(x[0],x[N-1])", "v=V(x[i])", "v[N-1]=x[0]", "x[1]=v[0]", "swap(v[0],v[N-1])", "w=v", "where(k,v)=w",
				     "k.copy_from(f)", "k.copy_to(f+1)", "f[0]=!f[0]", "k[0]=f[1]", "f[N-1]=k[N-1]", "where(k,v).copy_to(y)"};
template <class V, int O> AI void step(typename V::value_type* x, other<typename V::value_type>* y, bool* f, const typename V::value_type* in, V& v, V& w, typename V::mask_type& k)
{
  using T = typename V::value_type;
  constexpr int N = V::size();
  if constexpr (O == W0) x[0] = in[0];
  if constexpr (O == WL) x[N] = in[1];
  if constexpr (O == CP) x[N - 1] = x[0];
  if constexpr (O == L0) v.copy_from(x, EA);
  if constexpr (O == L1) v.copy_from(x + 1, EA);
  if constexpr (O == S0) v.copy_to(x, EA);
  if constexpr (O == S1) v.copy_to(x + 1, EA);
  if constexpr (O == ML) where(k, v).copy_from(x + 1, EA);
  if constexpr (O == MS) where(k, v).copy_to(x, EA);
  if constexpr (O == AR) v += T(1);
  if constexpr (O == CL) v.copy_from(y, EA);
  if constexpr (O == CS) v.copy_to(y + 1, EA);
  if constexpr (O == W2) y[1] += 7;
  if constexpr (O == XC) std::swap(x[0], x[N - 1]);
  if constexpr (O == GE) v = V([&](auto i) { return x[i]; });
  if constexpr (O == EV) v[N - 1] = x[0];
  if constexpr (O == ER) x[1] = v[0];
  if constexpr (O == SW)
    {
      const T t = v[0];
      v[0] = T(v[N - 1]);
      v[N - 1] = t;
    }
  if constexpr (O == VC) w = v;
  if constexpr (O == WA) where(k, v) = w;
  if constexpr (O == KL) k.copy_from(f, EA);
  if constexpr (O == KP) k.copy_to(f + 1, EA);
  if constexpr (O == KW) f[0] = !f[0];
  if constexpr (O == KE) k[0] = f[1];
  if constexpr (O == KR) f[N - 1] = k[N - 1];
  if constexpr (O == KC) where(k, v).copy_to(y, EA);
}
// the same on scalars, with a barrier after every access
#define B asm volatile("" : : : "memory")
template <class T> [[gnu::noinline]] void model(int o, int N, T* x, other<T>* y, bool* f, const T* in, T* v, T* w, bool* k)
{
  using U = other<T>;
  switch (o)
    {
    case W0: x[0] = in[0]; B; break;
    case WL: x[N] = in[1]; B; break;
    case CP: x[N - 1] = x[0]; B; break;
    case L0: for (int i = 0; i < N; ++i) { v[i] = x[i]; B; } break;
    case L1: for (int i = 0; i < N; ++i) { v[i] = x[i + 1]; B; } break;
    case S0: for (int i = 0; i < N; ++i) { x[i] = v[i]; B; } break;
    case S1: for (int i = 0; i < N; ++i) { x[i + 1] = v[i]; B; } break;
    case ML: for (int i = 0; i < N; ++i) { if (k[i]) v[i] = x[i + 1]; B; } break;
    case MS: for (int i = 0; i < N; ++i) { if (k[i]) x[i] = v[i]; B; } break;
    case AR: for (int i = 0; i < N; ++i) { v[i] = T(v[i] + 1); B; } break;
    case CL: for (int i = 0; i < N; ++i) { v[i] = T(y[i]); B; } break;
    case CS: for (int i = 0; i < N; ++i) { y[i + 1] = U(v[i]); B; } break;
    case W2: y[1] = U(y[1] + 7); B; break;
    case XC: { T t = x[0]; B; x[0] = x[N - 1]; B; x[N - 1] = t; B; } break;
    case GE: for (int i = 0; i < N; ++i) { v[i] = x[i]; B; } break;
    case EV: v[N - 1] = x[0]; B; break;
    case ER: x[1] = v[0]; B; break;
    case SW: { T t = v[0]; B; v[0] = v[N - 1]; B; v[N - 1] = t; B; } break;
    case VC: for (int i = 0; i < N; ++i) { w[i] = v[i]; B; } break;
    case WA: for (int i = 0; i < N; ++i) { if (k[i]) v[i] = w[i]; B; } break;
    case KL: for (int i = 0; i < N; ++i) { k[i] = f[i]; B; } break;
    case KP: for (int i = 0; i < N; ++i) { f[i + 1] = k[i]; B; } break;
    case KW: f[0] = !f[0]; B; break;
    case KE: k[0] = f[1]; B; break;
    case KR: f[N - 1] = k[N - 1]; B; break;
    case KC: for (int i = 0; i < N; ++i) { if (k[i]) y[i] = U(v[i]); B; } break;
    }
}
template <class T, int N> struct world
{
  T x[N + 3];
  other<T> y[N + 3];
  bool f[N + 3];
  T v[N], w[N];
  bool k[N];
  T seen[8]; // scalars read in the program itself, before and after
};
template <class V, int N = V::size()> using fn = void (*)(world<typename V::value_type, N>*, typename V::value_type*, other<typename V::value_type>*, bool*, const typename V::value_type*);
template <class V, int... O> [[gnu::noinline]] void prog(world<typename V::value_type, int(V::size())>* o, typename V::value_type* x, other<typename V::value_type>* y, bool* f, const typename V::value_type* in)
{
  using T = typename V::value_type;
  constexpr int N = V::size();
  V v(o->v, EA), w(o->w, EA);
  typename V::mask_type k(o->k, EA);
  const T a = x[0], b = x[2], c = T(y[1]), d = T(f[0]);
  // written before and after, never read by scalar accesses in between
  x[1] = in[1];
  y[0] = other<T>(in[0]);
  f[1] = true;
  (step<V, O>(x, y, f, in, v, w, k), ...);
  const T e = x[0], g = x[2], h = T(y[1]), i = T(f[0]);
  x[1] = in[0];
  y[0] = other<T>(in[1]);
  f[1] = false;
  v.copy_to(o->v, EA);
  w.copy_to(o->w, EA);
  k.copy_to(o->k, EA);
  const T s[] = {a, b, c, d, e, g, h, i};
  for (int j = 0; j < 8; ++j)
    o->seen[j] = s[j];
}
template <int F> struct family;
template <> struct family<1> { static constexpr int n = 10, op[n] = {W0, WL, CP, L0, L1, S0, S1, ML, MS, AR}; };
template <> struct family<2> { static constexpr int n = 9, op[n] = {CL, CS, W2, XC, GE, L0, S0, KC, AR}; };
template <> struct family<4> { static constexpr int n = 9, op[n] = {EV, ER, SW, VC, WA, L1, S0, W0, AR}; };
template <> struct family<8> { static constexpr int n = 9, op[n] = {KL, KP, KW, KE, KR, ML, MS, WA, S1}; };
template <> struct family<16> { static constexpr int n = END, op[n] = {W0, WL, CP, L0, L1, S0, S1, ML, MS, AR, CL, CS, W2, XC, GE, EV, ER, SW, VC, WA, KL, KP, KW, KE, KR, KC}; };
constexpr int power(int b, int e) { return e ? b * power(b, e - 1) : 1; }

template <class V, class F, int C, int... D> constexpr fn<V> program(std::integer_sequence<int, D...>) { return prog<V, F::op[C / power(F::n, D) % F::n]...>; }
template <class V, class F, int... C> std::array<fn<V>, sizeof...(C)> programs(std::integer_sequence<int, C...>)
{
  return {{program<V, F, C>(std::make_integer_sequence<int, VH_DEPTH>())...}};
}
template <class T, int N> bool equal(const world<T, N>& a, const world<T, N>& b)
{
  auto eq = [](auto& p, auto& q) { return std::memcmp(p, q, sizeof(p)) == 0; };
  return eq(a.x, b.x) && eq(a.y, b.y) && eq(a.f, b.f) && eq(a.v, b.v) && eq(a.w, b.w) && eq(a.k, b.k) && eq(a.seen, b.seen);
}
template <class V, class F> void explore(const char* name)
{
  using T = typename V::value_type;
  using U = other<T>;
  constexpr int N = V::size();
  if (!want(name))
    return;
  set_op(name, tname<T>());
  const auto all = programs<V, F>(std::make_integer_sequence<int, power(F::n, VH_DEPTH)>());
  static world<T, N> a, b;
  T in[2] = {T(101), T(103)};
  for (int c = 0; c < int(all.size()); ++c)
    for (int m = 0; m < 4; ++m)
      {
	std::memset(&a, 0, sizeof(a));
	for (int i = 0; i < N + 3; ++i)
	  {
	    a.x[i] = T(i % 31 + 1);
	    a.y[i] = U(i % 29 + 40);
	    a.f[i] = m == 0 ? i % 2 : m == 1 ? i % 3 == 0 : m == 2;
	  }
	for (int i = 0; i < N; ++i)
	  {
	    a.v[i] = T(i % 23 + 75);
	    a.w[i] = T(100 - i % 19);
	    a.k[i] = m == 0 ? i % 3 != 1 : m == 1 ? i % 2 : m == 3;
	  }
	std::memcpy(&b, &a, sizeof(a));
	asm volatile("" : : "r"(&a), "r"(&b), "r"(in) : "memory");
	all[c](&a, a.x, a.y, a.f, in);
	asm volatile("" : : "r"(&a), "r"(&b), "r"(in) : "memory");
	auto see = [&](int j) {
	  b.seen[j] = b.x[0], b.seen[j + 1] = b.x[2], b.seen[j + 2] = T(b.y[1]), b.seen[j + 3] = T(b.f[0]);
	  B;
	};
	see(0);
	b.x[1] = in[1], b.y[0] = U(in[0]), b.f[1] = true;
	B;
	int code = c;
	for (int d = 0; d < VH_DEPTH; ++d, code /= F::n)
	  model<T>(F::op[code % F::n], N, b.x, b.y, b.f, in, b.v, b.w, b.k);
	see(4);
	b.x[1] = in[0], b.y[0] = U(in[1]), b.f[1] = false;
	B;
	if (!equal(a, b))
	  {
	    std::string s;
	    code = c;
	    for (int d = 0; d < VH_DEPTH; ++d, code /= F::n)
	      s += std::string(d ? "; " : "") + opname[F::op[code % F::n]];
	    auto diff = [&](const char* n, auto& p, auto& q, int len) {
	      for (int i = 0; i < len; ++i)
		if (std::memcmp(&p[i], &q[i], sizeof(p[0])))
		  {
		    s += std::string(": ") + n + "[" + std::to_string(i) + "] is " + show(p[i]) + ", expected " + show(q[i]);
		    return;
		  }
	    };
	    diff("x", a.x, b.x, N + 3), diff("y", a.y, b.y, N + 3), diff("f", a.f, b.f, N + 3), diff("v", a.v, b.v, N), diff("w", a.w, b.w, N), diff("k", a.k, b.k, N), diff("scalars read: ", a.seen, b.seen, 8);
	    bad("N=" + std::to_string(N) + " " + s);
	    break;
	  }
	++st.states, ++st.execs, st.trans += VH_DEPTH;
      }
  VH_SAMPLE(std::string(name) + " " + tname<T>() + ", " + std::to_string(all.size()) + " programs of " + std::to_string(VH_DEPTH) + " accesses, e.g. " + opname[F::op[3]] + "; " + opname[F::op[0]] + "; " + opname[F::op[5]]);
}
template <class T> void run()
{
  using A = abi_of<T, VH_ABI>;
  if constexpr (!std::is_void_v<A>)
    {
      using V = stdx::simd<T, A>;
      if constexpr (VH_FAM & 1)
	explore<V, family<1>>("vector and scalar accesses to an array");
      if constexpr (VH_FAM & 2)
	explore<V, family<2>>("converting accesses");
      if constexpr (VH_FAM & 4)
	explore<V, family<4>>("element references");
      if constexpr (VH_FAM & 8)
	explore<V, family<8>>("masks and flags");
      if constexpr (VH_FAM & 16)
	explore<V, family<16>>("all accesses");
    }
}
int main(int argc, char** argv)
{
  init(argc, argv);
  each_type([](auto t) { run<typename decltype(t)::type>(); });
  finish_line();
}
