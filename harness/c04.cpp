// C04: masks - logical algebra, element access, bitset round trip and reductions.
#include "vhcfg.h"
#include "drvm.h"
using namespace vh;
#define EA stdx::element_aligned
#define AI [[gnu::always_inline]]

template <class M, class V, int S> [[gnu::always_inline]] inline M cmaskv()
{ // a mask known at compile time, from a comparison of constants
  using T = typename V::value_type;
  const V v([](auto i) constexpr { return T(cmask(S, int(i), int(V::size()))); });
  return v != V(T(0));
}
template <class V, int S> struct carr
{
  struct A { bool v[V::size()]; };
  static constexpr A make()
  {
    A a{};
    for (int i = 0; i < int(V::size()); ++i)
      a.v[i] = cmask(S, i, V::size());
    return a;
  }
  static constexpr A a = make();
};

template <class V, class M, int S> [[gnu::noinline]] void const_reds()
{
  constexpr int N = V::size();
  const char* T = tname<typename V::value_type>();
  bool e[N];
  for (int i = 0; i < N; ++i)
    e[i] = cmask(S, i, N);
  auto chk = [&](const char* how, const bool* m, int all, int any, int none, int some, int cnt, int fst, int lst) {
    const int g[] = {all, any, none, some, cnt, fst, lst};
    for (int r = 0; r < 7; ++r)
      {
	const int x = mask_ref(Red(r), m, N);
	if (r >= FIRST && x < 0)
	  continue;
	const std::string nm = std::string(red_name(Red(r))) + "(constant)";
	int_check(nm.c_str(), T, (std::string(how) + " seed " + std::to_string(S)).c_str(), g[r], x);
      }
  };
#define REDS(K) all_of(K), any_of(K), none_of(K), some_of(K), popcount(K), nonempty ? find_first_set(K) : 0, nonempty ? find_last_set(K) : 0
  constexpr bool nonempty = [] {
    for (int i = 0; i < N; ++i)
      if (cmask(S, i, N))
	return true;
    return false;
  }();
  constexpr bool nonempty2 = [] {
    for (int i = 0; i < N; ++i)
      if (!cmask(S, i, N))
	return true;
    return false;
  }();
  {
    const M k = cmaskv<M, V, S>();
    chk("compare", e, REDS(k));
    bool o[N];
    k.copy_to(o, EA);
    lanes_check("compare constant", T, "", N, o, e);
  }
  {
    const M k(carr<V, S>::a.v, EA);
    chk("load", e, REDS(k));
    // reading every element of a constant mask
    bool o[N];
    for (int i = 0; i < N; ++i)
      o[i] = k[i];
    lanes_check("k[i] constant", T, "", N, o, e);
  }
  {
    constexpr bool nonempty = nonempty2;
    const M k = !cmaskv<M, V, S>();
    for (bool& b : e)
      b = !b;
    chk("not", e, REDS(k));
    for (bool& b : e)
      b = !b;
  }
  // constant combined with run-time mask
  bool rt[N], x[N], o[N];
  for (int i = 0; i < N; ++i)
    rt[i] = cmask(S + 3, i, N);
  clobber(rt);
  const M r = loadm<M>(rt);
  const M k = cmaskv<M, V, S>();
#define CB(NM, X, E)                                                                               \
  (X).copy_to(o, EA);                                                                              \
  for (int i = 0; i < N; ++i)                                                                      \
    {                                                                                              \
      const bool a = e[i], b = rt[i];                                                              \
      x[i] = E;                                                                                    \
    }                                                                                              \
  lanes_check(NM, T, "constant/run-time operands", N, o, x)
  CB("a&&b", k && r, a && b);
  CB("a||b", k || r, a || b);
  CB("a&b", r & k, a && b);
  CB("a|b", r | k, a || b);
  CB("a^b", k ^ r, a != b);
  CB("a==b", k == r, a == b);
  CB("a!=b", r != k, a != b);
  CB("!a", !k, (void(b), !a));
  CB("a^b", (k ^ cmaskv<M, V, S + 1>()), (void(b), a != cmask(S + 1, i, N)));
  CB("a&&b", (k && cmaskv<M, V, S + 2>()), (void(b), a && cmask(S + 2, i, N)));
  CB("a||b", (k || cmaskv<M, V, S + 2>()), (void(b), a || cmask(S + 2, i, N)));
}

template <class T> void run()
{
  using A = abi_of<T, VH_ABI>;
  if constexpr (!std::is_void_v<A>)
    {
      using V = stdx::simd<T, A>;
      using M = typename V::mask_type;
      [[maybe_unused]] constexpr int N = V::size();
      [[maybe_unused]] const char* tn = tname<T>();
#if VH_CONST
      const_reds<V, M, 0>();
      const_reds<V, M, 1>();
      const_reds<V, M, 2>();
      const_reds<V, M, 3>();
      const_reds<V, M, 5>();
      const_reds<V, M, 9>();
#else
#define MU(NAME, X, E) mask_unary(NAME, tn, N, [](const bool* p, bool* o) { [](M a) AI -> M { X; }(loadm<M>(p)).copy_to(o, EA); }, [](bool a) -> bool { return E; })
#define MB(NAME, X, E) mask_binary(NAME, tn, N, [](const bool* p, const bool* q, bool* o) { [](M a, M b) AI -> M { X; }(loadm<M>(p), loadm<M>(q)).copy_to(o, EA); }, [](bool a, bool b) -> bool { return E; })
      MU("load/store", return a, a);
      MU("!a", return !a, !a);
      MU("!!a", return !!a, a);
      MB("a&&b", return a && b, a && b);
      MB("a||b", return a || b, a || b);
      MB("a&b", return a & b, a && b);
      MB("a|b", return a | b, a || b);
      MB("a^b", return a ^ b, a != b);
      MB("a&=b", a &= b; return a, a && b);
      MB("a|=b", a |= b; return a, a || b);
      MB("a^=b", a ^= b; return a, a != b);
      MB("a==b", return a == b, a == b);
      MB("a!=b", return a != b, a != b);
      MB("!a&&b", return !a && b, !a && b);
      MB("!(a||b)", return !(a || b), !(a || b));
      MB("a==!b", return a == !b, a != b);
      MU("M(true)&&a", return M(true) && a, a);
      MU("M(false)||a", return M(false) || a, a);
      mask_unary("k[i] read", tn, N, [](const bool* p, bool* o) {
	M m = loadm<M>(p);
	const M c = m;
	for (int i = 0; i < N; ++i)
	  {
	    o[i] = m[i];
	    if (o[i] != c[i])
	      std::memset(o + i, 0x77, 1);
	  }
      }, [](bool a) { return a; });
      mask_set("k[i]=b", tn, N, [](const bool* p, int i, bool v, bool* o) {
	M m = loadm<M>(p);
	m[i] = v;
	m.copy_to(o, EA);
      });
      mask_set("(!k)[i]=b", tn, N, [](const bool* p, int i, bool v, bool* o) {
	M m = !loadm<M>(p);
	m[i] = !v;
	(!m).copy_to(o, EA);
      });
      mask_to_bits("__to_bitset", tn, N, [](const bool* p) { return loadm<M>(p).__to_bitset().to_ullong(); });
      mask_to_bits("(!k).__to_bitset", tn, N, [](const bool* p) -> unsigned long long { return (~(!loadm<M>(p)).__to_bitset()).to_ullong(); });
      mask_from_bits("__from_bitset", tn, N, [](unsigned long long b, bool* o) { M::__from_bitset(std::bitset<N>(b)).copy_to(o, EA); });
#define R1(R, FN, NAME, X, C) mask_reduce(NAME, tn, N, R, [](const bool* p, const bool* q) -> int { return [](M a, M b) AI -> int { return FN(X); }(loadm<M>(p), loadm<M>(q)); }, [](bool a, bool b) -> bool { return C; })
#define REDALL(NAME, X, C)                                                                         \
  R1(ALL, all_of, NAME, X, C);                                                                     \
  R1(ANY, any_of, NAME, X, C);                                                                     \
  R1(NONE, none_of, NAME, X, C);                                                                   \
  R1(SOME, some_of, NAME, X, C);                                                                   \
  R1(COUNT, popcount, NAME, X, C);                                                                 \
  R1(FIRST, find_first_set, NAME, X, C);                                                           \
  R1(LAST, find_last_set, NAME, X, C)
      REDALL("k", a, a);
      REDALL("!k", !a, !a);
      REDALL("a^!b", a ^ !b, a == b);
      REDALL("!(a&&b)", !(a && b), !(a && b));
      // masks that come from comparing vectors
#define RV(R, FN) mask_reduce("v==w", tn, N, R, [](const bool* p, const bool* q) -> int { V v, w; for (int i = 0; i < N; ++i) { v[i] = p[i] ? T(3) : T(4); w[i] = q[i] ? T(3) : T(4); } clobber(v); clobber(w); return FN(v == w); }, [](bool a, bool b) -> bool { return a == b; })
      RV(ALL, all_of);
      RV(ANY, any_of);
      RV(NONE, none_of);
      RV(SOME, some_of);
      RV(COUNT, popcount);
      RV(FIRST, find_first_set);
      RV(LAST, find_last_set);
#endif
    }
}
int main(int argc, char** argv)
{
  init(argc, argv);
  each_type([](auto t) { run<typename decltype(t)::type>(); });
#if !VH_CONST
  for (int v = 0; v < 2; ++v)
    {
      const bool b = opaque(bool(v));
      int_check("bool", "bool", "all_of", stdx::all_of(b), v);
      int_check("bool", "bool", "any_of", stdx::any_of(b), v);
      int_check("bool", "bool", "none_of", stdx::none_of(b), !v);
      int_check("bool", "bool", "some_of", stdx::some_of(b), 0);
      int_check("bool", "bool", "popcount", stdx::popcount(b), v);
      if (v)
	{
	  int_check("bool", "bool", "find_first_set", stdx::find_first_set(b), 0);
	  int_check("bool", "bool", "find_last_set", stdx::find_last_set(b), 0);
	}
    }
#endif
  finish_line();
}
