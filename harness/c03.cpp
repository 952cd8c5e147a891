// C03: comparisons yield exactly the per-element truth values.
#include "vhcfg.h"
using namespace vh;
#define EA stdx::element_aligned
#define AI [[gnu::always_inline]]

template <class V, class T, int S, class Op>
[[gnu::noinline]] void const_cmp(const char* name, Op op, RM<T> ref)
{
  if (!want(name))
    return;
  set_op(name, tname<T>());
  constexpr int N = V::size();
  T a[N], b[N];
  for (int l = 0; l < N; ++l)
    {
      a[l] = ctab<T>::val(S, l);
      b[l] = ctab<T>::val(S + 4, l);
    }
  clobber(a);
  clobber(b);
  bool o[6][N];
  const T s = ctab<T>::val(S + 4, 0);
  op(cvec<V, S>(), cvec<V, S + 4>()).copy_to(o[0], EA);
  op(load<V>(a), cvec<V, S + 4>()).copy_to(o[1], EA);
  op(cvec<V, S>(), load<V>(b)).copy_to(o[2], EA);
  op(load<V>(a), V(ctab<T>::val(S + 4, 0))).copy_to(o[3], EA);
  op(load<V>(a), V(T(0))).copy_to(o[4], EA);
  op(V(T(0)), load<V>(a)).copy_to(o[5], EA);
  for (int k = 0; k < 6; ++k)
    {
      for (int l = 0; l < N; ++l)
	{
	  const T x = k == 5 ? T(0) : a[l], y = k == 3 ? s : k == 4 ? T(0) : k == 5 ? a[l] : b[l];
	  if (o[k][l] != ref(x, y))
	    bad("operand form " + std::to_string(k) + " lane " + std::to_string(l) + " a=" + show(x)
		+ " b=" + show(y) + " expected " + show(ref(x, y)) + " got " + show(o[k][l]));
	}
      ++st.states;
      st.trans += N;
      ++st.execs;
    }
}

template <class T> void run()
{
  using A = abi_of<T, VH_ABI>;
  if constexpr (!std::is_void_v<A>)
    {
      using V = stdx::simd<T, A>;
      constexpr int N = V::size();
#if VH_CONST
#define CMP(NAME, X, REF)                                                                          \
  const_cmp<V, T, 0>(NAME, [](V a, V b) AI { return X; }, [](T a, T b) -> bool { return REF; });   \
  const_cmp<V, T, 3>(NAME, [](V a, V b) AI { return X; }, [](T a, T b) -> bool { return REF; })
#else
#define CMP(NAME, X, REF)                                                                          \
  compare<T>(NAME, N, [](const T* p, const T* q, bool* o) {                                        \
    [](V a, V b) AI { return X; }(load<V>(p), load<V>(q)).copy_to(o, EA);                          \
  }, [](T a, T b) -> bool { return REF; })
#endif
      CMP("a==b", a == b, a == b);
      CMP("a!=b", a != b, a != b);
      CMP("a<b", a < b, a < b);
      CMP("a<=b", a <= b, a <= b);
      CMP("a>b", a > b, a > b);
      CMP("a>=b", a >= b, a >= b);
      CMP("!v", !a, (void(b), a == T(0)));
#if !VH_CONST
      CMP("a==a", a == a, (void(b), a == a));
      CMP("a!=a", a != a, (void(b), a != a));
#endif
    }
}
int main(int argc, char** argv)
{
  init(argc, argv);
  each_type([](auto t) { run<typename decltype(t)::type>(); });
  finish_line();
}
