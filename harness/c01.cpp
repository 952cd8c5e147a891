// C01: element-wise arithmetic, bitwise, unary, increment and compound operators.
#include "vhcfg.h"
using namespace vh;

template <class T> using wide = std::conditional_t<
  std::is_floating_point_v<T>, T,
  std::conditional_t<(sizeof(T) < sizeof(int)), int, std::make_unsigned_t<std::conditional_t<std::is_floating_point_v<T>, int, T>>>>;

struct Add { template <class T> bool operator()(T a, T b, T* r) const { return __builtin_add_overflow(a, b, r); } };
struct Sub { template <class T> bool operator()(T a, T b, T* r) const { return __builtin_sub_overflow(a, b, r); } };
struct Mul { template <class T> bool operator()(T a, T b, T* r) const { return __builtin_mul_overflow(a, b, r); } };
template <class T, class F> bool no_overflow(F f, T a, T b)
{ // is the scalar operation defined?
  if constexpr (std::is_integral_v<T> && std::is_signed_v<T> && sizeof(T) >= sizeof(int))
    {
      T r;
      return !f(a, b, &r);
    }
  else
    return true;
}

template <class V, class T, bool NZ, int S, class Op>
[[gnu::noinline]] void const_binary1(const char* name, Op op, R2<T> ref)
{
  constexpr int N = V::size();
  static const Tabs<T> t(S, NZ, N);
  const T *ta = t.a, *tb = t.b;
  asm volatile("" : "+r"(ta), "+r"(tb));
  T o[4][N];
  const V ra = load<V>(ta);
  if constexpr (NZ)
    {
      op(cvec<V, S>(), cvec_nz<V, S + 1>()).copy_to(o[0], stdx::element_aligned);
      op(ra, cvec_nz<V, S + 1>()).copy_to(o[1], stdx::element_aligned);
      op(ra, V(ctab<T>::nonzero(S + 1, 0))).copy_to(o[2], stdx::element_aligned);
    }
  else
    {
      op(cvec<V, S>(), cvec<V, S + 1>()).copy_to(o[0], stdx::element_aligned);
      op(ra, cvec<V, S + 1>()).copy_to(o[1], stdx::element_aligned);
      op(ra, V(ctab<T>::val(S + 1, 0))).copy_to(o[2], stdx::element_aligned);
      op(cvec<V, S>(), load<V>(tb)).copy_to(o[3], stdx::element_aligned);
    }
  const_check<T>(name, "const,const", S, N, t.a, t.b, o[0], ref);
  const_check<T>(name, "runtime,const", S, N, t.a, t.b, o[1], ref);
  const_check<T>(name, "runtime,broadcast", S, N, t.a, t.c, o[2], ref);
  if constexpr (!NZ)
    const_check<T>(name, "const,runtime", S, N, t.a, t.b, o[3], ref);
}
template <class V, class T, bool NZ, class Op>
void const_binary(const char* name, Op op, R2<T> ref)
{
  if (!want(name))
    return;
  const_binary1<V, T, NZ, 0>(name, op, ref);
  const_binary1<V, T, NZ, 3>(name, op, ref);
}
template <class V, class T, class Op>
[[gnu::noinline]] void const_unary(const char* name, Op op, R1<T> ref)
{
  if (!want(name))
    return;
  set_op(name, tname<T>());
  constexpr int N = V::size();
  T out[N];
  op(cvec<V, 2>()).copy_to(out, stdx::element_aligned);
  for (int l = 0; l < N; ++l)
    {
      T a = ctab<T>::val(2, l), e = ref(a);
      if (!same(out[l], e))
	bad("const lane " + std::to_string(l) + " a=" + show(a) + " expected " + show(e) + " got " + show(out[l]));
    }
  ++st.states;
  st.trans += N;
  ++st.execs;
}

template <class T> void run()
{
  using A = abi_of<T, VH_ABI>;
  if constexpr (!std::is_void_v<A>)
    {
      using V = stdx::simd<T, A>;
      using W = wide<T>;
      auto any = [](T, T) { return true; };
      auto any1 = [](T) { return true; };
      constexpr bool I = std::is_integral_v<T>;
      auto addok = [](T a, T b) { return no_overflow<T>(Add(), a, b); };
      auto subok = [](T a, T b) { return no_overflow<T>(Sub(), a, b); };
      // ushort*ushort promotes to int and may overflow: its product is reduced mod 2^16
      auto mulok = [](T a, T b) { return no_overflow<T>(Mul(), a, b); };
      auto divok = [](T a, T b) {
	if constexpr (I)
	  {
	    if (b == 0)
	      return false;
	    if constexpr (std::is_signed_v<T>)
	      return !(sizeof(T) >= 4 && b == T(-1) && a == std::numeric_limits<T>::min());
	  }
	return !(VH_FINITE == 2 && std::is_floating_point_v<T>); // -ffast-math: through the reciprocal
      };
      auto radd = [](T a, T b) { return T(W(a) + W(b)); };
      auto rsub = [](T a, T b) { return T(W(a) - W(b)); };
      auto rmul = [](T a, T b) {
	if constexpr (I)
	  return T((unsigned long long) a * (unsigned long long) b);
	else
	  return T(a * b);
      };
      auto rdiv = [](T a, T b) { return T(a / b); };
#if VH_CONST
#define BIN(NAME, OPX, REF, OK, NZ) const_binary<V, T, NZ>(NAME, [](V a, V b) [[gnu::always_inline]] { OPX; }, REF)
#define UN(NAME, OPX, REF, OK) const_unary<V, T>(NAME, [](V a) [[gnu::always_inline]] { OPX; }, REF)
#else
      constexpr int N = V::size();
#define BIN(NAME, OPX, REF, OK, NZ)                                                                \
  binary<T>(NAME, N, [](const T* pa, const T* pb, T* po) {                                         \
    [](V a, V b) [[gnu::always_inline]] { OPX; }(load<V>(pa), load<V>(pb)).copy_to(po, stdx::element_aligned); \
  }, REF, OK)
#define UN(NAME, OPX, REF, OK)                                                                     \
  unary<T>(NAME, N, [](const T* pa, T* po) {                                                       \
    [](V a) [[gnu::always_inline]] { OPX; }(load<V>(pa)).copy_to(po, stdx::element_aligned);       \
  }, REF, OK)
#endif
      BIN("a+b", return a + b, radd, addok, false);
      BIN("a-b", return a - b, rsub, subok, false);
      BIN("a*b", return a * b, rmul, mulok, false);
      BIN("a/b", return a / b, rdiv, divok, true);
      BIN("a+=b", a += b; return a, radd, addok, false);
      BIN("a-=b", a -= b; return a, rsub, subok, false);
      BIN("a*=b", a *= b; return a, rmul, mulok, false);
      BIN("a/=b", a /= b; return a, rdiv, divok, true);
      UN("+a", return +a, [](T a) { return a; }, any1);
      UN("-a", return -a,
	 [](T a) {
	   if constexpr (I)
	     return T(-W(a));
	   else
	     return T(-a);
	 },
	 ([](T a) { return !(I && std::is_signed_v<T> && sizeof(T) >= 4 && a == std::numeric_limits<T>::min()); }));
      auto incok = [](T a) { return no_overflow<T>(Add(), a, T(1)); };
      auto decok = [](T a) { return no_overflow<T>(Sub(), a, T(1)); };
      auto rinc = [](T a) { return T(W(a) + W(1)); };
      auto rdec = [](T a) { return T(W(a) - W(1)); };
      auto rid = [](T a) { return a; };
      UN("++a", ++a; return a, rinc, incok);
      UN("--a", --a; return a, rdec, decok);
      UN("ret(++a)", return ++a, rinc, incok);
      UN("ret(--a)", return --a, rdec, decok);
      UN("ret(a++)", return a++, rid, incok);
      UN("ret(a--)", return a--, rid, decok);
      UN("a++", a++; return a, rinc, incok);
      UN("a--", a--; return a, rdec, decok);
      if constexpr (I)
	{
	  auto rmod = [](T a, T b) { return T(a % b); };
	  BIN("a%b", return a % b, rmod, divok, true);
	  BIN("a%=b", a %= b; return a, rmod, divok, true);
	  BIN("a&b", return a & b, [](T a, T b) { return T(a & b); }, any, false);
	  BIN("a|b", return a | b, [](T a, T b) { return T(a | b); }, any, false);
	  BIN("a^b", return a ^ b, [](T a, T b) { return T(a ^ b); }, any, false);
	  BIN("a&=b", a &= b; return a, [](T a, T b) { return T(a & b); }, any, false);
	  BIN("a|=b", a |= b; return a, [](T a, T b) { return T(a | b); }, any, false);
	  BIN("a^=b", a ^= b; return a, [](T a, T b) { return T(a ^ b); }, any, false);
	  UN("~a", return ~a, [](T a) { return T(~a); }, any1);
	}
#if !VH_CONST
      // whole-vector operations never look at other objects: aliasing forms
      BIN("a+=a", (void) b; a += a; return a, ([](T a, T) { return T(W(a) + W(a)); }), ([](T a, T) { return no_overflow<T>(Add(), a, a); }), false);
      BIN("a-=a", (void) b; a -= a; return a, ([](T a, T) { return T(W(a) - W(a)); }), ([](T a, T) { return no_overflow<T>(Sub(), a, a); }), false);
#endif
    }
}
int main(int argc, char** argv)
{
  init(argc, argv);
  each_type([](auto t) { run<typename decltype(t)::type>(); });
  finish_line();
}
