// C13: an object under sequences of element and whole-vector operations.
#include "vhcfg.h"
#include "drvh.h"
using namespace vh;
#define EA stdx::element_aligned
template <class V> struct Obj
{
  V v;
  typename V::mask_type m;
};
// overwrites that only exist for some element types
#define TRY(expr)                                                                                  \
  [&] {                                                                                            \
    auto f = [&](auto&& v, auto&& m, auto i, auto c, auto* o) -> decltype((void)(expr)) { expr; }; \
    if constexpr (std::is_invocable_v<decltype(f), V&, M&, int, T, Obj<V>*>)                       \
      {                                                                                            \
	f(o.v, o.m, i, c, &o);                                                                     \
	return true;                                                                               \
      }                                                                                            \
    else                                                                                           \
      return false;                                                                                \
  }()
#define TRYB(expr)                                                                                 \
  [&] {                                                                                            \
    auto f = [&](auto&& v, auto&& m, auto i, bool c, auto* o) -> decltype((void)(expr)) { expr; }; \
    if constexpr (std::is_invocable_v<decltype(f), V&, M&, int, bool, Obj<V>*>)                    \
      {                                                                                            \
	f(o.v, o.m, i, b, &o);                                                                     \
	return true;                                                                               \
      }                                                                                            \
    else                                                                                           \
      return false;                                                                                \
  }()
template <class V> bool step(void* p, int op, int i, int j, typename V::value_type c, typename V::value_type* ret)
{
  using T = typename V::value_type;
  using M = typename V::mask_type;
  constexpr int N = V::size();
  auto& o = *static_cast<Obj<V>*>(p);
  V& v = o.v;
  M& m = o.m;
  const bool b = c != T(0);
  switch (op)
    {
    case SET: *ret = T(v[i] = c); return true;
    case ADD: return TRY(*ret = T(v[i] += c));
    case SUB: return TRY(*ret = T(v[i] -= c));
    case MUL: return TRY(*ret = T(v[i] *= c));
    case DIV: return TRY(*ret = T(v[i] /= c));
    case MOD: return TRY(*ret = T(v[i] %= c));
    case AND: return TRY(*ret = T(v[i] &= c));
    case OR: return TRY(*ret = T(v[i] |= c));
    case XOR: return TRY(*ret = T(v[i] ^= c));
    case SHL: return TRY(*ret = T(v[i] <<= c));
    case SHR: return TRY(*ret = T(v[i] >>= c));
    case PREINC: *ret = T(++v[i]); return true;
    case POSTINC: *ret = v[i]++; return true;
    case PREDEC: *ret = T(--v[i]); return true;
    case POSTDEC: *ret = v[i]--; return true;
    case CHAIN: return TRY(*ret = T((v[i] = c) += T(1)));
    case SWAP_REFS: swap(v[i], v[j]); return true;
    case SWAP_REF_VAL: swap(v[i], c); *ret = c; return true;
    case SWAP_VAL_REF: swap(c, v[i]); *ret = c; return true;
    case COPY_ELEM: v[i] = T(v[j]); return true;
    case SET_FIRST: v[0] = c; return true;
    case SET_LAST: v[N - 1] = c; return true;
    case BROADCAST: v = c; return true;
    case GENERATE:
      {
	bool seen[N] = {};
	int calls = 0, twice = 0;
	v = V([&](auto k) {
	  static_assert(decltype(k)::value < std::size_t(N) && std::is_same_v<typename decltype(k)::value_type, std::size_t>);
	  ++calls;
	  twice += seen[k];
	  seen[k] = true;
	  return T(T(int(k) % 5) + c);
	});
	*ret = T(calls + 1000 * twice);
	return true;
      }
    case COPY: { V w(v); M n(m); const V x = std::move(w); v = x; m = n; return true; }
    case NEGATE: v = -v; return true;
    case COMPL:
      if constexpr (std::is_integral_v<T>)
	{
	  v = ~v;
	  return true;
	}
      else
	return false;
    case VADD: v += c; return true;
    case VSUB: v = v - c; return true;
    case VINC: { V r = ++v; *ret = r[i]; return true; }
    case VDEC: { V r = --v; *ret = r[i]; return true; }
    case VPOSTINC: { V r = v++; *ret = r[i]; return true; }
    case VPOSTDEC: { V r = v--; *ret = r[i]; return true; }
    case RELOAD: { T a[N]; v.copy_to(a, EA); clobber(a); v.copy_from(a, EA); return true; }
    case VIA_FIXED: v = stdx::static_simd_cast<V>(stdx::to_fixed_size(v)); return true;
    case VIA_SIMD_CAST: v = stdx::simd_cast<T>(v); return true;
    case WHERE_SET: where(m, v) = c; return true;
    case WHERE_ADD: where(m, v) += c; return true;
    case WHERE_INC: ++where(m, v); return true;
    case WHERE_SELF: where(m, v) += v; return true;
    case MSET: *ret = bool(m[i] = b); return true;
    case MAND: return TRYB(m[i] &= c);
    case MOR: return TRYB(m[i] |= c);
    case MXOR: return TRYB(m[i] ^= c);
    case MSWAP_REFS: swap(m[i], m[j]); return true;
    case MSWAP_REF_VAL: { bool t = b; swap(m[i], t); *ret = t; return true; }
    case MSWAP_VAL_REF: { bool t = b; swap(t, m[i]); *ret = t; return true; }
    case MCOPY_ELEM: m[i] = bool(m[j]); return true;
    case MBROADCAST: m = M(b); return true;
    case MNOT: m = !m; return true;
    case MLESS: m = v < c; return true;
    case MEQUAL: m = v == c; return true;
    case MAND_LESS: m = m && (v < c); return true;
    case MRELOAD: { bool a[N]; m.copy_to(a, EA); clobber(a); m.copy_from(a, EA); return true; }
    case MVIA_FIXED: m = stdx::__proposed::static_simd_cast<V>(stdx::to_fixed_size(m)); return true;
    case MWHERE: where(v < c, m) = b; return true;
    case FRESH: // default-initialized in used storage, then written element by element
      {
	alignas(Obj<V>) static unsigned char storage[sizeof(Obj<V>)];
	fill_storage(storage, sizeof(storage), (unsigned char)(c == T(0) ? 0xff : int(c)));
	auto* n = ::new (storage) Obj<V>;
	for (int l = 0; l < N; ++l)
	  {
	    n->v[l] = T(v[l]);
	    n->m[l] = bool(m[l]);
	  }
	v = n->v;
	m = n->m;
	return true;
      }
    }
  return false;
}
template <class V> bool readall(const void* p, typename V::value_type* v, bool* m, typename V::value_type* v2, bool* m2, int* obs, typename V::value_type* mm)
{
  using T = typename V::value_type;
  constexpr int N = V::size();
  const auto& o = *static_cast<const Obj<V>*>(p);
  auto w = o; // for the non-const access
  bool ok = true;
  o.v.copy_to(v2, EA);
  o.m.copy_to(m2, EA);
  for (int i = 0; i < N; ++i)
    {
      v[i] = o.v[i];
      m[i] = o.m[i];
      ok = ok && same<T>(T(w.v[i]), v[i]) && bool(w.m[i]) == m[i];
    }
  // constant index
  ok = ok && same<T>(T(o.v[0]), v[0]) && same<T>(T(o.v[N - 1]), v[N - 1]) && same<T>(T(w.v[N / 2]), v[N / 2]) && bool(o.m[N - 1]) == m[N - 1] && bool(w.m[0]) == m[0];
  obs[O_ALL] = all_of(o.m);
  obs[O_ANY] = any_of(o.m);
  obs[O_NONE] = none_of(o.m);
  obs[O_SOME] = some_of(o.m);
  obs[O_POP] = popcount(o.m);
  obs[O_FIRST] = any_of(o.m) ? find_first_set(o.m) : -1;
  obs[O_LAST] = any_of(o.m) ? find_last_set(o.m) : -1;
  obs[O_POP0] = popcount(o.v == T(0));
  obs[O_EQ] = all_of(o.v == w.v);
  obs[O_MASKEQ] = all_of(o.m == w.m);
  obs[O_POPNOT] = popcount(!o.m);
  mm[0] = hmin(o.v);
  mm[1] = hmax(o.v);
  return ok;
}
template <class T> void run()
{
  using A = abi_of<T, VH_ABI>;
  if constexpr (!std::is_void_v<A>)
    {
      using V = stdx::simd<T, A>;
      histories<T>("history", {int(sizeof(Obj<V>)), int(V::size()), step<V>, readall<V>, [](void* p) {
				 auto& o = *static_cast<Obj<V>*>(p);
				 o.v = V();
				 o.m = typename V::mask_type();
				 o.v = T(0);
				 o.m = typename V::mask_type(false);
			       }});
    }
}
int main(int argc, char** argv)
{
  init(argc, argv);
  each_type([](auto t) { run<typename decltype(t)::type>(); });
  finish_line();
}
