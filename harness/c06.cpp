// C06: loads and stores, with and without conversion.
#include "vhcfg.h"
#include "drvl.h"
using namespace vh;
#ifndef VH_MEM
#define VH_MEM schar, uchar, short, ushort, int, uint, long, ulong, float, double
#endif
#define EA stdx::element_aligned
template <class T, class U> const char* nm(const char* op)
{
  static std::set<std::string> s;
  return s.insert(std::string(op) + " " + tname<U>() + "[]").first->c_str();
}
// the vector object itself is read and written through its object representation-free interface:
// a same-type element-aligned transfer whose correctness is checked by the U == T, element_aligned case
template <class V> V in(const void* p)
{
  using T = typename V::value_type;
  V v([&](auto i) {
    T x;
    std::memcpy(&x, (const char*) p + i * sizeof(T), sizeof(T));
    return x;
  });
  return v;
}
template <class V> void out(const V& v, void* p)
{
  using T = typename V::value_type;
  for (std::size_t i = 0; i < V::size(); ++i)
    {
      T x = v[i];
      std::memcpy((char*) p + i * sizeof(T), &x, sizeof(T));
    }
}
template <class V, class T, class U, class F> void flagged(const char* fn, F, std::size_t al)
{
  constexpr int N = V::size();
  const char* tn = tname<T>();
  const auto& lt = pair_table<U, T>();
  const auto& st = pair_table<T, U>();
  std::string n(fn);
  load_check(nm<T, U>(("copy_from " + n).c_str()), tn, N, lt, al, [](const void* m, void* o) {
    V v;
    v.copy_from((const U*) m, F());
    v.copy_to((T*) o, EA);
  });
  if (VH_ABI <= 2 || std::is_same_v<T, U>)
    load_check(nm<T, U>(("constructor " + n).c_str()), tn, N, lt, al, [](const void* m, void* o) {
      V v((const U*) m, F());
      v.copy_to((T*) o, EA);
    });
  store_check(nm<T, U>(("copy_to " + n).c_str()), tn, N, st, al, [](const void* i, void* m) {
    V v;
    v.copy_from((const T*) i, EA);
    soil(v);
    v.copy_to((U*) m, F());
  });
}

template <class T> void run()
{
  using A = abi_of<T, VH_ABI>;
  if constexpr (!std::is_void_v<A>)
    {
      using V = stdx::simd<T, A>;
      using M = typename V::mask_type;
      constexpr int N = V::size();
      const char* tn = tname<T>();
      // the anchor: element-wise construction and reading
      load_check("copy_from/v[i]", tn, N, pair_table<T, T>(), alignof(T), [](const void* m, void* o) {
	V v;
	v.copy_from((const T*) m, EA);
	soil(v);
	out(v, o);
      });
      store_check("generator/copy_to", tn, N, pair_table<T, T>(), alignof(T), [](const void* i, void* m) {
	const V v = in<V>(i);
	v.copy_to((T*) m, EA);
      });
      flagged<V, T, T>("vector_aligned", stdx::vector_aligned, stdx::memory_alignment_v<V>);
      flagged<V, T, T>("overaligned", stdx::overaligned<256>, 256);
      each(tlist<VH_MEM>(), [&](auto u) {
	using U = typename decltype(u)::type;
	flagged<V, T, U>("element_aligned", EA, alignof(U));
	if constexpr (VH_ABI == 1 && sizeof(T) != sizeof(U))
	  flagged<V, T, U>("vector_aligned", stdx::vector_aligned, stdx::memory_alignment_v<V, U>);
      });
      // masks
      load_check("mask copy_from", tn, N, pair_table<bool, bool>(), 1, [](const void* m, void* o) {
	M k;
	k.copy_from((const bool*) m, EA);
	out(k, o);
      });
      load_check("mask constructor", tn, N, pair_table<bool, bool>(), 1, [](const void* m, void* o) {
	M k((const bool*) m, EA);
	out(k, o);
      });
      load_check("mask copy_from vector_aligned", tn, N, pair_table<bool, bool>(), stdx::memory_alignment_v<M>, [](const void* m, void* o) {
	M k;
	k.copy_from((const bool*) m, stdx::vector_aligned);
	out(k, o);
      });
      store_check("mask copy_to", tn, N, pair_table<bool, bool>(), 1, [](const void* i, void* m) {
	M k(false);
	for (int l = 0; l < N; ++l)
	  k[l] = ((const bool*) i)[l];
	k.copy_to((bool*) m, EA);
      });
      store_check("mask copy_to vector_aligned", tn, N, pair_table<bool, bool>(), stdx::memory_alignment_v<M>, [](const void* i, void* m) {
	M k;
	k.copy_from((const bool*) i, EA);
	soil(k);
	k.copy_to((bool*) m, stdx::vector_aligned);
      });
      store_check("mask !k copy_to", tn, N, pair_table<bool, bool>(), 1, [](const void* i, void* m) {
	bool t[N];
	for (int l = 0; l < N; ++l)
	  t[l] = !((const bool*) i)[l];
	clobber(t);
	M k(t, EA);
	(!k).copy_to((bool*) m, EA);
      });
    }
}
int main(int argc, char** argv)
{
  init(argc, argv);
  each_type([](auto t) { run<typename decltype(t)::type>(); });
  finish_line();
}
