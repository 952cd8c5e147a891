// C07: masked loads and stores: only selected elements are touched.
#include "vhcfg.h"
#include "drvl.h"
using namespace vh;
#ifndef VH_MEM
#define VH_MEM schar, uchar, short, ushort, int, uint, long, ulong, float, double
#endif
#define EA stdx::element_aligned
template <class U> const char* nm(const char* op)
{
  static std::set<std::string> s;
  return s.insert(std::string(op) + " " + tname<U>() + "[]").first->c_str();
}
template <class V, class T, class U, class F> void flagged(const char* fn, F, std::size_t al)
{
  using M = typename V::mask_type;
  constexpr int N = V::size();
  const char* tn = tname<T>();
  const std::string n(fn);
  masked_load_check(nm<U>(("where copy_from " + n).c_str()), tn, N, pair_table<U, T>(), al, [](const bool* k, const void* m, void* o) {
    V v;
    M kk;
    v.copy_from((const T*) o, EA);
    kk.copy_from(k, EA);
    soil(kk);
    soil(v);
    where(kk, v).copy_from((const U*) m, F());
    v.copy_to((T*) o, EA);
  }, false);
  if (std::is_same_v<T, U> || VH_ABI == 1)
    masked_load_check(nm<U>(("const where copy_from " + n).c_str()), tn, N, pair_table<U, T>(), al, [](const bool* k, const void* m, void* o) {
      V v;
      M kk;
      v.copy_from((const T*) o, EA);
      kk.copy_from(k, EA);
    soil(kk);
    soil(v);
      const V c = v;
      const V r = where(kk, c).copy_from((const U*) m, F());
      r.copy_to((T*) o, EA);
    }, false);
  masked_store_check(nm<U>(("where copy_to " + n).c_str()), tn, N, pair_table<T, U>(), al, [](const bool* k, const void* i, void* m) {
    V v;
    M kk;
    v.copy_from((const T*) i, EA);
    kk.copy_from(k, EA);
    soil(kk);
    soil(v);
    where(kk, v).copy_to((U*) m, F());
  });
}
template <class T> void run()
{
  using A = abi_of<T, VH_ABI>;
  if constexpr (!std::is_void_v<A>)
    {
      using V = stdx::simd<T, A>;
      using M = typename V::mask_type;
      constexpr int N = V::size();
      const char* tn = tname<T>();
      flagged<V, T, T>("vector_aligned", stdx::vector_aligned, stdx::memory_alignment_v<V>);
      each(tlist<VH_MEM>(), [&](auto u) {
	using U = typename decltype(u)::type;
	if constexpr (VH_ABI <= 2 || sizeof(U) == sizeof(T) || VH_ABI > 0)
	  flagged<V, T, U>("element_aligned", EA, alignof(U));
      });
      const auto& bt = pair_table<bool, bool>();
      masked_load_check("mask where copy_from", tn, N, bt, 1, [](const bool* k, const void* m, void* o) {
	M v((const bool*) o, EA), kk(k, EA);
	soil(v);
	soil(kk);
	where(kk, v).copy_from((const bool*) m, EA);
	v.copy_to((bool*) o, EA);
      }, false);
      masked_load_check("mask masked constructor", tn, N, bt, 1, [](const bool* k, const void* m, void* o) {
	const M kk = loadm<M>(k);
	const M v((const bool*) m, kk, EA);
	v.copy_to((bool*) o, EA);
      }, true);
      masked_store_check("mask where copy_to", tn, N, bt, 1, [](const bool* k, const void* i, void* m) {
	const M v = loadm<M>((const bool*) i), kk = loadm<M>(k);
	where(kk, v).copy_to((bool*) m, EA);
      });
      masked_store_check("mask where copy_to vector_aligned", tn, N, bt, stdx::memory_alignment_v<M>, [](const bool* k, const void* i, void* m) {
	const M v = loadm<M>((const bool*) i), kk = loadm<M>(k);
	where(kk, v).copy_to((bool*) m, stdx::vector_aligned);
      });
#if VH_ABI == 0
      masked_load_check("where(bool, x).copy_from", tn, 1, pair_table<int, T>(), alignof(int), [](const bool* k, const void* m, void* o) {
	T x;
	std::memcpy(&x, o, sizeof x);
	stdx::where(*k, x).copy_from((const int*) m, EA);
	std::memcpy(o, &x, sizeof x);
      }, false);
      masked_store_check("where(bool, x).copy_to", tn, 1, pair_table<T, double>(), 8, [](const bool* k, const void* i, void* m) {
	T x;
	std::memcpy(&x, i, sizeof x);
	stdx::where(*k, x).copy_to((double*) m, EA);
      });
#endif
    }
}
int main(int argc, char** argv)
{
  init(argc, argv);
  each_type([](auto t) { run<typename decltype(t)::type>(); });
  finish_line();
}
