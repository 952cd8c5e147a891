#include "drv.h"
namespace vh
{
template <class T>
void binary(const char* name, int N, K2<T> op, R2<T> ref, P2<T> valid)
{
  if (!want(name))
    return;
  set_op(name, tname<T>());
  std::vector<T> A, B, R;
  auto add = [&](T a, T b) {
    if (valid(a, b))
      {
	A.push_back(a);
	B.push_back(b);
	R.push_back(ref(a, b));
      }
  };
  const auto& al = alphabet<T>();
  for (T a : al)
    for (T b : al)
      add(a, b);
  if constexpr (sizeof(T) == 2)
    {
      for (int i = 0; i < 65536; ++i)
	for (T b : deep ? alphabet<T>() : std::vector<T>{T(1), T(-3), T(0x7fff), T(257)})
	  {
	    add(T(i), b);
	    add(b, T(i));
	  }
    }
  if constexpr (sizeof(T) > 2)
    if (deep)
      {
	auto big = make_alphabet<T>(1000);
	for (T a : big)
	  for (T b : big)
	    add(a, b);
      }
  const std::size_t M = A.size();
  for (int i = 0; i < N; ++i)
    {
      A.push_back(A[i]);
      B.push_back(B[i]);
      R.push_back(R[i]);
    }
  T out[64];
  for (std::size_t i = 0; i < M; ++i)
    {
      op(&A[i], &B[i], out);
      if (__builtin_expect(std::memcmp(out, &R[i], N * sizeof(T)) != 0, 0))
	for (int l = 0; l < N; ++l)
	  if (!same(out[l], R[i + l]))
	    bad("lane " + std::to_string(l) + " a=" + show(A[i + l]) + " b=" + show(B[i + l])
		+ " expected " + show(R[i + l]) + " got " + show(out[l]));
    }
  st.states += M;
  st.trans += M * N;
  st.execs += M;
  VH_SAMPLE(std::string(name) + " " + tname<T>() + " a=" + show(A[M / 2]) + " b=" + show(B[M / 2])
	    + " -> " + show(R[M / 2]));
}

template <class T>
void unary(const char* name, int N, K1<T> op, R1<T> ref, P1<T> valid)
{
  if (!want(name))
    return;
  set_op(name, tname<T>());
  std::vector<T> A, R;
  auto vals = make_alphabet<T>(1000);
  if constexpr (sizeof(T) == 2)
    for (int i = 0; i < 65536; ++i)
      vals.push_back(T(i));
  for (T a : vals)
    if (valid(a))
      {
	A.push_back(a);
	R.push_back(ref(a));
      }
  const std::size_t M = A.size();
  while (A.size() < M + N)
    {
      A.push_back(T(A[A.size() - M]));
      R.push_back(T(R[R.size() - M]));
    }
  T out[64];
  for (std::size_t i = 0; i < M; ++i)
    {
      op(&A[i], out);
      if (std::memcmp(out, &R[i], N * sizeof(T)) != 0)
	for (int l = 0; l < N; ++l)
	  if (!same(out[l], R[i + l]))
	    bad("lane " + std::to_string(l) + " a=" + show(A[i + l]) + " expected " + show(R[i + l])
		+ " got " + show(out[l]));
    }
  st.states += M;
  st.trans += M * N;
  st.execs += M;
}

// constant operands: compile-time-known / opaque operand combinations
template <class T>
void const_check(const char* name, const char* how, int seed, int N, const T* a,
				   const T* b, const T* out, R2<T> ref)
{
  set_op(name, tname<T>());
  for (int l = 0; l < N; ++l)
    {
      T e = ref(a[l], b[l]);
      if (!same(out[l], e))
	bad(std::string(how) + " seed " + std::to_string(seed) + " lane " + std::to_string(l)
	    + " a=" + show(a[l]) + " b=" + show(b[l]) + " expected " + show(e) + " got "
	    + show(out[l]));
    }
  ++st.states;
  st.trans += N;
  ++st.execs;
}

template <class T> void compare(const char* name, int N, KM<T> op, RM<T> ref)
{
  if (!want(name))
    return;
  set_op(name, tname<T>());
  std::vector<T> A, B;
  auto al = alphabet<T>();
  if (deep && sizeof(T) > 1)
    al = make_alphabet<T>(1000);
  for (T a : al)
    for (T b : al)
      {
	A.push_back(a);
	B.push_back(b);
      }
  if constexpr (sizeof(T) == 2)
    for (int i = 0; i < 65536; ++i)
      for (T b : {T(i), T(i + 1), T(i ^ 0x8000), T(0x7fff), T(-1)})
	{
	  A.push_back(T(i));
	  B.push_back(b);
	}
  const std::size_t M = A.size();
  for (int i = 0; i < N; ++i)
    {
      A.push_back(T(A[i]));
      B.push_back(T(B[i]));
    }
  bool* R = new bool[M + N];
  for (std::size_t i = 0; i < M + N; ++i)
    R[i] = ref(A[i], B[i]);
  unsigned char out[64];
  for (std::size_t i = 0; i < M; ++i)
    {
      op(&A[i], &B[i], reinterpret_cast<bool*>(out));
      if (std::memcmp(out, &R[i], N) != 0)
	for (int l = 0; l < N; ++l)
	  if (out[l] != (unsigned char) R[i + l])
	    bad("lane " + std::to_string(l) + " a=" + show(A[i + l]) + " b=" + show(B[i + l])
		+ " expected " + show(R[i + l]) + " got " + std::to_string(out[l]));
    }
  delete[] R;
  st.states += M;
  st.trans += M * N;
  st.execs += M;
  VH_SAMPLE(std::string(name) + " " + tname<T>() + " a=" + show(A[M / 2]) + " b=" + show(B[M / 2]));
}
template <class T>
void scalar_count(const char* name, int N, KS<T> op, RS<T> ref, int lo, int hi)
{
  if constexpr (std::is_integral_v<T>)
    {
      if (!want(name))
	return;
      set_op(name, tname<T>());
      std::vector<T> A = sizeof(T) == 2 ? all_values16<T>() : make_alphabet<T>(1000);
      const std::size_t M = A.size();
      while (A.size() < M + N)
	A.push_back(T(A[A.size() - M]));
      std::vector<T> R(A.size());
      T out[64];
      for (int c = lo; c < hi; ++c)
	{
	  for (std::size_t i = 0; i < A.size(); ++i)
	    R[i] = ref(A[i], c);
	  for (std::size_t i = 0; i < M; ++i)
	    {
	      op(&A[i], c, out);
	      if (std::memcmp(out, &R[i], N * sizeof(T)) != 0)
		for (int l = 0; l < N; ++l)
		  if (out[l] != R[i + l])
		    bad("lane " + std::to_string(l) + " a=" + show(A[i + l]) + " count=" + show(c)
			+ " expected " + show(R[i + l]) + " got " + show(out[l]));
	    }
	}
      st.states += M * (hi - lo);
      st.trans += M * (hi - lo) * N;
      st.execs += M * (hi - lo);
      VH_SAMPLE(std::string(name) + " " + tname<T>() + " a=" + show(A[M / 2]) + " count=" + show(hi / 2));
    }
}
template <class T>
void vector_count(const char* name, int N, K2<T> op, RS<T> ref, int lo, int hi)
{
  if constexpr (std::is_integral_v<T>)
    {
      if (!want(name))
	return;
      set_op(name, tname<T>());
      const auto al = sizeof(T) == 2 && deep ? all_values16<T>() : make_alphabet<T>(1000);
      std::vector<T> A, B, R;
      for (T a : al)
	for (int c = lo; c < hi; ++c)
	  {
	    A.push_back(a);
	    B.push_back(T(c));
	  }
      // and with all lanes sharing / nearly sharing one count
      for (int c = lo; c < hi; ++c)
	for (T a : al)
	  {
	    A.push_back(a);
	    B.push_back(T(c));
	  }
      const std::size_t M = A.size();
      for (int i = 0; i < N; ++i)
	{
	  A.push_back(T(A[i]));
	  B.push_back(T(B[i]));
	}
      for (std::size_t i = 0; i < M + N; ++i)
	R.push_back(ref(A[i], int(B[i])));
      T out[64];
      for (std::size_t i = 0; i < M; ++i)
	{
	  op(&A[i], &B[i], out);
	  if (std::memcmp(out, &R[i], N * sizeof(T)) != 0)
	    for (int l = 0; l < N; ++l)
	      if (out[l] != R[i + l])
		bad("lane " + std::to_string(l) + " a=" + show(A[i + l]) + " count=" + show(B[i + l])
		    + " expected " + show(R[i + l]) + " got " + show(out[l]));
	}
      st.states += M;
      st.trans += M * N;
      st.execs += M;
    }
}

#define VH_X(T)                                                                                    \
  template void compare<T>(const char*, int, KM<T>, RM<T>);                                        \
  template void scalar_count<T>(const char*, int, KS<T>, RS<T>, int, int);                         \
  template void vector_count<T>(const char*, int, K2<T>, RS<T>, int, int);                         \
  template void binary<T>(const char*, int, K2<T>, R2<T>, P2<T>);                                  \
  template void unary<T>(const char*, int, K1<T>, R1<T>, P1<T>);                                   \
  template void const_check<T>(const char*, const char*, int, int, const T*, const T*, const T*, R2<T>);
VH_ALL_TYPES(VH_X)
} // namespace vh
