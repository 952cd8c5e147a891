#include "drvh.h"
#include <unordered_map>
namespace vh
{
static const char* opname[] = {
#define VH_E(x) #x,
  VH_OPS(VH_E)
#undef VH_E
};
template <class T> struct Model
{
  std::array<T, 64> v{};
  std::array<bool, 64> m{};
  int N;
};
template <class T> static T wrap(Op op, T a, T b, bool& ok)
{
  if constexpr (std::is_floating_point_v<T>)
    switch (op)
      {
      case ADD: return a + b;
      case SUB: return a - b;
      case MUL: return a * b;
      case DIV: return a / b;
      default: ok = false; return a;
      }
  else
    {
      using P = decltype(a + b);
      const __int128 x = P(a), y = P(b);
      __int128 r = 0;
      switch (op)
	{
	case ADD: r = x + y; break;
	case SUB: r = x - y; break;
	case MUL: r = x * y; break;
	case DIV:
	case MOD:
	  if (y == 0)
	    {
	      ok = false;
	      return a;
	    }
	  r = op == DIV ? x / y : x % y;
	  break;
	case AND: r = x & y; break;
	case OR: r = x | y; break;
	case XOR: r = x ^ y; break;
	case SHL:
	case SHR:
	  if (y < 0 || y >= int(sizeof(P) * 8))
	    {
	      ok = false;
	      return a;
	    }
	  r = op == SHL ? x << int(y) : x >> int(y);
	  if (op == SHL)
	    return T(r); // well defined modulo 2^n in g++
	  break;
	default: ok = false; return a;
	}
      if (std::is_signed_v<P> && (r < std::numeric_limits<P>::min() || r > std::numeric_limits<P>::max()))
	ok = false;
      return T(r);
    }
}
// false: not defined here
template <class T> static bool model(Model<T>& s, Op op, int i, int j, T c, T* ret)
{
  bool ok = true;
  const int N = s.N;
  const bool b = c != T(0);
  auto& v = s.v;
  auto& m = s.m;
  *ret = 0;
  auto each = [&](Op o, T x, auto sel) {
    for (int l = 0; l < N; ++l)
      if (sel(l))
	v[l] = wrap(o, v[l], x, ok);
  };
  auto all = [](int) { return true; };
  auto msel = [&](int l) { return m[l]; };
  switch (op)
    {
    case SET: v[i] = c; *ret = c; break;
    case ADD: case SUB: case MUL: case DIV: case MOD: case AND: case OR: case XOR: case SHL: case SHR:
      v[i] = wrap(op, v[i], c, ok);
      *ret = v[i];
      break;
    case PREINC: v[i] = wrap(ADD, v[i], T(1), ok); *ret = v[i]; break;
    case PREDEC: v[i] = wrap(SUB, v[i], T(1), ok); *ret = v[i]; break;
    case POSTINC: *ret = v[i]; v[i] = wrap(ADD, v[i], T(1), ok); break;
    case POSTDEC: *ret = v[i]; v[i] = wrap(SUB, v[i], T(1), ok); break;
    case CHAIN: // (v[i] = c) += 1
      v[i] = wrap(ADD, c, T(1), ok);
      *ret = v[i];
      break;
    case SWAP_REFS: std::swap(v[i], v[j]); break;
    case SWAP_REF_VAL: case SWAP_VAL_REF: *ret = v[i]; v[i] = c; break;
    case COPY_ELEM: v[i] = v[j]; break;
    case SET_FIRST: v[0] = c; break;
    case SET_LAST: v[N - 1] = c; break;
    case BROADCAST: for (int l = 0; l < N; ++l) v[l] = c; break;
    case GENERATE: for (int l = 0; l < N; ++l) v[l] = T(T(l % 5) + c); *ret = T(N); break;
    case COPY: case RELOAD: case VIA_FIXED: case VIA_SIMD_CAST: case MRELOAD: case MVIA_FIXED: case FRESH: break;
    case NEGATE:
      for (int l = 0; l < N; ++l)
	if constexpr (std::is_floating_point_v<T>)
	  v[l] = -v[l];
	else
	  v[l] = wrap(SUB, T(0), v[l], ok);
      break;
    case COMPL:
      if constexpr (std::is_integral_v<T>)
	for (int l = 0; l < N; ++l) v[l] = T(~v[l]);
      break;
    case VADD: each(ADD, c, all); break;
    case VSUB: each(SUB, c, all); break;
    case VINC: case VPOSTINC: *ret = v[i]; each(ADD, 1, all); if (op == VINC) *ret = v[i]; break;
    case VDEC: case VPOSTDEC: *ret = v[i]; each(SUB, 1, all); if (op == VDEC) *ret = v[i]; break;
    case WHERE_SET: for (int l = 0; l < N; ++l) if (m[l]) v[l] = c; break;
    case WHERE_ADD: each(ADD, c, msel); break;
    case WHERE_INC: each(ADD, 1, msel); break;
    case WHERE_SELF: for (int l = 0; l < N; ++l) if (m[l]) v[l] = wrap(ADD, v[l], v[l], ok); break;
    case MSET: m[i] = b; *ret = b; break;
    case MAND: m[i] = m[i] && b; break;
    case MOR: m[i] = m[i] || b; break;
    case MXOR: m[i] = m[i] != b; break;
    case MSWAP_REFS: std::swap(m[i], m[j]); break;
    case MSWAP_REF_VAL: case MSWAP_VAL_REF: *ret = m[i]; m[i] = b; break;
    case MCOPY_ELEM: m[i] = m[j]; break;
    case MBROADCAST: for (int l = 0; l < N; ++l) m[l] = b; break;
    case MNOT: for (int l = 0; l < N; ++l) m[l] = !m[l]; break;
    case MLESS: for (int l = 0; l < N; ++l) m[l] = v[l] < c; break;
    case MEQUAL: for (int l = 0; l < N; ++l) m[l] = v[l] == c; break;
    case MAND_LESS: for (int l = 0; l < N; ++l) m[l] = m[l] && v[l] < c; break;
    case MWHERE: for (int l = 0; l < N; ++l) if (v[l] < c) m[l] = b; break;
    default: return false;
    }
  if constexpr (std::is_floating_point_v<T>)
    for (int l = 0; l < N; ++l)
      if (!std::isfinite(v[l]))
	ok = false; // NaN handling is the subject of other checks
  return ok;
}
template <class T> struct Tr
{
  int parent;
  unsigned char op, i, j;
  T c;
};
void fill_storage(void* p, std::size_t n, unsigned char c) { std::memset(p, c, n); }
template <class T> void histories(const char* name, const Kernels<T>& k)
{
  if (!want(name))
    return;
  set_op(name, tname<T>());
  const int N = k.N, B = k.bytes;
  std::vector<unsigned char> pool; // raw objects: padding elements are part of the state
  std::vector<Model<T>> models;
  std::vector<Tr<T>> tr;
  std::unordered_map<std::string, int> seen;
  std::vector<int> pos{0};
  for (int p : {1, N / 2, N - 2, N - 1})
    if (p > 0 && p < N && std::find(pos.begin(), pos.end(), p) == pos.end())
      pos.push_back(p);
  std::vector<T> cs{T(0), T(1), T(3)};
  if constexpr (std::is_signed_v<T> || std::is_floating_point_v<T>)
    cs.push_back(T(-2));
  else
    cs.push_back(std::numeric_limits<T>::max());
  std::vector<Tr<T>> moves;
  for (int o = 0; o < NUM_OPS; ++o)
    {
      const bool uses_i = o <= COPY_ELEM || (o >= MSET && o <= MCOPY_ELEM) || (o >= VINC && o <= VPOSTDEC);
      const bool uses_j = o == SWAP_REFS || o == COPY_ELEM || o == MSWAP_REFS || o == MCOPY_ELEM;
      const bool uses_c = o <= SHR || o == CHAIN || o == SWAP_REF_VAL || o == SWAP_VAL_REF || o == SET_FIRST || o == SET_LAST || o == BROADCAST || o == GENERATE || o == VADD || o == VSUB
			  || o == WHERE_SET || o == WHERE_ADD || (o >= MSET && o <= MXOR) || o == MSWAP_REF_VAL || o == MSWAP_VAL_REF || o == MBROADCAST || o == MLESS || o == MEQUAL
			  || o == MAND_LESS || o == MWHERE || o == FRESH;
      for (int i : uses_i ? pos : std::vector<int>{0})
	for (int j : uses_j ? pos : std::vector<int>{0})
	  for (T c : uses_c ? cs : std::vector<T>{T(0)})
	    if (!uses_j || i != j)
	      moves.push_back({0, (unsigned char)o, (unsigned char)i, (unsigned char)j, c});
    }
  auto path = [&](int s, const Tr<T>* last) {
    std::vector<Tr<T>> p;
    for (; s > 0; s = tr[s].parent)
      p.push_back(tr[s]);
    std::reverse(p.begin(), p.end());
    if (last)
      p.push_back(*last);
    std::string r;
    for (auto& t : p)
      r += std::string(r.empty() ? "" : "; ") + opname[t.op] + " i=" + std::to_string(t.i) + " j=" + std::to_string(t.j) + " c=" + show(t.c);
    return r;
  };
  unsigned bads = 0;
  alignas(256) static unsigned char obj[8192];
  auto check = [&](const Model<T>& s, auto&& where) {
    static T v[64], v2[64], mm[2];
    static bool m[64], m2[64];
    int obs[NUM_OBS];
    const bool agree = k.read(obj, v, m, v2, m2, obs, mm);
    ++st.execs;
    st.trans += N;
    std::string e;
    if (!agree)
      e += " the ways to read an element disagree;";
    for (int l = 0; l < N; ++l)
      {
	if (!same<T>(v[l], s.v[l]))
	  e += " v[" + std::to_string(l) + "] expected " + show(T(s.v[l])) + " got " + show(T(v[l])) + ";";
	if (!same<T>(v2[l], s.v[l]))
	  e += " stored v[" + std::to_string(l) + "] expected " + show(T(s.v[l])) + " got " + show(T(v2[l])) + ";";
	if (m[l] != s.m[l])
	  e += " m[" + std::to_string(l) + "] expected " + std::to_string(s.m[l]) + ";";
	if (m2[l] != s.m[l])
	  e += " stored m[" + std::to_string(l) + "] expected " + std::to_string(s.m[l]) + ";";
      }
    int pop = 0, zero = 0, first = -1, last = -1;
    T lo = s.v[0], hi = s.v[0];
    for (int l = 0; l < N; ++l)
      {
	if (s.m[l])
	  {
	    ++pop;
	    if (first < 0)
	      first = l;
	    last = l;
	  }
	zero += s.v[l] == T(0);
	lo = std::min(lo, T(s.v[l]));
	hi = std::max(hi, T(s.v[l]));
      }
    const int want_obs[NUM_OBS] = {pop == N, pop > 0, pop == 0, pop > 0 && pop < N, pop, first, last, zero, 1, 1, N - pop};
    static const char* oname[] = {"all_of", "any_of", "none_of", "some_of", "popcount", "find_first_set", "find_last_set", "popcount(v == 0)", "all_of(v == v)", "all_of(m == m)", "popcount(!m)"};
    for (int o = 0; o < NUM_OBS; ++o)
      if (obs[o] != want_obs[o])
	e += std::string(" ") + oname[o] + " expected " + std::to_string(want_obs[o]) + " got " + std::to_string(obs[o]) + ";";
    if (mm[0] != lo || mm[1] != hi)
      e += " hmin, hmax expected " + show(lo) + ", " + show(hi) + " got " + show(T(mm[0])) + ", " + show(T(mm[1])) + ";";
    if (!e.empty())
      {
	++bads;
	bad(where() + " ->" + e);
      }
    return e.empty();
  };
  auto intern = [&](const Model<T>& s, const Tr<T>& t) {
    std::string key((const char*)obj, B);
    if (!seen.emplace(key, int(tr.size())).second)
      return;
    pool.insert(pool.end(), obj, obj + B);
    models.push_back(s);
    tr.push_back(t);
    ++st.states;
  };
  std::memset(obj, 0, sizeof(obj));
  k.init(obj);
  Model<T> s0;
  s0.N = N;
  if (!check(s0, [] { return std::string("initial"); }))
    return;
  intern(s0, {});
  const std::size_t cap = deep ? 60000 : 2500;
  for (std::size_t s = 0; s < tr.size() && bads < 30; ++s)
    for (const auto& mv : moves)
      {
	Model<T> n = models[s];
	T want_ret, ret = 0;
	if (!model(n, Op(mv.op), mv.i, mv.j, mv.c, &want_ret))
	  continue;
	std::memcpy(obj, &pool[s * B], B);
	if (!k.step(obj, mv.op, mv.i, mv.j, mv.c, &ret))
	  continue;
	auto where = [&] { return path(int(s), &mv); };
	if (!same<T>(ret, want_ret))
	  {
	    ++bads;
	    bad(where() + " -> result expected " + show(want_ret) + " got " + show(ret));
	  }
	if (!check(n, where))
	  continue;
	Tr<T> t = mv;
	t.parent = int(s);
	if (tr.size() < cap)
	  intern(n, t);
      }
  VH_SAMPLE(std::string(name) + " " + tname<T>() + " " + path(int(tr.size()) - 1, nullptr) + " N=" + std::to_string(N));
}
#define VH_X(T) template void histories<T>(const char*, const Kernels<T>&);
VH_ALL_TYPES(VH_X)
#undef VH_X
} // namespace vh
