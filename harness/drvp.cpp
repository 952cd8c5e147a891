#include "drvp.h"
namespace vh
{
void move_check(const char* name, const char* T, int NI, int NO, const PairTable& t, const int* src, MOVE op)
{
  if (!want(name))
    return;
  set_op(name, T);
  alignas(64) unsigned char in[128 * 16], out[128 * 16 + 64], exp[16];
  const std::size_t rounds = t.n + NI;
  VH_SAMPLE(std::string(name) + " " + T + " " + std::to_string(NI) + " -> " + std::to_string(NO) + " elements, first one " + t.show_from(t.from));
  for (std::size_t r = 0; r < rounds; ++r)
    {
      for (int i = 0; i < NI; ++i)
	std::memcpy(in + i * t.fs, t.from + (r + i) % t.n * t.fs, t.fs);
      std::memset(out, 0x5a, sizeof out);
      op(in, out);
      for (int i = 0; i < NO; ++i)
	{
	  const unsigned char* g = out + i * t.ts;
	  bool ok;
	  if (src[i] < 0)
	    {
	      std::memset(exp, 0, sizeof exp);
	      ok = std::memcmp(exp, g, t.cmp == 3 ? 10 : t.ts) == 0;
	    }
	  else
	    {
	      std::memcpy(exp, in + src[i] * t.fs, t.fs);
	      ok = std::memcmp(exp, g, t.cmp == 3 ? 10 : t.ts) == 0;
	    }
	  if (!ok)
	    {
	      bad("element " + std::to_string(i) + (src[i] < 0 ? std::string(" (zero)") : " (source element " + std::to_string(src[i]) + ")")
		  + " expected " + t.show_to(exp) + " got " + t.show_to(g));
	      break;
	    }
	}
    }
  st.states += rounds;
  st.execs += rounds;
  st.trans += rounds * NO;
}
void mask_move_check(const char* name, const char* T, int NI, int NO, const int* src, KMOVE op)
{
  if (!want(name))
    return;
  set_op(name, T);
  for (const auto& m : mask_patterns(NI, deep ? 16 : 10))
    {
      bool in[128], out[128];
      for (int i = 0; i < NI; ++i)
	in[i] = m[i];
      std::memset(out, 0x5a, sizeof out);
      op(in, out);
      for (int i = 0; i < NO; ++i)
	{
	  const unsigned char e = src[i] < 0 ? 0 : in[src[i]], g = ((unsigned char*) out)[i];
	  if (g != e)
	    {
	      bad("mask " + show_mask(m) + " element " + std::to_string(i) + " expected " + std::to_string(e) + " got " + std::to_string(g));
	      break;
	    }
	}
      ++st.states;
      ++st.execs;
      st.trans += NO;
    }
}
} // namespace vh
