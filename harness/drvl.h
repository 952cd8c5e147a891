// Drivers for loads and stores: memory with inaccessible neighbours and canaries.
#pragma once
#include "vhcore.h"
namespace vh
{
struct PairTable
{ // matching values: from[i] (size fs) converts to to[i] (size ts)
  const unsigned char *from, *to;
  const unsigned char* alt; // second admissible result (see drvl.cpp) or the same
  std::size_t n, fs, ts;
  int cmp;	 // 0 bytes, 1 float, 2 double, 3 long double
  std::string (*show_from)(const void*);
  std::string (*show_to)(const void*);
};
template <class From, class To> const PairTable& pair_table();
using LOAD = void (*)(const void* mem, void* lanes);
using STORE = void (*)(const void* lanes, void* mem);
// op reads N elements of the memory type and produces N vector elements
void load_check(const char* name, const char* T, int N, const PairTable& t, std::size_t align, LOAD op);
void store_check(const char* name, const char* T, int N, const PairTable& t, std::size_t align, STORE op);
// masked: op(mask, mem, lanes in/out)
using MLOAD = void (*)(const bool* k, const void* mem, void* lanes);
using MSTORE = void (*)(const bool* k, const void* lanes, void* mem);
void masked_load_check(const char* name, const char* T, int N, const PairTable& t, std::size_t align, MLOAD op, bool zero_init);
void masked_store_check(const char* name, const char* T, int N, const PairTable& t, std::size_t align, MSTORE op);
#define VH_Y(U, T) extern template const PairTable& pair_table<U, T>();
#define VH_PAIRS1(T)                                                                               \
  VH_Y(char, T) VH_Y(schar, T) VH_Y(uchar, T) VH_Y(short, T) VH_Y(ushort, T) VH_Y(int, T) VH_Y(uint, T) VH_Y(long, T)     \
  VH_Y(ulong, T) VH_Y(llong, T) VH_Y(ullong, T) VH_Y(float, T) VH_Y(double, T) VH_Y(ldouble, T) VH_Y(wchar_t, T)           \
  VH_Y(char16_t, T) VH_Y(char32_t, T)
VH_ALL_TYPES(VH_PAIRS1)
VH_Y(bool, bool)
#undef VH_Y
} // namespace vh
