// Driver for histories: breadth-first search over operation sequences on one object, against an array.
#pragma once
#include "vhcore.h"
#include "drv.h"
namespace vh
{
#define VH_OPS(X)                                                                                  \
  X(SET) X(ADD) X(SUB) X(MUL) X(DIV) X(MOD) X(AND) X(OR) X(XOR) X(SHL) X(SHR)                       \
  X(PREINC) X(POSTINC) X(PREDEC) X(POSTDEC) X(CHAIN) X(SWAP_REFS) X(SWAP_REF_VAL) X(SWAP_VAL_REF) X(COPY_ELEM)  \
  X(SET_FIRST) X(SET_LAST) X(BROADCAST) X(GENERATE) X(COPY) X(NEGATE) X(COMPL) X(VADD) X(VSUB) X(VINC) X(VDEC) X(VPOSTINC) X(VPOSTDEC) \
  X(RELOAD) X(VIA_FIXED) X(VIA_SIMD_CAST) X(WHERE_SET) X(WHERE_ADD) X(WHERE_INC) X(WHERE_SELF)       \
  X(MSET) X(MAND) X(MOR) X(MXOR) X(MSWAP_REFS) X(MSWAP_REF_VAL) X(MSWAP_VAL_REF) X(MCOPY_ELEM) X(MBROADCAST) X(MNOT) X(MLESS) X(MEQUAL) X(MAND_LESS) X(MRELOAD) X(MVIA_FIXED) X(MWHERE) X(FRESH)
enum Op
{
#define VH_E(x) x,
  VH_OPS(VH_E)
#undef VH_E
    NUM_OPS
};
enum Obs
{
  O_ALL,
  O_ANY,
  O_NONE,
  O_SOME,
  O_POP,
  O_FIRST,
  O_LAST,
  O_POP0,  // elements equal to zero
  O_EQ,	   // v == v everywhere (not for NaN)
  O_MASKEQ, // all_of(m == m)
  O_POPNOT, // elements not selected
  NUM_OBS
};
template <class T> struct Kernels
{
  int bytes, N;
  // applies op to the object; false: the operation does not exist for this type; ret: what the expression returned
  bool (*step)(void* obj, int op, int i, int j, T c, T* ret);
  // reads the elements in several ways (all have to agree) and the reductions
  bool (*read)(const void* obj, T* v, bool* m, T* v2, bool* m2, int* obs, T* minmax);
  void (*init)(void* obj);
};
// storage that had been used for something else
void fill_storage(void* p, std::size_t n, unsigned char c);
template <class T> void histories(const char* name, const Kernels<T>& k);
#define VH_X(T) extern template void histories<T>(const char*, const Kernels<T>&);
VH_ALL_TYPES(VH_X)
#undef VH_X
} // namespace vh
