// Per translation unit configuration; included after vh.h (which may be precompiled).
#pragma once
#include "vh.h"
namespace vh
{
#ifndef VH_ISA
#define VH_ISA "?"
#endif
#ifndef VH_ABI
#define VH_ABI 1
#endif
#ifndef VH_TYPES
#define VH_TYPES schar, uchar, short, ushort, int, uint, long, ulong, float, double
#endif
#ifndef VH_CONST
#define VH_CONST 0
#endif
#ifndef VH_FINITE
#define VH_FINITE 0
#endif
#if VH_FINITE
static const bool set_finite = finite = VH_FINITE;
#endif
#ifndef VH_DEEP
#define VH_DEEP 0
#endif

template <class F> void each_type(F&& f) { each(tlist<VH_TYPES>(), std::forward<F>(f)); }

}
