// Drivers over masks; element-type independent.
#pragma once
#include "vhcore.h"
namespace vh
{
using MK1 = void (*)(const bool*, bool*);
using MK2 = void (*)(const bool*, const bool*, bool*);
using MR1 = bool (*)(bool);
using MR2 = bool (*)(bool, bool);
using MI2 = int (*)(const bool*, const bool*);
// per-lane results
void mask_unary(const char* name, const char* T, int N, MK1 op, MR1 ref);
void mask_binary(const char* name, const char* T, int N, MK2 op, MR2 ref);
// integer reductions over lanes of comb(a, b)
enum Red { ALL, ANY, NONE, SOME, COUNT, FIRST, LAST };
int mask_ref(Red r, const bool* m, int N);
const char* red_name(Red r);
void mask_reduce(const char* name, const char* T, int N, Red r, MI2 op, MR2 comb);
// one element written through a reference: op(mask in, index, value, mask out)
using MSET = void (*)(const bool*, int, bool, bool*);
void mask_set(const char* name, const char* T, int N, MSET op);
// bits <-> lanes: op(mask in) -> bits ; op(bits) -> mask out
using MB = unsigned long long (*)(const bool*);
using BM = void (*)(unsigned long long, bool*);
void mask_to_bits(const char* name, const char* T, int N, MB op);
void mask_from_bits(const char* name, const char* T, int N, BM op);
void lanes_check(const char* name, const char* T, const char* detail, int N, const bool* got, const bool* exp);
void int_check(const char* name, const char* T, const char* detail, long long got, long long exp);
} // namespace vh
