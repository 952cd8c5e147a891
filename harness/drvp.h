// Drivers for operations that only move elements: out[i] = in[src[i]] (src[i] < 0: zero).
#pragma once
#include "vhcore.h"
#include "drvl.h"
namespace vh
{
using MOVE = void (*)(const void* in, void* out);
void move_check(const char* name, const char* T, int NI, int NO, const PairTable& t, const int* src, MOVE op);
using KMOVE = void (*)(const bool* in, bool* out);
void mask_move_check(const char* name, const char* T, int NI, int NO, const int* src, KMOVE op);
} // namespace vh
