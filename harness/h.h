// Shared helpers of the harnesses.
#ifndef H_H_
#define H_H_
#include <cmath>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include "symx.h"
#define ENTRY extern "C" void
#define CHECK_(c, m) __sym_check((c) ? 1 : 0, m)
#define ASSUME_(c) __sym_assume((c) ? 1 : 0)
static inline int P(const char* n, int d) { return (int)__sym_param(n, d); }
static inline int I(const char* n, int lo, int hi) { return (int)__sym_int(n, lo, hi); }
static inline int CH(const char* n, int lo, int hi) { return (int)__sym_choice(n, lo, hi); }
static inline float bits_f(const char* n) { uint32_t b = (uint32_t)__sym_bits(n, 32); float f; memcpy(&f, &b, 4); return f; }
// Any float except infinities (NaN included).
static inline bool fin(float f) { uint32_t b; memcpy(&b, &f, 4); return (b & 0x7f800000u) != 0x7f800000u; }
static inline bool nanb(float f) { uint32_t b; memcpy(&b, &f, 4); return (b & 0x7fffffffu) > 0x7f800000u; }
static inline bool infb(float f) { uint32_t b; memcpy(&b, &f, 4); return (b & 0x7fffffffu) == 0x7f800000u; }
#endif
