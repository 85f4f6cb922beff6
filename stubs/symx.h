// Harness/runtime interface of the symbolic engine (symx).  In a symbolic build these are
// intercepted by the engine; in a native replay build they are implemented by native_rt.cc.
#ifndef SYMX_H_
#define SYMX_H_
#include <stddef.h>
#include <stdint.h>
extern "C" {
// Arbitrary integer in [lo,hi].
int64_t __sym_int(const char* name, int64_t lo, int64_t hi);
// As above, but the path forks so that the value is concrete afterwards.
int64_t __sym_choice(const char* name, int64_t lo, int64_t hi);
// k/den for an arbitrary integer k in [lo,hi]; exact rational ("numeric") value.
double __sym_num(const char* name, int64_t lo, int64_t hi, int64_t den);
// Arbitrary real number in [lo,hi].
double __sym_real(const char* name, double lo, double hi);
// Arbitrary bit patterns.
uint64_t __sym_bits(const char* name, int width);
void __sym_assume(int cond);
void __sym_check(int cond, const char* msg);
void __sym_fail(const char* msg);              // a check that failed unconditionally
void __sym_reach(const char* label);           // vacuity marker
void __sym_observe_i(const char* name, int64_t v);
void __sym_observe_d(const char* name, double v);
int __sym_is_symbolic(const void* p, size_t n);
uint64_t __sym_pick(uint64_t v);               // one representative of what the path has not distinguished
uint64_t __sym_concretize(uint64_t v);         // fork until v is a constant
void __sym_fatal(const char* msg);             // CHECK / LOG(FATAL) / abort with a message
void __sym_option(const char* name, int64_t v);
void __sym_note(const char* msg);
int64_t __sym_param(const char* name, int64_t def);   // bound chosen by the runner (tier)
int __sym_native(void);                        // 1 in a native replay build
// Nondeterministic random draw number `counter` of the generator seeded with `seed`.
uint64_t __sym_draw_int(uint64_t seed, uint64_t counter, uint64_t lo, uint64_t hi);
double __sym_draw_unit(uint64_t seed, uint64_t counter);
}
#endif
