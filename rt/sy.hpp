// Harness interface.  In the symbolic build these are modelled by the engine;
// in the native build (rt/native.cpp) they read a recorded input assignment.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
long sy_int(const char* name, long lo, long hi);   // any value in [lo, hi]
long sy_concrete(long v);                          // forks over every feasible value
void sy_assume(bool c);
void sy_assert_(bool c, const char* msg);
void sy_reach(const char* label);                  // vacuity witness
long sy_param(const char* name, long dflt);        // bound, fixed per run
void sy_obs(uint64_t v);                           // observable output, for engine/native comparison
void sy_noleak(void);                              // disables the leak check on this path
}
#define SY_STR2(x) #x
#define SY_STR(x) SY_STR2(x)
#define sy_assert(c, msg) sy_assert_((c), msg " @" __FILE__ ":" SY_STR(__LINE__))
static inline long sy_choice(const char* name, long n) { return sy_concrete(sy_int(name, 0, n - 1)); }
static inline long sy_choice2(const char* name, long lo, long hi) { return sy_concrete(sy_int(name, lo, hi)); }
#define HARNESS(n) extern "C" __attribute__((used)) void h_##n()
