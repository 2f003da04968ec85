// Interface between a harness and its two executors:
//  - the symbolic executor (engine/symex.cpp), where vp_sym_* are symbolic variables, and
//  - the native runtime (harness/vp_native.cpp), which replays one assignment on the real compiled code.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t vp_sym_bits(const char* name, unsigned bits); // any value of that many bits
double vp_sym_real(const char* name);                  // any real
uint64_t vp_choice(const char* name, uint64_t n);      // one of 0..n-1, explored separately
void vp_assume(bool c);
void vp_assert(bool c, const char* msg);
void vp_assert_req(double a, double b, const char* msg); // equal as real numbers (natively: up to rounding)
void vp_cover(const char* label);                        // must be reached: vacuity witness
void vp_log(const char* name, uint64_t v);               // compared between native and symbolic runs
void vp_log_real(const char* name, double v);
uint64_t vp_symbolic();    // 1 under the symbolic executor
bool vp_fork(bool c);      // decide c on separate paths
void vp_memcpy(void* d, const void* s, uint64_t n);
int vp_main();
}
static inline bool vp_sym_bool(const char* n) { return vp_sym_bits(n, 1) != 0; }
static inline uint64_t vp_sym_range(const char* n, unsigned bits, uint64_t lo, uint64_t hi) { uint64_t v = vp_sym_bits(n, bits); vp_assume(v >= lo && v <= hi); return v; }
#define CHECK(c, msg) vp_assert((c), msg)
