// Harness interface.  The same harness source is compiled twice:
//  - to LLVM IR, where symex gives these calls their symbolic meaning;
//  - natively (rt/native.cpp), where inputs come from a solver model.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint8_t sx_u8_(const char *name);
uint16_t sx_u16_(const char *name);
uint32_t sx_u32_(const char *name);
uint64_t sx_u64_(const char *name);
void sx_assume_(int c);
void sx_assert_(int c, const char *label);
void sx_cover_(const char *label);
void sx_declare_cover_(const char *label);
void sx_observe_(uint64_t v);
uint64_t sx_fork_(uint64_t v);
void sx_end_();
void sx_merge_(int limit);
void sx_msg_(const char *);
void sx_val_(const char *, uint64_t);
}
static inline uint8_t sx_u8(const char *n) { return sx_u8_(n); }
static inline uint16_t sx_u16(const char *n) { return sx_u16_(n); }
static inline uint32_t sx_u32(const char *n) { return sx_u32_(n); }
static inline uint64_t sx_u64(const char *n) { return sx_u64_(n); }
// value in [lo, hi]
static inline uint8_t sx_range(const char *n, uint8_t lo, uint8_t hi) { uint8_t v = sx_u8_(n); sx_assume_((v >= lo) & (v <= hi)); return v; }
static inline bool sx_bool(const char *n) { return sx_u8_(n) & 1; }
#define sx_assume(c) sx_assume_(!!(c))
// assertion: decided by the solver for every value of the inputs
#define sx_assert(c, label) sx_assert_(!!(c), label)
// reachability witness; declare at case entry, must be reached by some feasible path
#define sx_cover(label) sx_cover_(label)
#define sx_need(label) sx_declare_cover_(label)
#define sx_observe(v) sx_observe_((uint64_t)(v))
// split the exploration on the value (one path per value)
#define sx_fork(v) (__typeof__(v))sx_fork_((uint64_t)(v))
#define sx_end() sx_end_()
#define sx_merge(n) sx_merge_(n)
#define CASE(name) extern "C" void name()
