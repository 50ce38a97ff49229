/* Shared harness prelude: the same harness text is (a) encoded by CBMC, where
 * every nd_*() result is a free symbolic variable, and (b) compiled natively
 * for replay, where nd_*() returns the value recorded in a counterexample. */
#ifndef VERIF_H
#define VERIF_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

void verif_replay_fail(const char *msg);
long long verif_replay_value(unsigned idx);
void verif_replay_assume(int ok);

#ifndef __CPROVER__
extern unsigned verif_nd_idx;
#endif

#ifdef __CPROVER__
#define VERIF_CBMC 1
#define ASSUME(c)      __CPROVER_assume(c)
#define CHECK(c, msg)  __CPROVER_assert((c), "CHECK: " msg)
#define REACHED(msg)   __CPROVER_assert(0, "REACH: " msg)
#else
static inline long long nd_raw(void) { return verif_replay_value(++verif_nd_idx); }
#define ASSUME(c)      verif_replay_assume(!!(c))
#define CHECK(c, msg)  do { if (!(c)) verif_replay_fail("CHECK: " msg); } while (0)
#define REACHED(msg)   do { } while (0)
#endif

/* REACH(msg): assert(false) under the solver; the engine requires every one of
 * them to FAIL (be reachable), so no harness passes vacuously. */
#define REACH(msg)     REACHED(msg)

#ifdef __CPROVER__
/* typed nondets keep the bit width (and so the formula) small */
#define VERIF_ND(NAME, T) \
    T nondet_verif_##NAME(void); \
    static inline T nd_##NAME(void) { T verif_nd_value = nondet_verif_##NAME(); \
        __CPROVER_input("nd", verif_nd_value); return verif_nd_value; }
#else
#define VERIF_ND(NAME, T) \
    static inline T nd_##NAME(void) { return (T) nd_raw(); }
#endif
VERIF_ND(u8,  uint8_t)
VERIF_ND(i8,  int8_t)
VERIF_ND(u16, uint16_t)
VERIF_ND(i16, int16_t)
VERIF_ND(i32, int32_t)
VERIF_ND(u32, uint32_t)
VERIF_ND(i64, long)
VERIF_ND(u64, unsigned long)

static inline int nd_bool(void) { return nd_u8() & 1; }
/* lo <= result <= hi */
static inline long nd_range(long lo, long hi) { long v = nd_i64(); ASSUME(v >= lo && v <= hi); return v; }
static inline int32_t nd_irange(int32_t lo, int32_t hi) { int32_t v = nd_i32(); ASSUME(v >= lo && v <= hi); return v; }
static inline uint8_t nd_u8max(uint8_t hi) { uint8_t v = nd_u8(); ASSUME(v <= hi); return v; }

#endif
