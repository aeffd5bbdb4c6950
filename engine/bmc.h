/* Bounded model checking harness API (CBMC), also compiled natively for replay. */
#ifndef BMC_H
#define BMC_H
#include <stddef.h>
#ifdef __CPROVER
long nondet_long(void); unsigned char nondet_uchar(void);
static long ND(void) { long v = nondet_long(); return v; }
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, msg) __CPROVER_assert(c, "goal: " msg)
#define COVER(c) 
#else
#include <stdio.h>
#include <stdlib.h>
extern long nd_log[1024]; extern int nd_n;
long ND(void);
#define ASSUME(c) do { if (!(c)) { printf("REPLAY-DEAD\n"); exit(5); } } while (0)
#define CHECK(c, msg) do { if (!(c)) { printf("REPLAY-FAIL %s\n", msg); fflush(stdout); exit(1); } } while (0)
#endif
/* a value within bounds */
static inline long nd_in(long lo, long hi) { long v = ND(); ASSUME(v >= lo && v <= hi); return v; }
void bmc_main(void);
#endif
