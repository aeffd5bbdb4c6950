/* C01: partition of the packing buffer for every block size configuration.
 * Cache memory size CM is concrete per job (several jobs), block sizes and item size symbolic. */
#include "bmc.h"
#include <sys/types.h>
#include <stdint.h>
#include <stdlib.h>
#include <math.h>
#ifdef __CPROVER
double nondet_double(void);
/* square root: any r with floor(r) the integer square root of x (r^2 <= x < (floor(r)+1)^2) */
static double c01_sqrt(double x) { double r = nondet_double(); unsigned short n; __CPROVER_assume(r >= 0.0 && r < 65535.0); n = (unsigned short)r; double f = n, g = f + 1.0; __CPROVER_assume(f * f <= x && x < g * g); return r; }
#define sqrt c01_sqrt
#endif
#include "base/cache.c"
#ifndef MAXB
#define MAXB 512
#endif
static armas_env_t c01_env;
armas_env_t *armas_getenv() { return &c01_env; }
void bmc_main(void) {
  armas_cbuf_t cb; cache_t c; size_t len, p = sizeof(DTYPE), data;
  int mb = nd_in(1, MAXB), nb = nd_in(1, MAXB), kb = nd_in(1, MAXB);
  long l1 = nd_in(0, 1) ? nd_in(L1LO, L1HI) : 0;
  cb.__unaligned = 0; cb.__nbytes = 0; cb.cmem = CM; cb.l1mem = l1; 
  /* armas_cbuf_make leaves between CM-64 and CM-1 bytes after alignment */
  cb.len = CM - 64; cb.data = (void *)4096;
  c01_env.mb = mb; c01_env.nb = nb; c01_env.kb = kb; c01_env.fixed = FIXED; c01_env.cmem = CM; c01_env.l1mem = l1;
#ifdef FIXED1
  armas_cache_setup(&c, &cb, WAYS, p);
#else
  if (WAYS == 3) armas_cache_setup3(&c, &cb, mb, nb, kb, p); else armas_cache_setup2(&c, &cb, mb, nb, kb, p);
#endif
  len = cb.len; data = (size_t)cb.data;
  CHECK(c.MB >= 1 && c.NB >= 1 && c.KB >= 1 && c.rb >= 1, "positive block sizes");
  CHECK(c.MB <= len && c.NB <= len && c.KB <= len && c.ab_step <= len, "block sizes bounded by the buffer");
  CHECK(c.ab_step >= c.KB, "stride holds a column");
  CHECK(c.MB <= c.ab_step && c.NB <= c.ab_step, "square diagonal blocks fit in the stride");
  size_t a = (size_t)c.Acpy, b = (size_t)c.Bcpy, d = (size_t)c.dC;
  CHECK(a >= data && a <= b, "blocks in order");
  CHECK(b - a >= c.MB * c.ab_step * p, "first block does not overlap the second");
  if (WAYS == 3) {
    CHECK(c.c_step >= c.MB, "result stride holds a column");
    CHECK(d >= b && d - b >= c.NB * c.ab_step * p, "second block does not overlap the third");
    CHECK(d + c.NB * c.c_step * p <= data + len, "third block inside the buffer");
  } else CHECK(b + c.NB * c.ab_step * p <= data + len, "second block inside the buffer");
}
