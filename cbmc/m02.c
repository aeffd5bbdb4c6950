/* M02: non-conforming operands are rejected. -DCALL=... -DOK=... ; operands have symbolic sizes and no element memory, so any element access is a fault */
#include "bmc.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <math.h>
#include "dtype.h"
#include "dlpack.h"
#include "matrix.h"
#include "internal.h"
#include "internal_lapack.h"
#include "sparse.h"
#ifdef __CPROVER
static armas_env_t h_env; static armas_conf_t h_conf;
armas_env_t *armas_getenv(void) { return &h_env; }
armas_conf_t *armas_conf_default(void) { return &h_conf; }
#include SRC
#endif
#ifndef MAXD
#define MAXD 1000
#endif
static void dim(armas_dense_t *m) { int r = nd_in(1, MAXD), c = nd_in(1, MAXD), s = nd_in(1, 2 * MAXD); ASSUME(s >= r); armas_make(m, r, c, s, (DTYPE *)0); }
#define VEC(v) ((v)->rows == 1 || (v)->cols == 1)
#define LEN(v) ((v)->rows * (v)->cols)
#define ARMAS_T(f) ((f & ARMAS_TRANS) != 0)
#define IMIN(a, b) ((a) < (b) ? (a) : (b))
void bmc_main(void) {
  static armas_conf_t cf; static armas_dense_t A, B, C, D; armas_pivot_t P; armas_pivot_t *p = &P; DTYPE res = 0;
  dim(&A); dim(&B); dim(&C); armas_make(&D, 1, 1, 1, (DTYPE *)0); P.npivots = nd_in(1, MAXD); P.indexes = (void *)0; P.owner = 0;
#ifdef NOPIV
  p = ARMAS_NOPIVOT;
#endif
  long fl = nd_in(0, 0x7fffff); DTYPE al = (DTYPE)nd_in(-2, 2), be = (DTYPE)nd_in(-2, 2); (void)al; (void)be; int flags = (int)fl & (FLAGS); int k = nd_in(1, MAXD);
  memset(&cf, 0, sizeof cf); cf.optflags = 0; cf.work = 0; cf.accel = 0;
  armas_env_t *env = armas_getenv();
  env->mb = nd_in(1, 200); env->nb = nd_in(1, 200); env->kb = nd_in(1, 200); env->lb = nd_in(0, 100); env->blas1min = 1024; env->blas2min = nd_in(0, 300); env->cmem = 262144;
  ASSUME(!(OK));
  armas_conf_t *c = &cf;
  long rc = CALL; (void)rc; (void)res; (void)k; (void)flags; (void)p;
  CHECK(rc < 0, "non-conforming operands are rejected");
  CHECK(cf.error != 0, "error code is set");
}
