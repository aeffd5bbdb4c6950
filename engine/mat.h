/* Matrix helpers shared by the harnesses. Every operand lives inside a padded buffer whose padding,
 * and every element that must not be referenced, is poison. */
#ifndef SYM_MAT_H
#define SYM_MAT_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "sym.h"
#include "dtype.h"
#include "dlpack.h"
#include "matrix.h"
#include "internal.h"
#include "internal_lapack.h"
#define MAXD 64
/* the same harness checks the plain and the extended precision routines */
#ifdef EXT
#define F(x) armas_ext_##x
#else
#define F(x) armas_##x
#endif
typedef struct smat {
  armas_dense_t m;          /* the view handed to the library */
  double *buf, *orig;       /* whole buffer, and its initial content */
  int n, off;               /* buffer length, offset of first element */
  const char *name;
} smat;
enum { PAD = 24 };
static inline void sm_alloc(smat *s, const char *name, int r, int c, int ld) {
  s->name = name; s->off = PAD; s->n = 2 * PAD + ld * (c > 0 ? c : 1) + r;
  s->buf = (double *)malloc(sizeof(double) * s->n); s->orig = (double *)malloc(sizeof(double) * s->n);
  for (int i = 0; i < s->n; i++) s->buf[i] = sym_poison("%s.pad%d", name, i);
  armas_make(&s->m, r, c, ld, s->buf + s->off);
}
static inline void sm_snap(smat *s) { memcpy(s->orig, s->buf, sizeof(double) * s->n); }
static inline double *sm_p(smat *s, int i, int j) { return &s->buf[s->off + j * s->m.step + i]; }
static inline double sm_o(smat *s, int i, int j) { return s->orig[s->off + j * s->m.step + i]; }
static inline double sm_g(smat *s, int i, int j) { return s->buf[s->off + j * s->m.step + i]; }
/* general matrix of fresh reals */
static inline void sm_full(smat *s, const char *name, int r, int c, int ld) {
  sm_alloc(s, name, r, c, ld);
  for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) *sm_p(s, i, j) = sym_real("%s_%d_%d", name, i, j);
  sm_snap(s);
}
/* matrix which is an output only: content must not matter */
static inline void sm_out(smat *s, const char *name, int r, int c, int ld) { sm_alloc(s, name, r, c, ld); sm_snap(s); }
/* only one triangle holds values; unit: diagonal not to be referenced */
static inline void sm_tri(smat *s, const char *name, int r, int c, int ld, int upper, int unit) {
  sm_alloc(s, name, r, c, ld);
  for (int j = 0; j < c; j++) for (int i = 0; i < r; i++)
    if ((i == j && !unit) || (upper ? i < j : i > j)) *sm_p(s, i, j) = sym_real("%s_%d_%d", name, i, j);
  sm_snap(s);
}
/* vector: orient 0 = column, 1 = row with stride ld */
static inline void sm_vec(smat *s, const char *name, int n, int row, int inc) {
  if (!row) sm_alloc(s, name, n, 1, n + inc); else sm_alloc(s, name, 1, n, inc + 1);
  for (int i = 0; i < n; i++) *(row ? sm_p(s, 0, i) : sm_p(s, i, 0)) = sym_real("%s_%d", name, i);
  sm_snap(s);
}
static inline void sm_vecout(smat *s, const char *name, int n, int row, int inc) {
  if (!row) sm_alloc(s, name, n, 1, n + inc); else sm_alloc(s, name, 1, n, inc + 1); sm_snap(s);
}
static inline double sv_o(smat *s, int i) { return s->m.rows == 1 ? sm_o(s, 0, i) : sm_o(s, i, 0); }
static inline double sv_g(smat *s, int i) { return s->m.rows == 1 ? sm_g(s, 0, i) : sm_g(s, i, 0); }
/* nothing of the operand changed */
static inline void sm_unchanged(smat *s) {
  for (int i = 0; i < s->n; i++) if (!sym_same(s->buf[i], s->orig[i])) {
    if (sym_is_poison(s->orig[i]) || sym_is_poison(s->buf[i])) sym_check(0, "%s: read-only operand or memory outside the operands modified at offset %d", s->name, i - s->off);
    else sym_eq(s->buf[i], s->orig[i], "%s: read-only operand modified at offset %d", s->name, i - s->off); }
}
/* nothing outside the window changed */
static inline void sm_confined(smat *s) {
  for (int i = 0; i < s->n; i++) {
    int k = i - s->off, in = 0;
    if (k >= 0 && s->m.step > 0) { int c = k / s->m.step, r = k % s->m.step; in = c < s->m.cols && r < s->m.rows; }
    if (!in) sym_check(sym_same(s->buf[i], s->orig[i]), "%s: memory outside the operand modified at offset %d", s->name, k);
  }
}
/* blocking configuration: small blocks so that every block boundary occurs at small sizes */
static inline void cf_init(armas_conf_t *cf, int mb, int nb, int kb, int lb) {
  armas_env_t *env = armas_getenv();
  env->mb = mb; env->nb = nb; env->kb = kb; env->lb = lb;
  *cf = *armas_conf_default(); cf->error = 0; cf->optflags = 0;
}
/* the configurations every blocked routine is checked under. Internal block sizes MB,NB,KB: 0: 8,8,8  1: 8,8,24  2: 8,8,8 with one row at a time in L1  3: 4,12,16;
 * lb: lapack block size; blas2min: smallest size handled recursively */
#define NCFG 4
static inline void cm_cfg(armas_conf_t *cf, int which) {
  static const int lb[4] = {4, 3, 2, 5}, b2[4] = {256, 3, 4, 2};
  if (which == 3) cf_init(cf, 64, 192, 256, lb[3]); else cf_init(cf, 64, 64, which == 1 ? 160 : 64, lb[which & 3]);
  armas_env_t *env = armas_getenv(); env->cmem = 4096; env->l1mem = which == 2 ? 256 : 1024; env->blas2min = b2[which & 3]; env->blas1min = 1024;
  armas_cbuf_release_thread_global();
}
/* element of the symmetric matrix stored in one triangle */
static inline double sm_symo(smat *s, int i, int j, int upper) { return (upper ? i <= j : i >= j) ? sm_o(s, i, j) : sm_o(s, j, i); }
/* element of the (transposed) triangular matrix */
static inline double sm_trio(smat *s, int i, int j, int upper, int unit, int trans) {
  if (trans) { int t = i; i = j; j = t; }
  if (i == j) return unit ? 1.0 : sm_o(s, i, j);
  return (upper ? i < j : i > j) ? sm_o(s, i, j) : 0.0;
}
/* output triangle: only the selected triangle may change */
static inline void sm_tri_rest_unchanged(smat *s, int upper) {
  for (int j = 0; j < s->m.cols; j++) for (int i = 0; i < s->m.rows; i++) if (upper ? i > j : i < j)
    sym_check(sym_same(sm_g(s, i, j), sm_o(s, i, j)), "%s[%d,%d]: element of the unselected triangle modified", s->name, i, j);
  sm_confined(s);
}
static inline double sc_pick(int which, const char *name) { return which == 0 ? 0.0 : which == 1 ? 1.0 : sym_real("%s", name); }
#endif
