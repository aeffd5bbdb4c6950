/* B07: armas_mvmult, armas_mvupdate   B08: armas_mvmult_sym, armas_mvupdate_sym, armas_mvupdate2_sym (-DSYM) */
#include "mat.h"
void sym_main(void) {
  int op = sym_choice(
#ifdef SYM
    3
#else
    2
#endif
    , "op"), cfg = sym_choice(3, "cfg"), alg = sym_choice(2, "naive"), fl = sym_choice(2, "flag"), ox = sym_choice(2, "xrow"), oy = sym_choice(2, "yrow"), sc = sym_choice(4, "scalars");
  int shp = sym_choice(sym_tier() ? 14 : 9, "shape");
#ifdef SYM
  static const int M[14] = {1,2,3,4,5,6,7,8,10,12,13,16,17,21}; const int *N = M;
  static const armas_conf_t *dummy; (void)dummy;
#else
  static const int M[14] = {1,1,3,2,5,4,7,9,6,12,5,17,3,16}, N[14] = {1,4,1,3,4,7,5,3,10,9,15,6,19,16};
#endif
  int m = M[shp], n = N[shp];
  armas_conf_t cf; cm_cfg(&cf, cfg); cf.optflags = alg ? ARMAS_ONAIVE : 0;
  smat A, X, Y;
  double beta = sc_pick(sc, "beta"), alpha = sc == 3 ? -1.0 : sym_real("alpha");
  int lda = m + (shp & 1);
#ifdef SYM
  int up = fl, flags = up ? ARMAS_UPPER : ARMAS_LOWER, rc;
  if (op == 0) {
    sm_tri(&A, "a", n, n, lda, up, 0); sm_vec(&X, "x", n, ox, 2);
    if (sc == 0) sm_vecout(&Y, "y", n, oy, 3); else sm_vec(&Y, "y", n, oy, 3);
    rc = F(mvmult_sym)(beta, &Y.m, alpha, &A.m, &X.m, flags, &cf);
    for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) s += sm_symo(&A, i, j, up) * sv_o(&X, j);
      double e = alpha * s; if (sc) e += beta * sv_o(&Y, i); sym_eq(sv_g(&Y, i), e, "y[%d]", i); }
    sm_unchanged(&A); sm_unchanged(&X); sm_confined(&Y);
  } else {
    if (sc == 0) beta = 1.0;
    sm_tri(&A, "a", n, n, lda, up, 0);
    sm_vec(&X, "x", n, ox, 2); sm_vec(&Y, "y", n, oy, 3);
    rc = op == 1 ? F(mvupdate_sym)(beta, &A.m, alpha, &X.m, flags, &cf) : F(mvupdate2_sym)(beta, &A.m, alpha, &X.m, &Y.m, flags, &cf);
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (up ? i <= j : i >= j) {
      double s = op == 1 ? sv_o(&X, i) * sv_o(&X, j) : sv_o(&X, i) * sv_o(&Y, j) + sv_o(&Y, i) * sv_o(&X, j);
      sym_eq(sm_g(&A, i, j), beta * sm_o(&A, i, j) + alpha * s, "A[%d,%d]", i, j); }
    sm_tri_rest_unchanged(&A, up); sm_unchanged(&X); sm_unchanged(&Y);
  }
#else
  int rc, tr = fl;
  if (op == 0) {
    sm_full(&A, "a", m, n, lda); sm_vec(&X, "x", tr ? m : n, ox, 2);
    if (sc == 0) sm_vecout(&Y, "y", tr ? n : m, oy, 3); else sm_vec(&Y, "y", tr ? n : m, oy, 3);
    rc = F(mvmult)(beta, &Y.m, alpha, &A.m, &X.m, tr ? ARMAS_TRANS : 0, &cf);
    for (int i = 0; i < (tr ? n : m); i++) { double s = 0; for (int j = 0; j < (tr ? m : n); j++) s += (tr ? sm_o(&A, j, i) : sm_o(&A, i, j)) * sv_o(&X, j);
      double e = alpha * s; if (sc) e += beta * sv_o(&Y, i); sym_eq(sv_g(&Y, i), e, "y[%d]", i); }
    sm_unchanged(&A); sm_unchanged(&X); sm_confined(&Y);
  } else {
    if (fl) sym_skip();
    if (sc == 0) beta = 1.0;
    sm_full(&A, "a", m, n, lda); sm_vec(&X, "x", m, ox, 2); sm_vec(&Y, "y", n, oy, 3);
    rc = F(mvupdate)(beta, &A.m, alpha, &X.m, &Y.m, &cf);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) sym_eq(sm_g(&A, i, j), beta * sm_o(&A, i, j) + alpha * (sv_o(&X, i) * sv_o(&Y, j)), "A[%d,%d]", i, j);
    sm_confined(&A); sm_unchanged(&X); sm_unchanged(&Y);
  }
#endif
  sym_check(rc == 0, "return code");
}
