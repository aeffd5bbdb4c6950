/* B09: armas_mvmult_trm, armas_mvsolve_trm */
#include "mat.h"
void sym_main(void) {
  int solve = sym_choice(2, "solve"), cfg = sym_choice(3, "cfg"), alg = sym_choice(2, "naive"), up = sym_choice(2, "upper"), tr = sym_choice(2, "trans"), unit = sym_choice(2, "unit"), ox = sym_choice(2, "xrow"), sc = sym_choice(2, "scalars");
  int n = 1 + sym_choice(sym_tier() ? 14 : 8, "n");
  armas_conf_t cf; cm_cfg(&cf, cfg); cf.optflags = alg ? ARMAS_ONAIVE : 0;
  if (cfg == 0 && n > 10) sym_skip();
  sym_config("maxeq", 1);
  smat A, X;
  double alpha = sc ? 1.0 : sym_real("alpha");
  int flags = (up ? ARMAS_UPPER : ARMAS_LOWER) | (tr ? ARMAS_TRANS : 0) | (unit ? ARMAS_UNIT : 0);
  sm_tri(&A, "a", n, n, n + (n & 1), up, unit); sm_vec(&X, "x", n, ox, 2);
  if (solve && !unit) for (int i = 0; i < n; i++) sym_assume_ne(sm_o(&A, i, i), 0.0);
  int rc = solve ? F(mvsolve_trm)(&X.m, alpha, &A.m, flags, &cf) : F(mvmult_trm)(&X.m, alpha, &A.m, flags, &cf);
  sym_check(rc == 0, "return code");
  for (int i = 0; i < n; i++) { double s = 0;
    for (int j = 0; j < n; j++) s += sm_trio(&A, i, j, up, unit, tr) * (solve ? sv_g(&X, j) : sv_o(&X, j));
    if (solve) sym_eq(s, alpha * sv_o(&X, i), "op(A)x=alpha*b [%d]", i); else sym_eq(sv_g(&X, i), alpha * s, "x[%d]", i); }
  sm_unchanged(&A); sm_confined(&X);
}
