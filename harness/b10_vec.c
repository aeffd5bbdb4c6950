/* B10: vector operations */
#include "mat.h"
extern int armas_iamin(const armas_dense_t *X, armas_conf_t *cf);
void sym_main(void) {
  int op = sym_choice(11, "op"), ox = sym_choice(2, "xrow"), oy = sym_choice(2, "yrow"), alg = sym_choice(4, "alg"), n = sym_choice(sym_tier() ? 20 : 14, "n"), b1 = sym_choice(2, "recursive");
  armas_conf_t cf; cm_cfg(&cf, 0); armas_getenv()->blas1min = b1 ? 4 : 1024;
  static const int opt[4] = {0, ARMAS_ONAIVE, ARMAS_OKAHAN, ARMAS_ORECURSIVE};
  cf.optflags = opt[alg];
  smat X, Y; double alpha, beta, v;
  int two = op == 0 || op == 1 || (op >= 5 && op <= 6) || op == 9 || op == 10;
  if (!two && oy) sym_skip();
  if ((op == 2 || op >= 4) && (alg || b1)) sym_skip();
  if ((op == 2 || op == 4 || op == 7) && n == 0) sym_skip();
  if (op == 4 && n > 5) sym_skip();
  if ((op == 2 || op == 7) && n > (sym_tier() ? 10 : 8)) sym_skip();
  /* the 0-length vector: 0-by-1 column or 1-by-0 row */
  sm_vec(&X, "x", n, ox, 2);
  if (two) sm_vec(&Y, "y", n, oy, 3);
  int rc = 0;
  switch (op) {
  case 0: v = armas_dot(&X.m, &Y.m, &cf); { double s = 0; for (int i = 0; i < n; i++) s += sv_o(&X, i) * sv_o(&Y, i); sym_eq(v, s, "dot"); } sm_unchanged(&X); sm_unchanged(&Y); break;
  case 1: alpha = sym_real("alpha"); v = beta = sym_real("beta"); rc = armas_adot(&v, alpha, &X.m, &Y.m, &cf);
    { double s = 0; for (int i = 0; i < n; i++) s += sv_o(&X, i) * sv_o(&Y, i); sym_eq(v, beta + alpha * s, "adot"); } sm_unchanged(&X); sm_unchanged(&Y); break;
  case 2: { int k = armas_iamin(&X.m, &cf); sym_check(k >= 0 && k < n, "iamin in range");
    double am = k >= 0 && k < n ? __builtin_fabs(sv_o(&X, k)) : 0; for (int i = 0; i < n; i++) { double a = sv_o(&X, i); a = __builtin_fabs(a); sym_le(am, a, "|x[%d]| >= |x[iamin]|", i); } sm_unchanged(&X); break; }
  case 3: v = armas_asum(&X.m, &cf); { double s = 0; for (int i = 0; i < n; i++) { double a = sv_o(&X, i); s += __builtin_fabs(a); } sym_eq(v, s, "asum"); } sm_unchanged(&X); break;
  case 4: v = armas_nrm2(&X.m, &cf); { double s = 0; for (int i = 0; i < n; i++) s += sv_o(&X, i) * sv_o(&X, i); sym_eq(v * v, s, "nrm2^2"); sym_le(0.0, v, "nrm2 >= 0"); } sm_unchanged(&X); break;
  case 5: alpha = sym_real("alpha"); rc = armas_axpy(&Y.m, alpha, &X.m, &cf); for (int i = 0; i < n; i++) sym_eq(sv_g(&Y, i), sv_o(&Y, i) + alpha * sv_o(&X, i), "axpy[%d]", i); sm_unchanged(&X); sm_confined(&Y); break;
  case 6: alpha = sym_real("alpha"); beta = sym_real("beta"); rc = armas_axpby(beta, &Y.m, alpha, &X.m, &cf); for (int i = 0; i < n; i++) sym_eq(sv_g(&Y, i), beta * sv_o(&Y, i) + alpha * sv_o(&X, i), "axpby[%d]", i); sm_unchanged(&X); sm_confined(&Y); break;
  case 7: { int k = armas_iamax(&X.m, &cf); sym_check(k >= 0 && k < n, "iamax in range");
    double am = k >= 0 && k < n ? __builtin_fabs(sv_o(&X, k)) : 0; for (int i = 0; i < n; i++) { double a = sv_o(&X, i); a = __builtin_fabs(a); sym_le(a, am, "|x[%d]| <= |x[iamax]|", i); if (i < k) sym_lt(a, am, "iamax is the first maximum (%d)", i); }
    sym_eq(armas_amax(&X.m, &cf), am, "amax"); sm_unchanged(&X); break; }
  case 8: alpha = sym_real("alpha"); rc = (oy = 0, armas_scale(&X.m, alpha, &cf)); for (int i = 0; i < n; i++) sym_eq(sv_g(&X, i), alpha * sv_o(&X, i), "scale[%d]", i); sm_confined(&X); break;
  case 9: rc = armas_copy(&Y.m, &X.m, &cf); for (int i = 0; i < n; i++) sym_eq(sv_g(&Y, i), sv_o(&X, i), "copy[%d]", i); sm_unchanged(&X); sm_confined(&Y); break;
  case 10: rc = armas_swap(&Y.m, &X.m, &cf); for (int i = 0; i < n; i++) { sym_eq(sv_g(&Y, i), sv_o(&X, i), "swap y[%d]", i); sym_eq(sv_g(&X, i), sv_o(&Y, i), "swap x[%d]", i); } sm_confined(&X); sm_confined(&Y); break;
  }
  sym_check(rc == 0, "return code");
}
