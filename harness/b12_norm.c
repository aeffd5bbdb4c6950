/* B12: armas_mnorm */
#include "mat.h"
void sym_main(void) {
  int which = sym_choice(4, "norm"), shp = sym_choice(sym_tier() ? 11 : 8, "shape");
  static const int M[11] = {1,1,3,2,2,3,3,5,4,6,5}, N[11] = {1,3,1,2,3,2,3,2,4,4,1};
  static const int W[4] = {ARMAS_NORM_ONE, ARMAS_NORM_TWO, ARMAS_NORM_INF, ARMAS_NORM_FRB};
  int m = M[shp], n = N[shp], vec = m == 1 || n == 1;
  if (W[which] == ARMAS_NORM_TWO && !vec) sym_skip();
  if (W[which] >= ARMAS_NORM_INF && m * n > 12) sym_skip();
  if ((W[which] == ARMAS_NORM_FRB || W[which] == ARMAS_NORM_TWO) && m * n > (sym_tier() ? 9 : 6)) sym_skip();
  armas_conf_t cf; cm_cfg(&cf, 0);
  sym_config("absfork", 0);
  smat A; sm_full(&A, "a", m, n, m + 1);
  double v = armas_mnorm(&A.m, W[which], &cf); sym_check(cf.error == 0, "no error");
  sym_le(0.0, v, "norm >= 0");
  if (W[which] == ARMAS_NORM_TWO || W[which] == ARMAS_NORM_FRB) { double s = 0; for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) s += sm_o(&A, i, j) * sm_o(&A, i, j); sym_eq(v * v, s, "norm^2 == sum of squares"); }
  else if (vec && W[which] == ARMAS_NORM_ONE) { double s = 0; for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) s += __builtin_fabs(sm_o(&A, i, j)); sym_eq(v, s, "norm == sum |x|"); }
  else {
    /* v is an upper bound of all the sums, and one of them */
    int rows = W[which] == ARMAS_NORM_INF, cnt = vec ? m * n : rows ? m : n, eqs = 0; double prod = 1.0; (void)eqs;
    for (int k = 0; k < cnt; k++) { double s = 0;
      if (vec) s = __builtin_fabs(sm_o(&A, m == 1 ? 0 : k, m == 1 ? k : 0)); else if (rows) for (int j = 0; j < n; j++) s += __builtin_fabs(sm_o(&A, k, j)); else for (int i = 0; i < m; i++) s += __builtin_fabs(sm_o(&A, i, k));
      sym_le(s, v, "sum %d <= norm", k); prod *= v - s; }
    sym_eq(prod, 0.0, "norm is one of the sums");
  }
  sm_unchanged(&A);
}
