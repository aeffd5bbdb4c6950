/* B03: armas_mult_trm   B04 (-DSOLVE): armas_solve_trm */
#include "mat.h"
void sym_main(void) {
  int cfg = sym_choice(NCFG, "cfg"), alg = sym_choice(3, "alg"), up = sym_choice(2, "upper"), right = sym_choice(2, "right"), tr = sym_choice(2, "trans"), unit = sym_choice(2, "unit"), sc = sym_choice(2, "scalars");
#ifdef SOLVE
  int shp = sym_choice(sym_tier() ? 9 : 6, "shape");
  static const int K[9] = {1,2,3,5,9,10,11,17,18}, O[9] = {1,3,4,2,5,1,9,2,1};
#else
  int shp = sym_choice(sym_tier() ? 11 : 7, "shape");
  static const int K[11] = {1,2,3,5,9,10,17,19,8,25,16}, O[11] = {1,3,4,2,6,11,9,20,17,3,8};
#endif
  int k = K[shp], o = O[shp], m = right ? o : k, n = right ? k : o;
  if (alg && cfg == 2) sym_skip();
  sym_config("maxeq", shp < 3 ? 6 : 1);
  armas_conf_t cf; cm_cfg(&cf, cfg); cf.optflags = alg == 1 ? ARMAS_ONAIVE : alg == 2 ? ARMAS_ORECURSIVE : 0;
  smat A, B;
  sm_tri(&A, "a", k, k, k + (shp & 1), up, unit);
  sm_full(&B, "b", m, n, m + (shp & 1));
  double alpha = sc == 1 ? 1.0 : sym_real("alpha");
  int flags = (up ? ARMAS_UPPER : ARMAS_LOWER) | (right ? ARMAS_RIGHT : ARMAS_LEFT) | (tr ? ARMAS_TRANSA : 0) | (unit ? ARMAS_UNIT : 0);
#ifdef SOLVE
  if (!unit) for (int i = 0; i < k; i++) sym_assume_ne(sm_o(&A, i, i), 0.0);
  int rc = F(solve_trm)(&B.m, alpha, &A.m, flags, &cf);
  sym_check(rc == 0, "return code");
  for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
    double s = 0;
    for (int p = 0; p < k; p++) s += right ? sm_g(&B, i, p) * sm_trio(&A, p, j, up, unit, tr) : sm_trio(&A, i, p, up, unit, tr) * sm_g(&B, p, j);
    sym_eq(s, alpha * sm_o(&B, i, j), "op(A)X=alpha*B [%d,%d]", i, j);
  }
#else
  int rc = F(mult_trm)(&B.m, alpha, &A.m, flags, &cf);
  sym_check(rc == 0, "return code");
  for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
    double s = 0;
    for (int p = 0; p < k; p++) s += right ? sm_o(&B, i, p) * sm_trio(&A, p, j, up, unit, tr) : sm_trio(&A, i, p, up, unit, tr) * sm_o(&B, p, j);
    sym_eq(sm_g(&B, i, j), alpha * s, "B[%d,%d]", i, j);
  }
#endif
  sm_unchanged(&A); sm_confined(&B);
}
