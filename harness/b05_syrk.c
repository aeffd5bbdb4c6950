/* B05: armas_update_sym (rank k) and armas_update2_sym (rank 2k) */
#include "mat.h"
void sym_main(void) {
  int r2 = sym_choice(2, "rank2"), cfg = sym_choice(NCFG, "cfg"), alg = sym_choice(3, "alg"), up = sym_choice(2, "upper"), tr = sym_choice(2, "trans"), sc = sym_choice(4, "scalars");
  int shp = sym_choice(sym_tier() ? 11 : 8, "shape");
  static const int N[11] = {1,2,3,4,5,9,10,11,17,19,26}, K[11] = {1,2,3,1,5,2,11,3,4,9,3};
  int n = N[shp], k = K[shp];
  if (alg && cfg == 2) sym_skip();
  armas_conf_t cf; cm_cfg(&cf, cfg); cf.optflags = alg == 1 ? ARMAS_ONAIVE : alg == 2 ? ARMAS_ORECURSIVE : 0;
  smat A, B, C;
  sm_full(&A, "a", tr ? k : n, tr ? n : k, (tr ? k : n) + (shp & 1));
  if (r2) sm_full(&B, "b", tr ? k : n, tr ? n : k, (tr ? k : n) + 2);
  double beta = sc_pick(sc, "beta"), alpha = sc == 3 ? -1.0 : sym_real("alpha");
  if (sc == 0) sm_out(&C, "c", n, n, n + 1); else sm_tri(&C, "c", n, n, n + (shp & 1), up, 0);
  int flags = (up ? ARMAS_UPPER : ARMAS_LOWER) | (tr ? ARMAS_TRANS : 0);
  int rc = r2 ? armas_update2_sym(beta, &C.m, alpha, &A.m, &B.m, flags, &cf) : armas_update_sym(beta, &C.m, alpha, &A.m, flags, &cf);
  sym_check(rc == 0, "return code");
  for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (up ? i <= j : i >= j) {
    double s = 0;
    for (int p = 0; p < k; p++) {
      double ai = tr ? sm_o(&A, p, i) : sm_o(&A, i, p), aj = tr ? sm_o(&A, p, j) : sm_o(&A, j, p);
      if (r2) { double bi = tr ? sm_o(&B, p, i) : sm_o(&B, i, p), bj = tr ? sm_o(&B, p, j) : sm_o(&B, j, p); s += ai * bj + bi * aj; }
      else s += ai * aj;
    }
    double e = alpha * s; if (sc != 0) e += beta * sm_o(&C, i, j);
    sym_eq(sm_g(&C, i, j), e, "C[%d,%d]", i, j);
  }
  sm_unchanged(&A); if (r2) sm_unchanged(&B); sm_tri_rest_unchanged(&C, up);
}
