/* B06: armas_update_trm, armas_mvupdate_trm */
#include "mat.h"
void sym_main(void) {
  int mv = sym_choice(2, "mv"), cfg = sym_choice(NCFG, "cfg"), alg = sym_choice(3, "alg"), up = sym_choice(2, "upper"), tr = sym_choice(4, "trans"), sc = sym_choice(4, "scalars");
  int shp = sym_choice(sym_tier() ? 16 : 12, "shape");
  static const int M[16] = {1,2,3,2,5,4,9,10,11,6,5,7,17,5,19,18}, N[16] = {1,2,3,5,2,7,9,4,6,11,8,3,17,19,6,13}, K[16] = {1,2,2,3,1,2,3,5,2,2,2,2,3,2,9,2};
  int m = M[shp], n = N[shp], k = K[shp], ta = tr & 1, tb = tr >> 1;
  if (alg && cfg == 2) sym_skip();
  armas_conf_t cf; cm_cfg(&cf, cfg); cf.optflags = alg == 1 ? ARMAS_ONAIVE : alg == 2 ? ARMAS_ORECURSIVE : 0;
  smat A, B, C;
  double beta = sc_pick(sc, "beta"), alpha = sc == 3 ? -1.0 : sym_real("alpha");
  if (sc == 0) sm_out(&C, "c", m, n, m + 1); else sm_tri(&C, "c", m, n, m + (shp & 1), up, 0);
  int rc;
  if (mv) {
    sm_vec(&A, "x", m, ta, 2); sm_vec(&B, "y", n, tb, 2);
    rc = F(mvupdate_trm)(beta, &C.m, alpha, &A.m, &B.m, up ? ARMAS_UPPER : ARMAS_LOWER, &cf);
  } else {
    sm_full(&A, "a", ta ? k : m, ta ? m : k, (ta ? k : m) + (shp & 1));
    sm_full(&B, "b", tb ? n : k, tb ? k : n, (tb ? n : k) + 2);
    rc = F(update_trm)(beta, &C.m, alpha, &A.m, &B.m, (up ? ARMAS_UPPER : ARMAS_LOWER) | (ta ? ARMAS_TRANSA : 0) | (tb ? ARMAS_TRANSB : 0), &cf);
  }
  sym_check(rc == 0, "return code");
  for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (up ? i <= j : i >= j) {
    double s = 0;
    if (mv) s = sv_o(&A, i) * sv_o(&B, j);
    else for (int p = 0; p < k; p++) s += (ta ? sm_o(&A, p, i) : sm_o(&A, i, p)) * (tb ? sm_o(&B, j, p) : sm_o(&B, p, j));
    double e = alpha * s; if (sc != 0) e += beta * sm_o(&C, i, j);
    sym_eq(sm_g(&C, i, j), e, "C[%d,%d]", i, j);
  }
  sm_unchanged(&A); sm_unchanged(&B); sm_tri_rest_unchanged(&C, up);
}
