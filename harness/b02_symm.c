/* B02: armas_mult_sym */
#include "mat.h"
void sym_main(void) {
  int cfg = sym_choice(NCFG, "cfg"), up = sym_choice(2, "upper"), right = sym_choice(2, "right"), tb = sym_choice(2, "transb"), sc = sym_choice(4, "scalars");
  int shp = sym_choice(sym_tier() ? 12 : 8, "shape");
  static const int M[12] = {1,2,3,5,9,4,10,17,18,7,25,16}, N[12] = {1,3,2,9,6,11,10,3,19,26,4,17};
  int m = M[shp], n = N[shp], k = right ? n : m;
  armas_conf_t cf; cm_cfg(&cf, cfg);
  if (cfg == 2) cf.optflags = ARMAS_CBUF_LOCAL;
  smat A, B, C;
  sm_tri(&A, "a", k, k, k + (shp & 1), up, 0);
  sm_full(&B, "b", tb ? n : m, tb ? m : n, (tb ? n : m) + (shp & 1));
  double beta = sc_pick(sc, "beta"), alpha = sc == 3 ? -1.0 : sym_real("alpha");
  if (sc == 0) sm_out(&C, "c", m, n, m + 1); else sm_full(&C, "c", m, n, m + (shp & 1));
  int rc = F(mult_sym)(beta, &C.m, alpha, &A.m, &B.m, (up ? ARMAS_UPPER : ARMAS_LOWER) | (right ? ARMAS_RIGHT : ARMAS_LEFT) | (tb ? ARMAS_TRANSB : 0), &cf);
  sym_check(rc == 0, "return code");
  for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
    double s = 0;
    for (int p = 0; p < k; p++) {
      double b = right ? (tb ? sm_o(&B, p, i) : sm_o(&B, i, p)) : (tb ? sm_o(&B, j, p) : sm_o(&B, p, j));
      s += right ? b * sm_symo(&A, p, j, up) : sm_symo(&A, i, p, up) * b;
    }
    double e = alpha * s; if (sc != 0) e += beta * sm_o(&C, i, j);
    sym_eq(sm_g(&C, i, j), e, "C[%d,%d]", i, j);
  }
  sm_unchanged(&A); sm_unchanged(&B); sm_confined(&C);
}
