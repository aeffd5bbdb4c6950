/* B01: armas_mult */
#include "mat.h"
static double opv(smat *s, int i, int j, int trans, int absf) {
  double v = trans ? sm_o(s, j, i) : sm_o(s, i, j);
  return absf ? fabs(v) : v;
}
void sym_main(void) {
  int cfg = sym_choice(NCFG, "cfg"), opt = sym_choice(2, "opt");
  int tr = sym_choice(4, "trans"), ct = sym_choice(2, "conj"), ab = sym_choice(2, "abs"), sc = sym_choice(4, "scalars");
  int shp = sym_choice(sym_tier() ? 14 : 9, "shape");
  if (ct && (tr == 0 || opt || ab)) sym_skip();
  static const int M[14] = {1,2,3,5,9,4,10,7,8,17,16,11,6,25}, N[14] = {1,3,2,7,6,9,11,1,9,10,17,13,26,3}, K[14] = {1,2,5,3,9,7,10,9,17,8,9,25,12,33};
  int m = M[shp], n = N[shp], k = K[shp];
  armas_conf_t cf; cm_cfg(&cf, cfg);
  cf.optflags = opt ? ARMAS_CBUF_LOCAL : 0;
  smat A, B, C; int ta = tr & 1, tb = tr >> 1;
  sm_full(&A, "a", ta ? k : m, ta ? m : k, (ta ? k : m) + (shp & 1));
  sm_full(&B, "b", tb ? n : k, tb ? k : n, (tb ? n : k) + 2 * (shp & 1));
  double beta = sc_pick(sc, "beta"), alpha = sc == 3 ? -1.0 : sym_real("alpha");
  if (sc == 0) sm_out(&C, "c", m, n, m + 1); else sm_full(&C, "c", m, n, m + (shp & 1));
  int flags = (ta ? ct ? ARMAS_CTRANSA : ARMAS_TRANSA : 0) | (tb ? ct && tr != 3 ? ARMAS_CTRANSB : ARMAS_TRANSB : 0) | (ab ? ARMAS_ABSA|ARMAS_ABSB : 0);
  int rc = F(mult)(beta, &C.m, alpha, &A.m, &B.m, flags, &cf);
  sym_check(rc == 0, "return code");
  for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
    double s = 0; for (int p = 0; p < k; p++) s += opv(&A, i, p, ta, ab) * opv(&B, p, j, tb, ab);
    double e = alpha * s; if (sc != 0) e += beta * sm_o(&C, i, j);
    sym_eq(sm_g(&C, i, j), e, "C[%d,%d]", i, j);
  }
  sm_unchanged(&A); sm_unchanged(&B); sm_confined(&C);
}
