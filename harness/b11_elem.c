/* B11: element-wise matrix operations */
#include "mat.h"
static double VT[32][32], K1, K2, SEEN[1024]; static int ns, stopat; static double GEN[1024]; static int ng;
static double op1(double x) { return K1 * x + K2; }
static double op2(double x, void *p) { return K1 * x + *(double *)p; }
static int iter(double x, void *p) { (void)p; SEEN[ns++] = x; return ns == stopat ? -1 : 0; }
static double val(int i, int j) { return VT[i][j]; }
static double gen(void) { return GEN[ng++]; }
static int insel(int i, int j, int sel, int unit) { if (i == j && unit) return 0; return sel == 0 ? 1 : sel == 1 ? i <= j : i >= j; }
void sym_main(void) {
  int op = sym_choice(11, "op"), sel = sym_choice(4, "select"), unit = sym_choice(2, "unit"), tr = sym_choice(2, "trans"), ab = sym_choice(2, "abs"), shp = sym_choice(sym_tier() ? 17 : 13, "shape");
  static const int M[17] = {1,2,2,3,3,4,5,4,6,7,3,9,5,1,10,8,12}, N[17] = {1,2,3,2,5,4,5,7,3,7,8,4,9,6,11,15,5};
  int m = M[shp], n = N[shp];
  int isv = m == 1 || n == 1;
  /* meaningful combinations only */
  if (tr && op != 0 && op != 3) sym_skip();
  if (tr && sel) sym_skip();
  if (ab && op != 3) sym_skip();
  if (sel && (op == 0 || op == 1 || op == 11)) sym_skip();
  if (sel == 3 && op != 7 && op != 8) sym_skip();
  if (sel == 3 && m != n) sym_skip();
  if (unit && (sel == 0 || !(op == 2 || op == 4 || op == 7 || op == 8 || op == 9))) sym_skip();
  if (isv && sel && (op == 4 || op == 3)) sym_skip();   /* vectors: flags not meaningful */
  if (isv && op == 3 && ab) sym_skip();
  if (op == 9 && sel == 0) sym_skip();
  armas_conf_t cf; cm_cfg(&cf, 0);
  smat A, B; int rc = 0, f = (sel == 1 ? ARMAS_UPPER : sel == 2 ? ARMAS_LOWER : sel == 3 ? ARMAS_SYMM : 0) | (unit ? ARMAS_UNIT : 0) | (tr ? ARMAS_TRANS : 0) | (ab ? ARMAS_ABS : 0);
  double alpha = sym_real("alpha"), beta = sym_real("beta"); K1 = sym_real("k1"); K2 = sym_real("k2"); ns = ng = 0; stopat = -1;
  int out_only = op == 0 || op == 1 || op == 7 || op == 8;
  if (out_only) sm_out(&A, "a", m, n, m + (shp & 1)); else sm_full(&A, "a", m, n, m + (shp & 1));
  if (op == 0 || op == 3) sm_full(&B, "b", tr ? n : m, tr ? m : n, (tr ? n : m) + 2);
  if (op == 1) sm_full(&B, "b", m, n, m + 2);
  if (op == 7) for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) VT[i][j] = sym_real("v_%d_%d", i, j);
  if (op == 8) for (int i = 0; i < m * n; i++) GEN[i] = sym_real("g_%d", i);
#define EACH for (int j = 0; j < n; j++) for (int i = 0; i < m; i++)
#define IN (insel(i, j, sel, unit))
  switch (op) {
  case 0: rc = armas_mcopy(&A.m, &B.m, f, &cf); EACH sym_eq(sm_g(&A, i, j), tr ? sm_o(&B, j, i) : sm_o(&B, i, j), "copy[%d,%d]", i, j); sm_unchanged(&B); break;
  case 1: { armas_dense_t *c = armas_newcopy(&B.m); sym_check(c != 0 && c->rows == m && c->cols == n, "newcopy size"); EACH sym_eq(armas_get_unsafe(c, i, j), sm_o(&B, i, j), "newcopy[%d,%d]", i, j); armas_free(c); sm_unchanged(&B); break; }
  case 2: rc = armas_mscale(&A.m, alpha, f, &cf); EACH sym_eq(sm_g(&A, i, j), IN ? alpha * sm_o(&A, i, j) : sm_o(&A, i, j), "scale[%d,%d]", i, j); break;
  case 3: rc = armas_mplus(alpha, &A.m, beta, &B.m, f, &cf);
    EACH { double a = sm_o(&A, i, j), b = tr ? sm_o(&B, j, i) : sm_o(&B, i, j); if (m == 1 && n == 1) { sym_eq(sm_g(&A, i, j), a + beta * b, "plus constant"); continue; }
      double e = ab ? alpha * __builtin_fabs(a) + beta * __builtin_fabs(b) : alpha * a + beta * b; sym_eq(sm_g(&A, i, j), IN ? e : a, "plus[%d,%d]", i, j); } sm_unchanged(&B); break;
  case 4: rc = armas_madd(&A.m, alpha, f, &cf); EACH sym_eq(sm_g(&A, i, j), IN ? alpha + sm_o(&A, i, j) : sm_o(&A, i, j), "add[%d,%d]", i, j); break;
  case 5: rc = armas_apply(&A.m, op1, f); EACH sym_eq(sm_g(&A, i, j), IN ? K1 * sm_o(&A, i, j) + K2 : sm_o(&A, i, j), "apply[%d,%d]", i, j); break;
  case 6: rc = armas_apply2(&A.m, op2, &alpha, f); EACH sym_eq(sm_g(&A, i, j), IN ? K1 * sm_o(&A, i, j) + alpha : sm_o(&A, i, j), "apply2[%d,%d]", i, j); break;
  case 7: rc = armas_set_values(&A.m, val, f);
    EACH { if (sel == 3) { double e = i == j ? (unit ? 1.0 : VT[i][i]) : i > j ? VT[i][j] : VT[j][i]; sym_eq(sm_g(&A, i, j), e, "set[%d,%d]", i, j); }
      else if (IN) sym_eq(sm_g(&A, i, j), VT[i][j], "set[%d,%d]", i, j); else sym_check(sym_same(sm_g(&A, i, j), sm_o(&A, i, j)), "set: unselected [%d,%d] changed", i, j); } break;
  case 8: { int used[1024] = {0}, cnt = 0; rc = armas_set_all(&A.m, gen, f);
    EACH { if (sel == 3 && i < j) { sym_eq(sm_g(&A, i, j), sm_g(&A, j, i), "set_all symmetric [%d,%d]", i, j); continue; }
      if (sel == 3 && i == j && unit) { sym_eq(sm_g(&A, i, j), 1.0, "set_all unit"); continue; }
      if (sel == 3 || IN) { cnt++; int k = -1; for (int q = 0; q < m * n; q++) if (sym_same(sm_g(&A, i, j), GEN[q])) { k = q; break; } sym_check(k >= 0 && (!used[k]), "set_all[%d,%d] is a fresh generated value", i, j); if (k >= 0) used[k] = 1; }
      else sym_check(sym_same(sm_g(&A, i, j), sm_o(&A, i, j)), "set_all: unselected [%d,%d] changed", i, j); }
    sym_check(ng == cnt, "generator called once per element"); break; }
  case 9: armas_make_trm(&A.m, f); EACH { int in = sel == 1 ? i <= j : i >= j; sym_eq(sm_g(&A, i, j), i == j && unit ? 1.0 : in ? sm_o(&A, i, j) : 0.0, "make_trm[%d,%d]", i, j); } break;
  case 10: { int cnt = 0; EACH if (IN) cnt++; int used[1024] = {0};
    rc = armas_iterate(&A.m, iter, 0, f); sym_check(ns == cnt, "iterate visits every selected element once");
    EACH if (IN) { int k = -1; for (int q = 0; q < ns; q++) if (sym_same(SEEN[q], sm_o(&A, i, j))) { k = q; break; } sym_check(k >= 0 && !used[k], "iterate visits [%d,%d]", i, j); if (k >= 0) used[k] = 1; }
    sm_unchanged(&A); ns = 0; stopat = 1 + cnt / 2; int r2 = armas_iterate(&A.m, iter, 0, f); sym_check(r2 < 0 && ns == stopat, "iteration stops on request"); break; }
  }
  sym_check(rc == 0, "return code"); sm_confined(&A);
}
