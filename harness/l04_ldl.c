/* L04: armas_ldlfactor, armas_ldlsolve */
#include "lap.h"
#ifdef WS
#include "ws.h"
#endif
/* unit triangular factor element (stored) */
static double tf(smat *A, int i, int j, int up, int g) { if (i == j) return 1.0; if (up ? i > j : i < j) return 0.0; return g ? sm_g(A, i, j) : sm_o(A, i, j); }
static int pv_sym(armas_pivot_t *P, int n, int up, int *perm) {
  if (!up) return pv_perm(P, n, n, perm);
  for (int i = 0; i < n; i++) perm[i] = i;
  for (int i = n - 1; i >= 0; i--) { int p = P->indexes[i] - 1; if (p < 0 || p > i) return 0; int t = perm[i]; perm[i] = perm[p]; perm[p] = t; }
  return 1;
}
static void spec(smat *A, int n, int up, int *perm) {
  for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { double s = 0;
    for (int p = 0; p < n; p++) s += tf(A, i, p, up, 1) * sm_g(A, p, p) * tf(A, j, p, up, 1);
    sym_eq(s, sm_symo(A, perm[i], perm[j], up), "L*D*L^T=P*A*P^T [%d,%d]", i, j); }
  sm_tri_rest_unchanged(A, up);
}
void sym_main(void) {
  int mode = sym_choice(4, "mode"), cfg = sym_choice(3, "cfg"), up = sym_choice(2, "upper"), fl = up ? ARMAS_UPPER : ARMAS_LOWER;
  static const int LB[3] = {0, 2, 3}; int perm[16]; for (int i = 0; i < 16; i++) perm[i] = i;
  if (mode < 2) {
    int n = sym_choice(sym_tier() ? 10 : 8, "n") + 1, lay = mode ? sym_choice(3, "layout") : 0;
    armas_conf_t cf; cm_cfg(&cf, 0); armas_getenv()->lb = LB[cfg]; sym_config("norm", 1); sym_config("maxeq", 0);
    smat A; sm_alloc(&A, "a", n, n, n + (n & 1)); double T[12][12], D[12]; int o[12];
    for (int i = 0; i < n; i++) o[i] = lay == 0 ? i : lay == 1 ? n - 1 - i : (i + n / 2) % n;
    for (int i = 0; i < n; i++) { if (!mode) { D[i] = sym_real("d_%d", i); sym_assume_ne(D[i], 0.0); } else D[i] = (i % 3 == 1 ? -1.0 : 1.0) * (double)(1 << (up ? i : n - i)); }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { T[i][j] = i == j ? 1.0 : 0.0;
      if (up ? i < j : i > j) { if (!mode) T[i][j] = sym_real("t_%d_%d", i, j); else if ((i + 2 * j) % 3 == 1) { T[i][j] = sym_real("t_%d_%d", i, j); sym_assume_lt(-0.125, T[i][j]); sym_assume_lt(T[i][j], 0.125); } else T[i][j] = ((i * 3 + j * 5) % 5 - 2) / 16.0; } }
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { double s = 0; for (int p = 0; p < n; p++) if (T[j][p] != 0.0 && T[i][p] != 0.0) s += T[i][p] * D[p] * T[j][p];
      int r = o[i] > o[j] ? o[i] : o[j], c = o[i] + o[j] - r; *(up ? sm_p(&A, c, r) : sm_p(&A, r, c)) = s; }
    sm_snap(&A); armas_pivot_t P; pv_init(&P, n);
    int rc = armas_ldlfactor(&A.m, mode ? &P : ARMAS_NOPIVOT, fl, &cf); sym_check(rc == 0, "return code");
    if (mode) { int ok = pv_sym(&P, n, up, perm); sym_check(ok, "pivot indices valid"); if (!ok) return; }
    spec(&A, n, up, perm); armas_pivot_release(&P);
  } else if (mode == 2) {
    int n = sym_choice(sym_tier() ? 4 : 3, "n") + 1; if (cfg && n <= LB[cfg]) sym_skip();
    armas_conf_t cf; cm_cfg(&cf, 0); armas_getenv()->lb = LB[cfg]; sym_config("maxeq", 1); smat A; sm_tri(&A, "a", n, n, n + 1, up, 0);
    armas_pivot_t P; pv_init(&P, n); int rc = armas_ldlfactor(&A.m, &P, fl, &cf); sym_check(rc == 0, "return code");
    int ok = pv_sym(&P, n, up, perm); sym_check(ok, "pivot indices valid"); if (!ok) return;
    spec(&A, n, up, perm); armas_pivot_release(&P);
  } else {
    int shp = sym_choice(sym_tier() ? 7 : 5, "shape"), pv = sym_choice(2, "pivots"); static const int N[7] = {1, 2, 3, 4, 3, 5, 6}, R[7] = {1, 2, 1, 2, 4, 2, 1}; int n = N[shp], r = R[shp];
    armas_conf_t cf; cm_cfg(&cf, cfg); smat A, B; sm_tri(&A, "a", n, n, n + 1, up, 0); sm_full(&B, "b", n, r, n + (shp & 1));
    for (int i = 0; i < n; i++) sym_assume_ne(sm_o(&A, i, i), 0.0);
    armas_pivot_t P; pv_init(&P, n); for (int i = 0; i < n; i++) P.indexes[i] = 1 + (up ? imax(0, i - (i * 2 + 1 + cfg) % 3) : imin(n - 1, i + (i * 2 + 1 + cfg) % 3));
    if (pv) pv_sym(&P, n, up, perm);
    int rc = armas_ldlsolve(&B.m, &A.m, pv ? &P : ARMAS_NOPIVOT, fl, &cf); sym_check(rc == 0, "return code");
    for (int j = 0; j < r; j++) { double w[16];
      for (int i = 0; i < n; i++) { w[i] = 0; for (int p = 0; p < n; p++) w[i] += tf(&A, p, i, up, 0) * sm_g(&B, perm[p], j); w[i] *= sm_o(&A, i, i); }
      for (int i = 0; i < n; i++) { double v = 0; for (int p = 0; p < n; p++) v += tf(&A, i, p, up, 0) * w[p]; sym_eq(v, sm_o(&B, perm[i], j), "A*X=B [%d,%d]", i, j); } }
    sm_unchanged(&A); sm_confined(&B);
  }
}
