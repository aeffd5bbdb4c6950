/* L02 Cholesky (armas_cholfactor / armas_cholesky / armas_cholsolve), L03 with pivots (-DPV) */
#include "lap.h"
static void spec_solve(smat *A, smat *B, int n, int r, int up, int *perm) {
  for (int j = 0; j < r; j++) { double w[16];
    for (int i = 0; i < n; i++) { w[i] = 0; for (int p = i; p < n; p++) w[i] += (up ? sm_o(A, i, p) : sm_o(A, p, i)) * sm_g(B, perm[p], j); }
    for (int i = 0; i < n; i++) { double v = 0; for (int p = 0; p <= i; p++) v += (up ? sm_o(A, p, i) : sm_o(A, i, p)) * w[p]; sym_eq(v, sm_o(B, perm[i], j), "A*X=B [%d,%d]", i, j); } }
}
static void spec_factor(smat *A, int n, int up, int rank, int *perm) {
  for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) {
    double s = 0; for (int p = 0; p <= j && p < rank; p++) s += (up ? sm_g(A, p, i) : sm_g(A, i, p)) * (up ? sm_g(A, p, j) : sm_g(A, j, p));
    sym_eq(s, sm_symo(A, perm[i], perm[j], up), "factor product [%d,%d]", i, j); }
  for (int i = 0; i < rank; i++) sym_lt(0.0, sm_g(A, i, i), "diagonal %d positive", i);
  sm_tri_rest_unchanged(A, up);
}
void sym_main(void) {
  int mode = sym_choice(3, "mode"), cfg = sym_choice(3, "cfg"), up = sym_choice(2, "upper"), fl = up ? ARMAS_UPPER : ARMAS_LOWER;
  static const int LB[3] = {0, 2, 3}; int perm[16]; for (int i = 0; i < 16; i++) perm[i] = i;
  if (mode == 0) {          /* A = L0*L0^T for a symbolic factor L0: everything of any block structure */
    int n = sym_choice(sym_tier() ? 11 : 9, "n") + 1; 
#ifdef PV
    int lay = sym_choice(sym_tier() ? 4 : 3, "layout"), rank = n;   /* pivot orders: concrete diagonal of L0 dominates */
    if (sym_choice(2, "deficient")) { if (n < 3) sym_skip(); rank = lay == 0 ? n - 1 : n / 2; }
#endif
    armas_conf_t cf; cm_cfg(&cf, 0); armas_getenv()->lb = LB[cfg]; sym_config("norm", 1); sym_config("maxeq", 0); sym_divmode(1);
    smat A; sm_alloc(&A, "a", n, n, n + (n & 1)); double L0[12][12];
#ifndef PV
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { L0[i][j] = sym_real("l_%d_%d", i, j); if (i == j) sym_assume_lt(0.0, L0[i][i]); }
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { double s = 0; for (int p = 0; p <= j; p++) s += L0[i][p] * L0[j][p]; *(up ? sm_p(&A, j, i) : sm_p(&A, i, j)) = s; }
#else
    /* rows of L0 permuted by o; diagonal concrete, decreasing fast; one symbolic entry per few rows, bounded */
    int o[12]; for (int i = 0; i < n; i++) o[i] = lay == 0 ? i : lay == 1 ? n - 1 - i : lay == 2 ? (i + n / 2) % n : (i * 5 + 2) % n;
    if (lay == 3 && n % 5 == 0) sym_skip();
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) L0[i][j] = 0;
    for (int i = 0; i < n; i++) for (int j = 0; j <= i && j < rank; j++) { if (i == j) L0[i][i] = 64 - 4 * i; else if ((i + 2 * j) % 3 == 1 && n <= 9) { L0[i][j] = sym_real("l_%d_%d", i, j); sym_assume_lt(-1.0, L0[i][j]); sym_assume_lt(L0[i][j], 1.0); } else L0[i][j] = ((i * 3 + j * 5) % 5 - 2) * 0.5; }
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { double s = 0; for (int p = 0; p <= j; p++) s += L0[i][p] * L0[j][p]; int r = o[i] > o[j] ? o[i] : o[j], c = o[i] + o[j] - r; *(up ? sm_p(&A, c, r) : sm_p(&A, r, c)) = s; }
#endif
    sm_snap(&A);
#ifndef PV
    int rc = (n & 1) ? armas_cholfactor(&A.m, ARMAS_NOPIVOT, fl, &cf) : armas_cholesky(&A.m, fl, &cf);
    sym_check(rc == 0, "positive definite matrix accepted"); if (rc == 0) spec_factor(&A, n, up, n, perm);
#else
    cf.stop = 1e-3; armas_pivot_t P; pv_init(&P, n); int rc = armas_cholfactor(&A.m, &P, fl, &cf); cf.stop = 0;
    sym_check(rc == (rank == n ? 0 : rank), "rank");
    int ok = pv_perm(&P, rank, n, perm); sym_check(ok, "pivot indices valid"); if (!ok) return;
    spec_factor(&A, n, up, rank, perm); for (int i = 1; i < rank; i++) sym_le(sm_g(&A, i, i), sm_g(&A, i - 1, i - 1), "diagonal nonincreasing %d", i);
    armas_pivot_release(&P);
#endif
  } else if (mode == 1) {   /* every symmetric matrix, small */
    int n = sym_choice(sym_tier() ? 4 : 3, "n") + 1; if (cfg && n <= LB[cfg]) sym_skip();
    armas_conf_t cf; cm_cfg(&cf, 0); armas_getenv()->lb = LB[cfg]; sym_divmode(cfg == 0);
    smat A; sm_tri(&A, "a", n, n, n + 1, up, 0);
#ifndef PV
    double m[4]; double x[4][4]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) x[i][j] = sm_symo(&A, i, j, up);
    int rc = armas_cholfactor(&A.m, ARMAS_NOPIVOT, fl, &cf);
    if (rc == 0) { spec_factor(&A, n, up, n, perm); return; }
    /* refused: some leading minor is not positive */
    sym_check(rc < 0 && cf.error != 0, "error code set");
    m[0] = x[0][0]; if (n > 1) m[1] = x[0][0] * x[1][1] - x[0][1] * x[0][1];
    if (n > 2) m[2] = x[0][0] * (x[1][1] * x[2][2] - x[1][2] * x[1][2]) - x[0][1] * (x[0][1] * x[2][2] - x[1][2] * x[0][2]) + x[0][2] * (x[0][1] * x[1][2] - x[1][1] * x[0][2]);
    if (n > 3) return;
    for (int k = 0; k < n - 1; k++) sym_assume_lt(0.0, m[k]);
    sym_le(m[n - 1], 0.0, "refused matrix is not positive definite");
#else
    if (n > 3) return;
    for (int i = 0; i < n; i++) { sym_assume_lt(0.5, sm_o(&A, i, i)); sym_assume_lt(sm_o(&A, i, i), 100.0); }
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) sym_assume_lt(sm_symo(&A, i, j, up) * sm_symo(&A, i, j, up), sm_o(&A, i, i) * sm_o(&A, j, j));
    armas_pivot_t P; pv_init(&P, n); cf.stop = 1e-6; int rc = armas_cholfactor(&A.m, &P, fl, &cf); cf.stop = 0;
    int rank = rc == 0 ? n : rc; sym_check(rank > 0, "rank");
    if (rc != 0) return;   /* numerically rank deficient within the stopping criterion */
    int ok = pv_perm(&P, n, n, perm); sym_check(ok, "pivot indices valid"); if (!ok) return;
    spec_factor(&A, n, up, n, perm); for (int i = 1; i < n; i++) sym_le(sm_g(&A, i, i), sm_g(&A, i - 1, i - 1), "diagonal nonincreasing %d", i);
    armas_pivot_release(&P);
#endif
  } else {                  /* solve with an arbitrary factor */
    int shp = sym_choice(sym_tier() ? 7 : 5, "shape"); static const int N[7] = {1, 2, 3, 4, 3, 5, 6}, R[7] = {1, 2, 1, 2, 4, 2, 1}; int n = N[shp], r = R[shp];
    armas_conf_t cf; cm_cfg(&cf, cfg); smat A, B; sm_tri(&A, "a", n, n, n + 1, up, 0); sm_full(&B, "b", n, r, n + (shp & 1));
    for (int i = 0; i < n; i++) sym_assume_ne(sm_o(&A, i, i), 0.0);
#ifdef PV
    armas_pivot_t P; pv_init(&P, n); for (int i = 0; i < n; i++) P.indexes[i] = 1 + imin(n - 1, i + (i * 2 + 1 + cfg) % 3); pv_perm(&P, n, n, perm);
    int rc = armas_cholsolve(&B.m, &A.m, &P, fl, &cf);
#else
    int rc = armas_cholsolve(&B.m, &A.m, ARMAS_NOPIVOT, fl, &cf);
#endif
    sym_check(rc == 0, "return code"); spec_solve(&A, &B, n, r, up, perm); sm_unchanged(&A); sm_confined(&B);
  }
}
