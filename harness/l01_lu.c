/* L01: armas_lufactor, armas_lusolve */
#include "lap.h"
void sym_main(void) {
  int mode = sym_choice(4, "mode"), cfg = sym_choice(3, "cfg");
  static const int LB[3] = {0, 2, 3};
  if (mode < 3) {   /* factorization: 0 unpivoted, 1 pivoted with every value symbolic, 2 pivoted with few symbolic columns */
    int shp = sym_choice(mode == 0 ? (sym_tier() ? 10 : 8) : mode == 1 ? (sym_tier() ? 7 : 6) : 8, "shape");
    static const int M0[10] = {1,2,3,4,5,5,6,3,8,7}, N0[10] = {1,2,2,4,5,3,6,5,8,9}, M1[7] = {1,2,3,2,3,3,4}, N1[7] = {1,2,2,3,3,4,3}, M2[8] = {5,6,6,7,5,4,8,7}, N2[8] = {5,6,4,7,8,9,8,10};
    int m = mode == 0 ? M0[shp] : mode == 1 ? M1[shp] : M2[shp], n = mode == 0 ? N0[shp] : mode == 1 ? N1[shp] : N2[shp], k = imin(m, n);
    int c0 = 0, c1 = n;
    if (mode == 2) { int w = sym_choice(2, "where"); if (w == 0) { c0 = k - 2; c1 = k - 1; } else { c0 = k - 1; c1 = imin(n, k + 2); } }
    sym_config("maxeq", 1);
    armas_conf_t cf; cm_cfg(&cf, 0); armas_getenv()->lb = LB[cfg];
    smat A; if (mode == 2) sm_mix(&A, "a", m, n, m + 1, c0, c1); else sm_full(&A, "a", m, n, m + (shp & 1));
    armas_pivot_t P; if (mode) pv_init(&P, k);
    int rc = armas_lufactor(&A.m, mode ? &P : NULL, &cf);
    int perm[16]; for (int i = 0; i < m; i++) perm[i] = i;
    if (mode) { int ok = pv_perm(&P, k, m, perm); sym_check(ok, "pivot indices valid"); if (!ok) return; for (int i = 0; i < k; i++) sym_check(P.indexes[i] >= i + 1, "pivot %d not above its row", i); }
    int sing = 0; if (mode == 1) for (int i = 0; i < k; i++) if (sm_g(&A, i, i) == 0.0) sing = 1;
    if (mode == 1) { if (sing) sym_check(rc < 0, "singular matrix reported"); else sym_check(rc == 0, "return code"); }
    if (rc == 0 && !sing) for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
      double s = 0; for (int p = 0; p <= imin(imin(i, j), k - 1); p++) s += p == i ? sm_g(&A, p, j) : sm_g(&A, i, p) * sm_g(&A, p, j);
      sym_eq(s, sm_o(&A, perm[i], j), "LU=PA [%d,%d]", i, j);
      if (mode && j < i && j < k) { sym_le(sm_g(&A, i, j), 1.0, "|L[%d,%d]|<=1", i, j); sym_le(-1.0, sm_g(&A, i, j), "|L[%d,%d]|<=1", i, j); }
    }
    sm_confined(&A); if (mode) armas_pivot_release(&P);
  } else {          /* solve with an arbitrary factor and pivot vector */
    int shp = sym_choice(sym_tier() ? 7 : 5, "shape"), tr = sym_choice(2, "trans"), pv = sym_choice(3, "pivots");
    static const int N[7] = {1,2,3,4,3,5,6}, R[7] = {1,2,1,2,4,2,1}; int n = N[shp], r = R[shp];
    armas_conf_t cf; cm_cfg(&cf, cfg);
    smat A, B; sm_full(&A, "a", n, n, n + 1); sm_full(&B, "b", n, r, n + (shp & 1));
    armas_pivot_t P; pv_init(&P, n); for (int i = 0; i < n; i++) P.indexes[i] = 1 + (pv == 2 ? n - 1 : imin(n - 1, i + (i * 2 + 1) % 3));
    int perm[16]; pv_perm(&P, n, n, perm); if (!pv) for (int i = 0; i < n; i++) perm[i] = i;
    for (int i = 0; i < n; i++) sym_assume_ne(sm_o(&A, i, i), 0.0);
    int rc = armas_lusolve(&B.m, &A.m, pv ? &P : NULL, tr ? ARMAS_TRANS : 0, &cf); sym_check(rc == 0, "return code");
    for (int j = 0; j < r; j++) { double w[16], v[16];
      if (!tr) { /* P A = L U: rows of L U X are rows perm of B */
        for (int i = 0; i < n; i++) { w[i] = 0; for (int p = i; p < n; p++) w[i] += sm_o(&A, i, p) * sm_g(&B, p, j); }
        for (int i = 0; i < n; i++) { v[i] = w[i]; for (int p = 0; p < i; p++) v[i] += sm_o(&A, i, p) * w[p]; }
        for (int i = 0; i < n; i++) sym_eq(v[i], sm_o(&B, perm[i], j), "A*X=B [%d,%d]", i, j);
      } else {   /* A^T = U^T L^T P */
        for (int i = 0; i < n; i++) { w[i] = sm_g(&B, perm[i], j); for (int p = i + 1; p < n; p++) w[i] += sm_o(&A, p, i) * sm_g(&B, perm[p], j); }
        for (int i = 0; i < n; i++) { v[i] = 0; for (int p = 0; p <= i; p++) v[i] += sm_o(&A, p, i) * w[p]; }
        for (int i = 0; i < n; i++) sym_eq(v[i], sm_o(&B, i, j), "A^T*X=B [%d,%d]", i, j);
      } }
    sm_unchanged(&A); sm_confined(&B);
  }
}
