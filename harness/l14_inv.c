/* L14 inverses of factored matrices, L22 Cholesky update (-DUPD) */
#include "lap.h"
#ifdef WS
#include "ws.h"
#endif
#ifndef UPD
static double tf(smat *A, int i, int j, int up, int unit) { if (i == j && unit) return 1.0; if (up ? i > j : i < j) return 0.0; return sm_o(A, i, j); }
void sym_main(void) {
  int kind = sym_choice(4, "kind"), cfg = sym_choice(3, "cfg"), up = kind == 1 ? 0 : sym_choice(2, "upper"), opt = kind == 2 ? 0 : sym_choice(2, "opt");   /* opt: unit diagonal / with pivots */
  int n = sym_choice(sym_tier() ? 7 : 6, "n") + 1; static const int LB[3] = {0, 2, 3}; int perm[16]; for (int i = 0; i < 16; i++) perm[i] = i;
  if (cfg && n <= LB[cfg] - 1) sym_skip();
  armas_conf_t cf; cm_cfg(&cf, sym_tier() ? cfg : 0); armas_getenv()->lb = LB[cfg]; sym_config("norm", 1); sym_config("maxeq", 0);
  int fl = up ? ARMAS_UPPER : ARMAS_LOWER, rc; smat A; armas_pivot_t P; pv_init(&P, n);
  if (kind == 1) sm_full(&A, "a", n, n, n + (n & 1)); else sm_tri(&A, "a", n, n, n + (n & 1), up, kind == 0 && opt);
  if (!(kind == 0 && opt)) for (int i = 0; i < n; i++) sym_assume_ne(sm_o(&A, i, i), 0.0);
  if (opt && (kind == 1 || kind == 3)) {
    if (kind == 3 && up) { for (int i = 0; i < n; i++) P.indexes[i] = 1 + imax(0, i - (i * 2 + 1 + cfg) % 3); for (int i = n - 1; i >= 0; i--) { int p = P.indexes[i] - 1, t = perm[i]; perm[i] = perm[p]; perm[p] = t; } }
    else { for (int i = 0; i < n; i++) P.indexes[i] = 1 + imin(n - 1, i + (i * 2 + 1 + cfg) % 3); pv_perm(&P, n, n, perm); } }
  armas_pivot_t *PP = opt ? &P : ARMAS_NOPIVOT;
  if (kind == 0) rc = armas_inverse_trm(&A.m, fl | (opt ? ARMAS_UNIT : 0), &cf);
  else if (kind == 1) rc = armas_luinverse(&A.m, PP, &cf);
  else if (kind == 2) rc = armas_cholinverse(&A.m, fl, &cf);
  else rc = armas_ldlinverse(&A.m, PP, fl, &cf);
  sym_check(rc == 0, "return code"); if (rc) return;
  for (int j = 0; j < n; j++) { double x[16], w[16];
    /* x: column of the computed inverse in the pivoted row order */
    for (int i = 0; i < n; i++) x[i] = kind == 0 ? ((up ? i > j : i < j) ? 0.0 : i == j && opt ? 1.0 : sm_g(&A, i, j)) : kind == 1 ? sm_g(&A, i, j) : ((up ? perm[i] <= perm[j] : perm[i] >= perm[j]) ? sm_g(&A, perm[i], perm[j]) : sm_g(&A, perm[j], perm[i]));
    if (kind == 0) { for (int i = 0; i < n; i++) { double s = 0; for (int p = 0; p < n; p++) s += tf(&A, i, p, up, opt) * x[p]; sym_eq(s, i == j ? 1.0 : 0.0, "A*inv(A)=I [%d,%d]", i, j); } continue; }
    if (kind == 1) { for (int i = 0; i < n; i++) { w[i] = 0; for (int p = i; p < n; p++) w[i] += sm_o(&A, i, p) * x[p]; }
      for (int i = 0; i < n; i++) { double s = w[i]; for (int p = 0; p < i; p++) s += sm_o(&A, i, p) * w[p]; sym_eq(s, perm[i] == j ? 1.0 : 0.0, "A*inv(A)=I [%d,%d]", i, j); } continue; }
    int u = kind == 2 && up, unit = kind == 3;   /* Cholesky upper: U^T*U, otherwise F*D*F^T */
    for (int i = 0; i < n; i++) { w[i] = 0; for (int p = 0; p < n; p++) w[i] += (u ? tf(&A, i, p, up, 0) : tf(&A, p, i, up, unit)) * x[p]; if (kind == 3) w[i] *= sm_o(&A, i, i); }
    for (int i = 0; i < n; i++) { double s = 0; for (int p = 0; p < n; p++) s += (u ? tf(&A, p, i, up, 0) : tf(&A, i, p, up, unit)) * w[p]; sym_eq(s, i == j ? 1.0 : 0.0, "A*inv(A)=I [%d,%d]", i, j); }
  }
  if (kind == 1) sm_confined(&A); else sm_tri_rest_unchanged(&A, up);
  if (kind == 0 && opt) for (int i = 0; i < n; i++) sym_check(sym_same(sm_g(&A, i, i), sm_o(&A, i, i)), "unit diagonal %d untouched", i);
}
#else
/* L22: kind 0: everything symbolic (small n). kind 1: the updated factor is an arbitrary symbolic triangle R and the step rotations are given rational rotations,
 * (L, x) = (R, 0)*Q^T, so that every order is decided; zero and negative entries of x, |x_k| above and below the diagonal element all occur */
void sym_main(void) {
  static const int C[6] = {4, 7, 1, 3, 24, 5}, S[6] = {-3, 24, 0, 4, 7, 12}, H[6] = {5, 25, 1, 5, 25, 13};
  int up = sym_choice(2, "upper"), row = sym_choice(2, "row"), kind = sym_choice(2, "kind"), pat = kind ? sym_choice(4, "rotations") : 0;
  int n = sym_choice(kind ? (sym_tier() ? 9 : 6) : (sym_tier() ? 2 : 1), "n") + 1;
  armas_conf_t cf; cm_cfg(&cf, 0); smat A, X; sym_config("norm", kind); sym_config("maxeq", 0);
  if (!kind) { sm_tri(&A, "a", n, n, n + 1, up, 0); sm_vec(&X, "x", n, row, 1 + (n & 1)); for (int i = 0; i < n; i++) sym_assume_lt(0.0, sm_o(&A, i, i)); }
  else { double R[16][16], x[16];
    for (int i = 0; i < n; i++) { x[i] = 0; for (int j = 0; j <= i; j++) R[i][j] = sym_real("r_%d_%d", i, j); sym_assume_lt(0.0, R[i][i]); }
    for (int k = n - 1; k >= 0; k--) { int q = (k * (pat + 1) + pat) % 6; double c = sym_rat(C[q], H[q]), s = sym_rat(S[q], H[q]);
      for (int i = k; i < n; i++) { double a = c * R[i][k] - s * x[i], b = s * R[i][k] + c * x[i]; R[i][k] = a; x[i] = b; } }
    sm_alloc(&A, "a", n, n, n + 1); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) *(up ? sm_p(&A, j, i) : sm_p(&A, i, j)) = R[i][j]; sm_snap(&A);
    sm_vecout(&X, "x", n, row, 1 + (n & 1)); for (int i = 0; i < n; i++) *(row ? sm_p(&X, 0, i) : sm_p(&X, i, 0)) = x[i]; sm_snap(&X); }
  int rc = armas_cholupdate(&A.m, &X.m, up ? ARMAS_UPPER : ARMAS_LOWER, &cf); sym_check(rc == 0, "return code");
  for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { double s = 0, t = sv_o(&X, i) * sv_o(&X, j);
    for (int p = 0; p <= j; p++) { s += up ? sm_g(&A, p, i) * sm_g(&A, p, j) : sm_g(&A, i, p) * sm_g(&A, j, p); t += up ? sm_o(&A, p, i) * sm_o(&A, p, j) : sm_o(&A, i, p) * sm_o(&A, j, p); }
    sym_eq(s, t, "L'L'^T = LL^T + xx^T [%d,%d]", i, j); }
  sm_tri_rest_unchanged(&A, up); sm_confined(&X);
}
#endif
