/* L17 diagonal scaling (-DDIAG), L18 sorting (-DSORT), L19 butterfly transforms (-DRBT), L21 quadratic roots (-DQD), M03 pivots (-DPIV) */
#include "lap.h"
#include <math.h>
enum { MX = 12 };
#if defined(DIAG)
void sym_main(void) {
  static const int M[8] = {2, 3, 4, 2, 5, 1, 1, 1}, N[8] = {2, 3, 2, 5, 3, 1, 1, 1}; int solve = sym_choice(2, "solve"), kind = sym_choice(8, "shape"), side = sym_choice(3, "side"), dk = sym_choice(3, "D"), av = sym_choice(2, "alpha");
  int m = M[kind], n = N[kind], vec = kind >= 5, len; armas_conf_t cf; smat A, D; sym_config("maxeq", 0); if (vec && side) sym_skip();
  if (vec) { if (kind == 5) { m = 1 + sym_choice(6, "len"); n = 1; } else { n = 1 + sym_choice(6, "len"); m = 1; } if (kind == 7) sym_skip(); len = m * n; } else len = side == 2 ? n : m;
  cm_cfg(&cf, 0); sm_full(&A, "a", m, n, m + 1 + (m == 1)); double al = av ? sym_real("alpha") : 1.0, d[MX];
  if (dk == 2) { sm_alloc(&D, "d", len, len, len + 1); for (int i = 0; i < len; i++) *sm_p(&D, i, i) = sym_real("d_%d", i); sm_snap(&D); for (int i = 0; i < len; i++) d[i] = sm_o(&D, i, i); }
  else { sm_vec(&D, "d", len, dk, dk + 1); for (int i = 0; i < len; i++) d[i] = sv_o(&D, i); }
  if (solve) for (int i = 0; i < len; i++) sym_assume_ne(d[i], 0.0);
  sym_divmode(1); int fl = side == 0 ? 0 : side == 1 ? ARMAS_LEFT : ARMAS_RIGHT;
  int rc = solve ? armas_solve_diag(&A.m, al, &D.m, fl, &cf) : armas_mult_diag(&A.m, al, &D.m, fl, &cf); sym_check(rc == 0, "return code"); if (rc) return;
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double e = d[vec ? i + j : side == 2 ? j : i];
    if (solve) sym_eq(sm_g(&A, i, j) * e, al * sm_o(&A, i, j), "alpha*A*inv(D) [%d,%d]", i, j); else sym_eq(sm_g(&A, i, j), al * e * sm_o(&A, i, j), "alpha*A*D [%d,%d]", i, j); }
  sm_confined(&A); sm_unchanged(&D);
}
#elif defined(SORT)
static void permuted(smat *D, int n, int *src, int abso) { (void)abso; int used[MX] = {0};
  for (int i = 0; i < n; i++) { int f = -1; for (int k = 0; k < n && f < 0; k++) if (!used[k] && sym_same(sv_g(D, i), sv_o(D, k))) f = k; src[i] = f; if (f < 0) { sym_check(0, "element %d is not one of the input elements, or occurs too often", i); return; } used[f] = 1; } }
void sym_main(void) {
  int fn = sym_choice(4, "fn"), down = sym_choice(2, "descending"), row = sym_choice(2, "row"), n, ns, rot = 0, src[MX]; smat D, U, V, C; armas_conf_t cf; static const int QN[4] = {8, 9, 11, 10};
  /* fn 0 sort_vec, 1 abs_sort_vec, 2 qsort_vec, 3 sort_eigenvec */
  int big = fn == 2 ? sym_choice(2, "large") : 0, md = 0, ck = 0;
  if (big) { n = QN[sym_choice(sym_tier() ? 4 : 3, "n")]; ns = sym_tier() ? 3 : 2; rot = sym_choice(n, "position"); md = sym_choice(3, "values"); } else { n = (fn == 3 ? 1 : 0) + sym_choice(sym_tier() ? 6 : fn == 1 ? 4 : fn == 3 ? 4 : 5, "n"); ns = n; }
  if (fn == 3) { md = sym_choice(2, "vectors"); ck = sym_choice(2, "C"); }
  cm_cfg(&cf, 0); sm_alloc(&D, "d", row ? 1 : n, row ? n : 1, row ? 3 : n + 2);
  for (int i = 0; i < n; i++) { int q = (i + n - rot) % n; double v = q < ns ? sym_real("d_%d", i) : md == 0 ? (double)((i * 7 + 3) % n) : md == 1 ? (double)(i % 2) : 4.0; *(row ? sm_p(&D, 0, i) : sm_p(&D, i, 0)) = v; }
  sm_snap(&D); int up = down ? -1 : 1;
  if (fn == 3) { int wu = md == 0, wv = md == 1; if (wu) sm_full(&U, "u", 2, n, 3); if (wv) sm_full(&V, "v", n, 2, n + 1); if (ck) sm_full(&C, "c", wu ? 1 : 2, n, 3);
    int rc = armas_sort_eigenvec(&D.m, wu ? &U.m : 0, wv ? &V.m : 0, ck ? &C.m : 0, up); sym_check(rc == 0, "return code"); permuted(&D, n, src, 0);
    for (int i = 0; i < n; i++) { int s = src[i]; if (s < 0) return; if (wu) for (int r = 0; r < 2; r++) sym_check(sym_same(sm_g(&U, r, i), sm_o(&U, r, s)), "column %d of U does not follow the eigenvalue", i);
      if (wv) for (int r = 0; r < 2; r++) sym_check(sym_same(sm_g(&V, i, r), sm_o(&V, s, r)), "row %d of V does not follow the eigenvalue", i);
      if (ck) for (int r = 0; r < (wu ? 1 : 2); r++) sym_check(sym_same(sm_g(&C, r, i), sm_o(&C, r, s)), "column %d of C does not follow the eigenvalue", i); }
    if (wu) sm_confined(&U); if (wv) sm_confined(&V); if (ck) sm_confined(&C);
  } else { if (fn == 0) armas_sort_vec(&D.m, up); else if (fn == 1) armas_abs_sort_vec(&D.m, up); else { int rc = armas_qsort_vec(&D.m, up); sym_check(rc == 0, "return code"); } permuted(&D, n, src, fn == 1); }
  for (int i = 0; i + 1 < n; i++) { double a = sv_g(&D, i), b = sv_g(&D, i + 1); if (fn == 1) { a = fabs(a); b = fabs(b); } if (down) sym_le(b, a, "order %d", i); else sym_le(a, b, "order %d", i); }
  sm_confined(&D);
}
#elif defined(RBT)
/* element (i,k) of the level with butterflies of size 2*nb, leading N-by-N part */
static double lv(smat *R, int col, int nb, int i, int k) {
  int b = i / (2 * nb) * (2 * nb), o = i - b;
  if (o < nb) return k == i ? sm_o(R, i, col) : k == i + nb ? sm_o(R, k, col) : 0.0;
  return k == i - nb ? sm_o(R, k, col) : k == i ? -sm_o(R, i, col) : 0.0;
}
/* X(N x c, element (i,j) at X[i*ri+j*rj]) := U X or U^T X, U = B_small ... B_big */
static void bfly(double *X, int N, int c, int ri, int rj, smat *R, int Nd, int d, int trans) {
  for (int q = 0; q < d; q++) { int col = trans ? q : d - 1 - q, nb = Nd >> (d - col); 
    for (int j = 0; j < c; j++) { double y[MX]; for (int i = 0; i < N; i++) { y[i] = 0; int w[3] = {i, i - nb, i + nb}; for (int t = 0; t < 3; t++) if (w[t] >= 0 && w[t] < N) { double e = trans ? lv(R, col, nb, w[t], i) : lv(R, col, nb, i, w[t]); y[i] += e * X[w[t] * ri + j * rj]; } } for (int i = 0; i < N; i++) X[i * ri + j * rj] = y[i]; } }
}
void sym_main(void) {
  int op = sym_choice(3, "op"), d = 1 + sym_choice(3, "depth"), N = 2 + sym_choice(sym_tier() ? 10 : 9, "N"), trans = op == 2 ? 0 : sym_choice(2, "trans"), p = 2; armas_conf_t cf; smat A, R, S; double X[MX * MX], f = 1;
  if (op == 2 && N > (sym_tier() ? 9 : 7)) sym_skip();
  int td = 1 << d, Nd = (N + td - 1) & ~(td - 1); if (N < td) sym_skip(); sym_config("maxeq", 0); cm_cfg(&cf, 0);
  int rows = op == 1 ? p : N, cols = op == 0 ? p : N; sm_full(&A, "a", rows, cols, rows + 1);
  sm_full(&R, "r", N, d, N + 1); if (op == 2) sm_full(&S, "s", N, d, N + 1);
  for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) X[i * MX + j] = sm_o(&A, i, j);
  int rc; if (op < 2) { rc = armas_mult_rbt(&A.m, &R.m, (op ? ARMAS_RIGHT : ARMAS_LEFT) | (trans ? ARMAS_TRANS : 0), &cf); f = pow(0.7071067811865475, d); } else { rc = armas_update2_rbt(&A.m, &R.m, &S.m, &cf); for (int i = 0; i < d; i++) f *= 0.5; }
  sym_check(rc == 0, "return code"); if (rc) return;
  if (op == 0) bfly(X, N, p, MX, 1, &R, Nd, d, trans); else if (op == 1) bfly(X, N, p, 1, MX, &R, Nd, d, !trans);
  else { bfly(X, N, N, MX, 1, &R, Nd, d, 1); bfly(X, N, N, 1, MX, &S, Nd, d, 1); }
  for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) sym_eq(sm_g(&A, i, j), f * X[i * MX + j], "%s [%d,%d]", op == 0 ? "U*A" : op == 1 ? "A*U" : "U^T*A*V", i, j);
  sm_confined(&A); sm_unchanged(&R); if (op == 2) sm_unchanged(&S);
}
#elif defined(QD)
void sym_main(void) {
  int op = sym_choice(5, "op"); double a = sym_real("a"), b, c, x1 = 7, x2 = 7, d;
  if (op == 1) b = 0.0; else b = sym_real("b"); if (op == 2) c = 0.0; else c = sym_real("c");
  if (op == 4) { armas_discriminant(&d, a, b, c); sym_eq(d, b * b - a * c, "discriminant"); return; }
  sym_assume_ne(a, 0.0); if (op == 3) { sym_assume_lt(b * b, a * c); sym_check(armas_qdroots(&x1, &x2, a, b, c) != 0, "complex roots not reported"); return; }
  sym_assume_le(a * c, b * b); int rc = armas_qdroots(&x1, &x2, a, b, c); sym_check(rc == 0, "real roots not reported"); if (rc) return;
  sym_eq(a * (x1 + x2), 2 * b, "sum of roots"); sym_eq(a * x1 * x2, c, "product of roots"); sym_le(x2 * x2, x1 * x1, "larger root first");
}
#else
void sym_main(void) {
  /* every pivot vector of the case is chosen by a permutation index: position k is exchanged with (k + off) */
  int fn = sym_choice(3, "fn"), n = 1 + sym_choice(sym_tier() ? 6 : 5, "n"), back = sym_choice(2, "backward"), pat = sym_choice(6, "pattern"), sub = sym_choice(2, "shortpivot"), w = 3; smat A; armas_conf_t cf; armas_pivot_t P; int perm[MX], np = n;
  int sym = sym_choice(2, "sym"); if (sub) { if (n < 2) sym_skip(); np = n - 1; }
  cm_cfg(&cf, 0); sm_alloc(&A, "a", fn == 1 ? w : n, fn == 0 ? w : n, n + w); int rows = A.m.rows, cols = A.m.cols; int up = sym;
  for (int j = 0; j < cols; j++) for (int i = 0; i < rows; i++) if (fn != 2 || (up ? i <= j : i >= j)) *sm_p(&A, i, j) = sym_real("a_%d_%d", i, j);
  sm_snap(&A); armas_pivot_init(&P, np);
  int base = back ? n - np : 0;
  for (int k = 0; k < np; k++) { int o = pat == 0 ? 0 : pat == 1 ? n - 1 - k : pat == 2 ? (k + 1 < n) : pat == 3 ? (k * 2 + 1) % (n - k) : pat == 4 ? (k % 2 ? 0 : (n - 1 - k) / 2) : (k * k + 2) % (n - k); P.indexes[k] = 1 + k + o; }
  for (int i = 0; i < n; i++) perm[i] = i;
  for (int q = 0; q < np; q++) { int k = back ? np - 1 - q : q, o = P.indexes[k] - 1, t = perm[base + k]; perm[base + k] = perm[o]; perm[o] = t; }
  int dir = back ? ARMAS_PIVOT_BACKWARD : ARMAS_PIVOT_FORWARD, rc; (void)dir;
  if (sym && fn < 2) rc = armas_pivot(&A.m, &P, dir | (fn ? ARMAS_PIVOT_COLS : ARMAS_PIVOT_ROWS), &cf);
  else if (fn == 0) rc = armas_pivot_rows(&A.m, &P, dir, &cf); else if (fn == 1) rc = armas_pivot_cols(&A.m, &P, dir, &cf); else rc = armas_pivot(&A.m, &P, dir | (up ? ARMAS_PIVOT_UPPER : ARMAS_PIVOT_LOWER), &cf);
  sym_check(rc == 0, "return code"); if (rc) return;
  for (int j = 0; j < cols; j++) for (int i = 0; i < rows; i++) {
    if (fn == 2 && (up ? i > j : i < j)) { sym_check(sym_same(sm_g(&A, i, j), sm_o(&A, i, j)), "[%d,%d]: element of the unselected triangle modified", i, j); continue; }
    double e = fn == 0 ? sm_o(&A, perm[i], j) : fn == 1 ? sm_o(&A, i, perm[j]) : sm_symo(&A, perm[i], perm[j], up);
    sym_eq(sm_g(&A, i, j), e, "permuted element [%d,%d]", i, j); }
  sm_confined(&A);
}
#endif
