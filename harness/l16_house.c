/* L16 Householder reflectors: generation (scaled, unscaled, non-negative), application, products; hyperbolic reflectors */
#include "lap.h"
enum { MX = 10 };
extern int armas_house_vec(armas_dense_t *, armas_dense_t *, int, armas_conf_t *);   /* exported, not declared in matrix.h */
static double vel(int n, double v0, double *v, int i) { return i ? v[i - 1] : v0; }
static void reflect(double *x, int n, int inc, double tau, double v0, double *v, int hyp) {   /* x := (I - tau*J*v*v^T) x */
  double w = 0; for (int i = 0; i < n; i++) w += vel(n, v0, v, i) * x[i * inc]; w *= tau;
  for (int i = 0; i < n; i++) { if (i && hyp) x[i * inc] += vel(n, v0, v, i) * w; else x[i * inc] -= vel(n, v0, v, i) * w; }
}
void sym_main(void) {
  int op = sym_choice(7, "op"); armas_conf_t cf; cm_cfg(&cf, 0); double x[MX], v[MX];
  if (op == 0 || op == 1) {   /* op 0: (alpha;x) = r*(integers with integer norm); op 1: alpha and x arbitrary */
    static const int P[9][7] = {{1, 5}, {2, 3, 4}, {2, -4, 3}, {3, 1, -2, 2}, {3, -2, 3, 6}, {4, 1, 1, 1, 1}, {5, -4, 2, 2, 1, 0}, {3, 0, 3, -4}, {6, 1, 2, 2, 4, 4, 8 /* 105 */}};
    int pat = sym_choice(op ? (sym_tier() ? 3 : 2) : 9, "pattern"), fl = sym_choice(6, "flags"), row = sym_choice(2, "row"), vec = sym_choice(2, "vec"), neg = op ? 0 : sym_choice(2, "negative"); int n = op ? pat + 2 : P[pat][0], unit = !(fl & 1), nn = (fl >> 1) & 1, hh = fl >= 4; if (pat == 8 && !op) sym_skip();
    if (hh) { unit = 1; nn = fl & 1; if (vec) sym_skip(); } int zt = op && sym_choice(2, "zerotail");
    smat A, T; sm_vecout(&A, "x", n, row, row ? 2 : 0); sm_vecout(&T, "tau", 1, 0, 0); armas_dense_t a11, xx; if (op == 0) sym_config("norm", 1); sym_config("absfork", 1);
    double r = op ? 0 : sym_real("r"); if (!op) { if (neg) sym_assume_lt(r, -0.5); else sym_assume_lt(0.5, r); }
    for (int i = 0; i < n; i++) { double e = op ? (i && zt ? 0.0 : sym_real("x_%d", i)) : P[pat][i + 1] * r; if (op && ((!zt && i == 1) || (zt && i == 0 && n == 3))) sym_assume_lt(0.5, e); *(row ? sm_p(&A, 0, i) : sm_p(&A, i, 0)) = e; x[i] = e; } sm_snap(&A);
    armas_submatrix(&a11, &A.m, 0, 0, 1, 1); if (row) armas_submatrix(&xx, &A.m, 0, 1, 1, n - 1); else armas_submatrix(&xx, &A.m, 1, 0, n - 1, 1);
    int flags = (unit ? ARMAS_UNIT : 0) | (nn ? ARMAS_NONNEG : 0) | (hh ? ARMAS_HHNEGATIVE : 0); if (hh && (zt || n == 1)) sym_skip();
    int rc = vec ? armas_house_vec(&A.m, &T.m, flags, &cf) : armas_house(&a11, &xx, &T.m, flags, &cf); sym_check(rc == 0, "return code"); if (rc) return;
    double beta = unit ? sv_g(&A, 0) : sv_g(&T, 0), tau = unit ? sv_g(&T, 0) : 2.0, v0 = unit ? 1.0 : sv_g(&A, 0), s = v0 * v0; for (int i = 1; i < n; i++) { v[i - 1] = sv_g(&A, i); s += v[i - 1] * v[i - 1]; }
    if (unit) sym_eq(tau * (tau * s - 2), 0.0, "reflector orthogonal"); else sym_eq(s * (s - 1), 0.0, "reflector orthogonal");
    reflect(x, n, 1, tau, v0, v, 0); for (int i = 0; i < n; i++) sym_eq(x[i], i ? 0.0 : hh ? -beta : beta, "H*x element %d", i);
    if (nn) sym_le(0.0, beta, "beta non-negative"); sm_confined(&A); sm_confined(&T); return;
  }
  if (op == 2 || op == 3) {   /* application of one reflector to a matrix: armas_houseapply2x1, armas_houseapply, armas_hhouse_apply */
    int which = op == 3 ? 3 : sym_choice(3, "which"), right = sym_choice(2, "right"), sh = sym_choice(6, "shape"); static const int M[6] = {2, 3, 4, 5, 2, 3}, N[6] = {3, 2, 4, 6, 5, 3}; int n = M[sh], c = N[sh];   /* reflector of order n, c rows or columns */
    int unit = which != 1, vrow = sym_choice(2, "vrow"); smat A, V, W, T; sm_full(&A, "a", right ? c : n, right ? n : c, (right ? c : n) + 1); sm_vec(&V, "v", unit ? n - 1 : n, vrow, 1); sm_vecout(&W, "w", which == 1 || which == 2 ? (c > n ? c : n) : c, 0, 0); sm_vec(&T, "tau", 1, 0, 0); if (sh == 5) { *sm_p(&T, 0, 0) = 0.0; sm_snap(&T); }
    armas_dense_t a1, A2; if (right) { armas_submatrix(&a1, &A.m, 0, 0, c, 1); armas_submatrix(&A2, &A.m, 0, 1, c, n - 1); } else { armas_submatrix(&a1, &A.m, 0, 0, 1, c); armas_submatrix(&A2, &A.m, 1, 0, n - 1, c); }
    int fl = right ? ARMAS_RIGHT : ARMAS_LEFT, rc; for (int i = 0; i < n; i++) v[i] = i < V.m.rows * V.m.cols ? sv_o(&V, i) : 0.0;
    if (which == 0) rc = armas_houseapply2x1(&a1, &A2, &T.m, &V.m, &W.m, fl, &cf); else if (which == 1) rc = armas_houseapply(&A.m, (armas_dense_t *)0, &V.m, &W.m, fl, &cf);
    else if (which == 2) rc = armas_houseapply(&A.m, &T.m, &V.m, &W.m, fl | ARMAS_UNIT, &cf); else rc = armas_hhouse_apply(&T.m, &V.m, &a1, &A2, &W.m, fl, &cf);
    sym_check(rc == 0, "return code %d", rc); if (rc) return;
    for (int j = 0; j < c; j++) { for (int i = 0; i < n; i++) x[i] = right ? sm_o(&A, j, i) : sm_o(&A, i, j); reflect(x, n, 1, unit ? sv_o(&T, 0) : 2.0, unit ? 1.0 : v[0], unit ? v : v + 1, which == 3); for (int i = 0; i < n; i++) sym_eq(right ? sm_g(&A, j, i) : sm_g(&A, i, j), x[i], "element [%d,%d]", i, j); }
    sm_confined(&A); sm_unchanged(&V); sm_unchanged(&T); sm_confined(&W); return;
  }
  if (op == 4) {   /* application to a vector */
    int n = sym_choice(5, "n") + 1, unit = sym_choice(2, "unit"), row = sym_choice(2, "row"); smat A, V, T; sm_vec(&A, "a", n, row, 1); sm_vec(&V, "v", unit ? n - 1 : n, 0, 1); sm_vec(&T, "tau", 1, 0, 0); if (n == 1) sym_skip();
    int rc = armas_houseapply(&A.m, unit ? &T.m : (armas_dense_t *)0, &V.m, (armas_dense_t *)0, (row ? ARMAS_RIGHT : ARMAS_LEFT) | (unit ? ARMAS_UNIT : 0), &cf); sym_check(rc == 0, "return code"); if (rc) return;
    for (int i = 0; i < n; i++) x[i] = sv_o(&A, i); for (int i = 0; i < n; i++) v[i] = i < n - unit ? sv_o(&V, i) : 0.0; reflect(x, n, 1, unit ? sv_o(&T, 0) : 2.0, unit ? 1.0 : v[0], unit ? v : v + 1, 0);
    for (int i = 0; i < n; i++) sym_eq(sv_g(&A, i), x[i], "element %d", i); sm_confined(&A); sm_unchanged(&V); sm_unchanged(&T); return;
  }
  if (op == 5) {   /* products of reflectors: armas_housemult(_w) */
    int unit = sym_choice(2, "unit"), side = sym_choice(3, "side"), trans = sym_choice(2, "trans"), kind = sym_choice(2, "kind"), sh = sym_choice(kind ? (sym_tier() ? 6 : 4) : 2, "shape"), p = sym_choice(3, "cols") + 1, w = sym_choice(2, "explicit"), right = side == 1;
    static const int M[2][6] = {{2, 3}, {4, 5, 6, 3, 8, 7}}, N[2][6] = {{2, 2}, {4, 3, 4, 1, 5, 7}}; int m = M[kind][sh], n = N[kind][sh]; if (p == 3) p = m + 1; if (w && p == 1) sym_skip(); sym_config("maxeq", 0);
    smat Q, T, X; sm_alloc(&Q, "q", m, n, m + 1); for (int k = 0; k < n; k++) for (int i = k + unit; i < m; i++) *sm_p(&Q, i, k) = kind ? (double)((i * 5 + k * 3 + i * k) % 5 - 2) : sym_real("q_%d_%d", i, k); sm_snap(&Q); sm_vec(&T, "tau", n, 0, 0); sm_full(&X, "x", right ? p : m, right ? m : p, (right ? p : m) + 1);
    int fl = (unit ? ARMAS_UNIT : 0) | (trans ? ARMAS_TRANS : 0) | (side == 0 ? ARMAS_LEFT : right ? ARMAS_RIGHT : 0), rc;
    if (w) { armas_wbuf_t wb = ARMAS_WBNULL; rc = armas_housemult_w(&X.m, unit ? &T.m : 0, &Q.m, fl, &wb, &cf); sym_check(rc == 0 && wb.bytes == p * sizeof(double), "workspace query"); if (rc || !wb.bytes || !armas_walloc(&wb, wb.bytes)) return; rc = armas_housemult_w(&X.m, unit ? &T.m : 0, &Q.m, fl, &wb, &cf); armas_wrelease(&wb); }
    else rc = armas_housemult(&X.m, unit ? &T.m : 0, &Q.m, fl, &cf);
    sym_check(rc == 0, "return code"); if (rc) return;
    for (int j = 0; j < p; j++) { for (int i = 0; i < m; i++) x[i] = right ? sm_o(&X, j, i) : sm_o(&X, i, j); int fwd = trans ^ right;
      for (int q = 0; q < n; q++) { int k = fwd ? q : n - 1 - q; for (int i = k + 1; i < m; i++) v[i - k - 1] = sm_o(&Q, i, k); reflect(x + k, m - k, 1, unit ? sv_o(&T, k) : 2.0, unit ? 1.0 : sm_o(&Q, k, k), v, 0); }
      for (int i = 0; i < m; i++) sym_eq(right ? sm_g(&X, j, i) : sm_g(&X, i, j), x[i], "element [%d,%d]", i, j); }
    sm_confined(&X); sm_unchanged(&Q); sm_unchanged(&T); return;
  }
  {   /* hyperbolic reflector: alpha^2 - |x|^2 is a square */
    static const int P[8][6] = {{2, 5, 3}, {2, -5, 4}, {3, 3, 2, 1}, {3, -9, 4, 4}, {4, 5, 2, 2, 4}, {3, 13, 0, -12}, {2, 7, 0}, {3, -5, 3, 0}}; int pat = sym_choice(8, "pattern"), fl = sym_choice(4, "flags"), neg = sym_choice(2, "negative"), bad = sym_choice(3, "bad"), n = P[pat][0], nn = fl & 1, hh = fl & 2; if (bad && pat) sym_skip();
    sym_config("norm", 1); sym_config("absfork", 1); smat A, T; sm_vecout(&A, "x", n, 0, 0); sm_vecout(&T, "tau", 1, 0, 0); double r = sym_real("r"); if (neg) sym_assume_lt(r, -0.5); else sym_assume_lt(0.5, r); if (pat == 6 && hh) sym_skip();
    for (int i = 0; i < n; i++) { int k = P[pat][i + 1]; if (bad && !i) k = bad == 1 ? 3 : 2; *sm_p(&A, i, 0) = x[i] = k * r; } sm_snap(&A);
    armas_dense_t a11, xx; armas_submatrix(&a11, &A.m, 0, 0, 1, 1); armas_submatrix(&xx, &A.m, 1, 0, n - 1, 1);
    int rc = armas_hhouse(&a11, &xx, &T.m, (nn ? ARMAS_NONNEG : 0) | (hh ? ARMAS_HHNEGATIVE : 0), &cf);
    if (bad) { sym_check(rc < 0, "vector with non-positive signature norm must be refused"); sm_unchanged(&A); return; }
    sym_check(rc == 0, "return code"); if (rc) return;
    double tau = sv_g(&T, 0), beta = sv_g(&A, 0), s = 1; for (int i = 1; i < n; i++) { v[i - 1] = sv_g(&A, i); s -= v[i - 1] * v[i - 1]; }
    sym_eq(tau * (tau * s - 2), 0.0, "H*J*H^T = J"); reflect(x, n, 1, tau, 1.0, v, 1); for (int i = 0; i < n; i++) sym_eq(x[i], i ? 0.0 : hh ? -beta : beta, "H*x element %d", i);
    if (nn) sym_le(0.0, beta, "beta non-negative"); sm_confined(&A); sm_confined(&T);
  }
}
