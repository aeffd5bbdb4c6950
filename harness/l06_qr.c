/* L06 QR, L07 LQ (-DLQ), L08 QL (-DQL), L09 RQ (-DRQ): factorization, multiplication with Q, generation of Q.
 * All four are handled as a tall m-by-n problem; LQ and RQ are the transposed problems (element accessors swapped). */
#include "lap.h"
#ifdef WS
#include "ws.h"
#endif
#if defined(LQ)
#define NAME(x) armas_lq##x
enum { TR = 1, REV = 0 };
#elif defined(QL)
#define NAME(x) armas_ql##x
enum { TR = 0, REV = 1 };
#elif defined(RQ)
#define NAME(x) armas_rq##x
enum { TR = 1, REV = 1 };
#else
#define NAME(x) armas_qr##x
enum { TR = 0, REV = 0 };
#endif
#define MX 12
#if !defined(LQ) && !defined(QL) && !defined(RQ)
#define HASQRT 1
#else
#define HASQRT 0
#endif
static double *ap(smat *s, int i, int j) { return TR ? sm_p(s, j, i) : sm_p(s, i, j); }
static double ao(smat *s, int i, int j) { return TR ? sm_o(s, j, i) : sm_o(s, i, j); }
static double ag(smat *s, int i, int j) { return TR ? sm_g(s, j, i) : sm_g(s, i, j); }
static int vrow(int m, int n, int k) { return REV ? m - n + k : k; }           /* position of the unit element of reflector k */
static int isv(int m, int n, int i, int k) { return REV ? i < vrow(m, n, k) : i > k; }
static double V(smat *s, int m, int n, int i, int k, int now) { return i == vrow(m, n, k) ? 1.0 : isv(m, n, i, k) ? (now ? ag(s, i, k) : ao(s, i, k)) : 0.0; }
/* X := H_k X for the m-by-c array X (row stride MX) */
static void apply(double *X, int c, smat *s, double tau, int m, int n, int k, int now) {
  for (int j = 0; j < c; j++) { double w = 0; for (int i = 0; i < m; i++) w += V(s, m, n, i, k, now) * X[i * MX + j]; w *= tau; for (int i = 0; i < m; i++) X[i * MX + j] -= V(s, m, n, i, k, now) * w; }
}
/* X := Q X or Q^T X, where Q is the tall-problem Q: H_0..H_{n-1} (QR) or H_{n-1}..H_0 (QL); only reflectors [k0,k1) */
static void applyQ(double *X, int c, smat *s, smat *T, int m, int n, int k0, int k1, int trans, int now) {
  int fwd = REV ? !trans : trans;     /* H_0 first? */
  for (int q = k0; q < k1; q++) { int k = fwd ? q : k1 - 1 - (q - k0); apply(X, c, s, now ? sv_g(T, k) : sv_o(T, k), m, n, k, now); }
}
static void mk_out(smat *s, const char *nm, int m, int n, int ld) { sm_alloc(s, nm, TR ? n : m, TR ? m : n, (TR ? n : m) + ld); }
#if defined(SOLVE)
/* L10: tall problem A = Q*R (QR) or A^T = Q*R (LQ: R = L^T); Q from given reflector vectors with exact scalars 2/v^Tv */
static void sym_main_solve(void) {
  static const int M[7] = {1, 3, 2, 4, 5, 6, 8}, N[7] = {1, 2, 2, 4, 3, 4, 5}, LB[3] = {0, 2, 3}; int mn = sym_choice(2, "minnorm"), sh = sym_choice(sym_tier() ? 7 : 6, "shape"), p = 1 + 2 * sym_choice(2, "cols"), cfg = sym_choice(3, "cfg"), m = M[sh], n = N[sh], id = sym_choice(3, "scalars"); smat A, T, B; armas_conf_t cf; double X[MX * MX], Y[MX * MX];
  int w = sym_choice(2, "explicit");
  cm_cfg(&cf, sym_tier() ? cfg : 0); armas_getenv()->lb = LB[cfg]; sym_config("maxeq", 0); if (cfg && p <= LB[cfg] && w) sym_skip();
  mk_out(&A, "a", m, n, 1); for (int k = 0; k < n; k++) for (int i = 0; i < m; i++) *ap(&A, i, k) = isv(m, n, i, k) ? (double)((i * 5 + k * 3 + i * k) % 5 - 2) : sym_real("r_%d_%d", i, k); sm_snap(&A);
  for (int k = 0; k < n; k++) sym_assume_ne(ao(&A, k, k), 0.0);
  sm_vecout(&T, "tau", n, 0, 0); for (int k = 0; k < n; k++) { int s = 1; for (int i = k + 1; i < m; i++) { int v = (i * 5 + k * 3 + i * k) % 5 - 2; s += v * v; } *sm_p(&T, k, 0) = id == 2 || (id == 1 && k % 2) ? 0.0 : sym_rat(2, s); } sm_snap(&T);
  sm_full(&B, "b", m, p, m + 1); for (int i = 0; i < m; i++) for (int j = 0; j < p; j++) X[i * MX + j] = sm_o(&B, i, j);
  /* qrsolve: default least squares, ARMAS_TRANS minimum norm; lqsolve: the other way round */
  int fl = (mn ^ TR) ? ARMAS_TRANS : 0, rc;
  if (w) { armas_wbuf_t wb = ARMAS_WBNULL; rc = TR ? armas_lqsolve_w(&B.m, &A.m, &T.m, fl, &wb, &cf) : armas_qrsolve_w(&B.m, &A.m, &T.m, fl, &wb, &cf); sym_check(rc == 0, "workspace query"); if (rc || !armas_walloc(&wb, wb.bytes)) return; rc = TR ? armas_lqsolve_w(&B.m, &A.m, &T.m, fl, &wb, &cf) : armas_qrsolve_w(&B.m, &A.m, &T.m, fl, &wb, &cf); armas_wrelease(&wb); }
  else rc = TR ? armas_lqsolve(&B.m, &A.m, &T.m, fl, &cf) : armas_qrsolve(&B.m, &A.m, &T.m, fl, &cf);
  sym_check(rc == 0, "return code %d", rc); if (rc) return;
  if (!mn) { applyQ(X, p, &A, &T, m, n, 0, n, 1, 0);    /* R*x = (Q^T b)_top, bottom part holds the residual components */
    for (int i = 0; i < m; i++) for (int j = 0; j < p; j++) { double s = 0; if (i < n) for (int k = i; k < n; k++) s += ao(&A, i, k) * sm_g(&B, k, j); else s = sm_g(&B, i, j); sym_eq(s, X[i * MX + j], i < n ? "R*x=(Q^T*b) [%d,%d]" : "residual component [%d,%d]", i, j); }
  } else { for (int i = 0; i < m; i++) for (int j = 0; j < p; j++) Y[i * MX + j] = sm_g(&B, i, j); applyQ(Y, p, &A, &T, m, n, 0, n, 1, 0);   /* R^T (Q^T x)_top = b, (Q^T x)_bottom = 0 */
    for (int i = 0; i < m; i++) for (int j = 0; j < p; j++) { double s = 0; if (i < n) for (int k = 0; k <= i; k++) s += ao(&A, k, i) * Y[k * MX + j]; else s = Y[i * MX + j]; sym_eq(s, i < n ? X[i * MX + j] : 0.0, i < n ? "A^T*x=b [%d,%d]" : "x in the range of A [%d,%d]", i, j); }
  }
  sm_confined(&B); sm_unchanged(&A); sm_unchanged(&T);
}
#endif
void sym_main(void) {
#if defined(SOLVE)
  sym_main_solve(); return;
#endif
  int op = sym_choice(HASQRT ? 5 : 4, "op"), qrt = op == 4, cfg = sym_choice(3, "cfg"); static const int LB[3] = {0, 2, 3}; armas_conf_t cf; smat A, T; double X[MX * MX];
  if (op == 0 || qrt) {     /* A = Q0*R, Q0 a product of rational reflectors, R symbolic */
    static const int M[10] = {1, 2, 3, 4, 4, 6, 5, 7, 6, 8}, N[10] = {1, 2, 2, 3, 4, 4, 5, 5, 6, 7};
    int sh = sym_choice(sym_tier() ? 10 : 8, "shape"), pat = sym_choice(sym_tier() ? 5 : 3, "pattern"), nn = sym_choice(2, "nonneg"), m = M[sh], n = N[sh]; if (qrt && pat > 2) sym_skip(); if (cfg && n <= LB[cfg]) sym_skip(); if (pat == 2 && m < 2) sym_skip();
    cm_cfg(&cf, sym_tier() ? cfg : 0); armas_getenv()->lb = LB[cfg]; sym_config("norm", 1); sym_config("maxeq", 0); sym_config("absfork", 1); if (nn) cf.optflags |= ARMAS_ONONNEG;
    double R[MX][MX]; static const int PV[3][7] = {{2, -1, 0, 1, 1, 0, -2}, {0, 1, 0, 0, -3, 2, 1}, {1, 1, -1, 2, 0, 1, 0}};
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { int r = REV ? i - (m - n) : i, in = REV ? r >= j : i <= j; R[i][j] = in ? sym_real("r_%d_%d", i, j) : 0.0;
      if (r == j) { if (pat == 2 && j == (REV ? 0 : n - 1)) R[i][j] = 0.0; else if ((j + pat) % 3 == 1) sym_assume_lt(R[i][j], -0.5); else sym_assume_lt(0.5, R[i][j]); } }
    /* pattern 3: tiny elements, so that the reflector is computed by scaling */
    double sc = pat == 3 ? 0x1p-990 : 1.0;
    mk_out(&A, "a", m, n, 1); sm_vecout(&T, "tau", n, 0, 0);
    for (int j = 0; j < n; j++) { double x[MX]; for (int i = 0; i < m; i++) x[i] = R[i][j] * sc;
      if (pat != 4) for (int k = n - 1; k >= 0; k--) { int v[MX], s = 0; for (int i = 0; i < m; i++) { int d = REV ? m - 1 - i : i; v[i] = d < k ? 0 : d == k ? 1 + (k + pat) % 2 : PV[pat % 3][(i * 3 + k * 2) % 7]; s += v[i] * v[i]; }
        if (pat == 1 && k % 2) continue;
        double w = 0; for (int i = 0; i < m; i++) w += v[i] * x[i]; for (int i = 0; i < m; i++) x[i] -= sym_rat(2 * v[i], s) * w; }
      for (int i = 0; i < m; i++) *ap(&A, i, j) = x[i]; }
    sm_snap(&A);
    int rc; smat BT; if (!qrt) rc = NAME(factor)(&A.m, &T.m, &cf);
#if HASQRT
    else { /* T of block reflectors: lb rows (n rows: one block), one block reflector per lb columns */
      int lb = cfg ? LB[cfg] : n; sm_alloc(&BT, "t", lb, n, lb + 1); sm_snap(&BT); rc = armas_qrtfactor(&A.m, &BT.m, &cf); sym_check(rc == 0, "return code"); if (rc) return;
      for (int k = 0; k < n; k++) { int b = k - k % lb; *sm_p(&T, k, 0) = sm_g(&BT, k - b, k); for (int i = b; i < k; i++) { double s = 0; for (int q = i; q < k; q++) { double w = 0; for (int r = 0; r < m; r++) w += V(&A, m, n, r, q, 1) * V(&A, m, n, r, k, 1); s += sm_g(&BT, i - b, q) * w; }
          sym_eq(sm_g(&BT, i - b, k), -sm_g(&BT, k - b, k) * s, "block reflector [%d,%d]", i, k); } }
      sm_confined(&BT); }
#endif
    sym_check(rc == 0, "return code"); if (rc) return;
    for (int k = 0; k < n; k++) { double t = sv_g(&T, k), s = 0; for (int i = 0; i < m; i++) s += V(&A, m, n, i, k, 1) * V(&A, m, n, i, k, 1); sym_eq(t * (t * s - 2), 0.0, "reflector %d orthogonal", k);
      if (nn) sym_le(0.0, ag(&A, vrow(m, n, k), k), "diagonal %d nonnegative", k); }
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) X[i * MX + j] = isv(m, n, i, j) ? 0.0 : ag(&A, i, j);
    applyQ(X, n, &A, &T, m, n, 0, n, 0, 1);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { if (pat == 3) sym_eq(X[i * MX + j] * 0x1p990, ao(&A, i, j) * 0x1p990, "A=Q*R [%d,%d]", i, j); else sym_eq(X[i * MX + j], ao(&A, i, j), "A=Q*R [%d,%d]", i, j); }
    sm_confined(&A); sm_confined(&T); return;
  }
  if (op == 1) {     /* every matrix of a few elements */
    static const int M[4] = {1, 2, 3, 2}, N[4] = {1, 1, 1, 2}; int sh = sym_choice(sym_tier() ? 4 : 2, "shape"), m = M[sh], n = N[sh]; if (cfg) sym_skip();
    cm_cfg(&cf, 0); armas_getenv()->lb = 0; sym_config("absfork", 1); mk_out(&A, "a", m, n, 1); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { *ap(&A, i, j) = sym_real("a_%d_%d", i, j); if (!j && m > 1) sym_assume_lt(0.5, *ap(&A, i, j)); } sm_snap(&A); sm_vecout(&T, "tau", n, 0, 0);
    int rc = NAME(factor)(&A.m, &T.m, &cf); sym_check(rc == 0, "return code"); if (rc) return;
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) X[i * MX + j] = isv(m, n, i, j) ? 0.0 : ag(&A, i, j);
    applyQ(X, n, &A, &T, m, n, 0, n, 0, 1);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) sym_eq(X[i * MX + j], ao(&A, i, j), "A=Q*R [%d,%d]", i, j);
    sm_confined(&A); sm_confined(&T); return;
  }
  /* arbitrary reflector scalars; reflector vectors symbolic (kind 0) or given integers (kind 1) */
  int kind = sym_choice(2, "kind"), sh = sym_choice(kind ? (sym_tier() ? 9 : 6) : 3, "shape"); static const int M0[3] = {3, 2, 4}, N0[3] = {2, 2, 3}, M1[9] = {5, 6, 4, 7, 8, 5, 9, 10, 8}, N1[9] = {3, 4, 4, 5, 4, 5, 6, 7, 8};
  int m = kind ? M1[sh] : M0[sh], n = kind ? N1[sh] : N0[sh]; if (cfg && n <= LB[cfg]) sym_skip();
  int fl = 0, right = 0, trans = 0, p = 0, K = 0;
  if (op == 2) { right = sym_choice(2, "right"); trans = sym_choice(2, "trans"); p = sym_choice(3, "cols") + 1; if (p == 3) p = sym_tier() ? 5 : 4; fl = (right ? ARMAS_RIGHT : ARMAS_LEFT) | (trans ? ARMAS_TRANS : 0); }
  else K = sym_choice(n, "K") + 1;
  cm_cfg(&cf, sym_tier() ? cfg : 0); armas_getenv()->lb = LB[cfg];
  mk_out(&A, "a", m, n, 1); for (int k = 0; k < n; k++) for (int i = 0; i < m; i++) if (isv(m, n, i, k)) *ap(&A, i, k) = kind ? (double)((i * 5 + k * 3 + i * k) % 5 - 2) : sym_real("v_%d_%d", i, k); sm_snap(&A);
  sm_vec(&T, "tau", n, 0, 0); sym_config("maxeq", 1); double zt = 0;
  if (op == 2) { smat C; sm_full(&C, "c", right ? p : m, right ? m : p, (right ? p : m) + 1); int lt = trans ^ TR ^ right; /* transposition of the tall Q applied from the left */
    for (int i = 0; i < m; i++) for (int j = 0; j < p; j++) X[i * MX + j] = right ? sm_o(&C, j, i) : sm_o(&C, i, j);
    int rc = NAME(mult)(&C.m, &A.m, &T.m, fl, &cf); sym_check(rc == 0, "return code"); if (rc) return;
    applyQ(X, p, &A, &T, m, n, 0, n, lt, 0);
    for (int i = 0; i < m; i++) for (int j = 0; j < p; j++) sym_eq(right ? sm_g(&C, j, i) : sm_g(&C, i, j), X[i * MX + j], "op(Q)*C [%d,%d]", i, j);
    sm_confined(&C); sm_unchanged(&A); sm_unchanged(&T);
  } else {
    int k0 = REV ? n - K : 0; (void)zt;
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) X[i * MX + j] = vrow(m, n, j) == i ? 1.0 : 0.0;
    int rc = NAME(build)(&A.m, &T.m, K, &cf); sym_check(rc == 0, "return code"); if (rc) return;
    applyQ(X, n, &A, &T, m, n, k0, k0 + K, 0, 0);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) sym_eq(ag(&A, i, j), X[i * MX + j], "Q [%d,%d]", i, j);
    sm_confined(&A); sm_unchanged(&T);
  }
}
