/* L11 Hessenberg (-DHESS), L12 bidiagonal (-DBD), L13 tridiagonal (-DTRD) reductions, multiplication with and generation of their orthogonal factors.
 * Wide bidiagonal problems are transposed tall problems, upper tridiagonal problems are lower ones with both index directions reversed. */
#include "lap.h"
#ifdef WS
#include "ws.h"
#endif
enum { MX = 12 };
static int TRN, FLIP, NN;
static double *ap(smat *s, int i, int j) { return FLIP ? sm_p(s, NN - 1 - i, NN - 1 - j) : TRN ? sm_p(s, j, i) : sm_p(s, i, j); }
static double ag(smat *s, int i, int j) { return *ap(s, i, j); }
static double ao(smat *s, int i, int j) { return FLIP ? sm_o(s, NN - 1 - i, NN - 1 - j) : TRN ? sm_o(s, j, i) : sm_o(s, i, j); }
static double tg(smat *t, int n, int k) { return sv_g(t, FLIP ? n - 2 - k : k); }
/* reflector vector elements: column kind, unit at row k+off; row kind (P of a bidiagonal reduction), unit at column k+1 */
static double vc(smat *s, int off, int i, int k, int now) { return i < k + off ? 0.0 : i == k + off ? 1.0 : now ? ag(s, i, k) : ao(s, i, k); }
static double vr(smat *s, int off, int i, int k, int now) { return i < k + off ? 0.0 : i == k + off ? 1.0 : now ? ag(s, k, i) : ao(s, k, i); }
typedef double (*vfun)(smat *, int, int, int, int);
/* X(m x c, element (i,j) at X[i*ri+j*rj]) := H X */
static void refl(double *X, int m, int c, int ri, int rj, const double *v, double tau) {
  for (int j = 0; j < c; j++) { double w = 0; for (int i = 0; i < m; i++) w += v[i] * X[i * ri + j * rj]; w *= tau; for (int i = 0; i < m; i++) X[i * ri + j * rj] -= v[i] * w; }
}
/* product H_0..H_{K-1} (or its transpose) times X */
static void prod(double *X, int m, int c, int ri, int rj, smat *s, smat *T, vfun f, int off, int k0, int K, int trans, int now, int n) {
  double v[MX]; for (int q = 0; q < K - k0; q++) { int k = k0 + (trans ? q : K - k0 - 1 - q); for (int i = 0; i < m; i++) v[i] = f(s, off, i, k, now); refl(X, m, c, ri, rj, v, tg(T, n, k)); }
}
static void mk_out(smat *s, const char *nm, int m, int n, int ld) { sm_alloc(s, nm, TRN ? n : m, TRN ? m : n, (TRN ? n : m) + ld); }
/* X := Q0 X, Q0 a given product of rational reflectors of the structure of the factor */
static void q0(double *X, int m, int c, int ri, int rj, int off, int K, int pat, int skip) {
  static const int PV[3][7] = {{2, -1, 0, 1, 1, 0, -2}, {0, 1, 0, 0, -3, 2, 1}, {1, 1, -1, 2, 0, 1, 0}}; double v[MX];
  for (int k = K - 1; k >= 0; k--) { if ((pat == 1 && k % 2) || (pat == 2 && k == skip)) continue; int s = 0; for (int i = 0; i < m; i++) { int e = i < k + off ? 0 : i == k + off ? 1 + (k + pat) % 2 : PV[pat % 3][(i * 3 + k * 2 + off) % 7]; v[i] = e; s += e * e; } refl(X, m, c, ri, rj, v, sym_rat(2, s)); }
}
static void orth(smat *A, smat *T, vfun f, int off, int m, int K, int n, const char *nm) { for (int k = 0; k < K; k++) { double t = tg(T, n, k), s = 0; for (int i = 0; i < m; i++) s += f(A, off, i, k, 1) * f(A, off, i, k, 1); sym_eq(t * (t * s - 2), 0.0, "reflector %s %d orthogonal", nm, k); } }
static double sgn(double x, int k) { if (k % 3 == 1) sym_assume_lt(x, -0.5); else sym_assume_lt(0.5, x); return x; }
void sym_main(void) {
  static const int LB[3] = {0, 2, 3}; int op = sym_choice(3, "op"), cfg = sym_choice(3, "cfg"); armas_conf_t cf; smat A, TQ, TP; double X[MX * MX], Y[MX * MX];
#if defined(BD)
  static const int M[9] = {2, 3, 3, 4, 5, 5, 7, 7, 8}, N[9] = {1, 2, 3, 4, 3, 5, 6, 4, 7}; int sh = sym_choice(sym_tier() ? 9 : 8, "shape"), m = M[sh], n = N[sh], wide = sym_choice(2, "wide"); TRN = wide;
#else
  int n = 2 + sym_choice(sym_tier() ? 7 : 6, "n"), m = n, sh = 0; (void)sh; NN = n;
#if defined(TRD)
  int upper = sym_choice(2, "upper"); FLIP = upper;
#endif
#endif
  if (cfg && n <= LB[cfg]) sym_skip();
  cm_cfg(&cf, sym_tier() ? cfg : 0); armas_getenv()->lb = LB[cfg];
  if (op == 0) {
    int pat = sym_choice(3, "pattern"), nn = sym_choice(2, "nonneg"); sym_config("norm", 2); sym_config("maxeq", 0); sym_config("absfork", 1); if (nn) cf.optflags |= ARMAS_ONONNEG;
    for (int i = 0; i < MX * MX; i++) X[i] = 0.0;
    mk_out(&A, "a", m, n, 1); sm_vecout(&TQ, "tauq", n, 0, 0); sm_vecout(&TP, "taup", n, 0, 0); int rc;
#if defined(BD)
    if (m == n && wide) sym_skip();
    for (int j = 0; j < n; j++) { X[j * MX + j] = pat == 2 && j == n - 1 ? 0.0 : sgn(sym_real("d_%d", j), j + pat); if (j + 1 < n) X[j * MX + j + 1] = pat == 2 && j == 0 ? 0.0 : sgn(sym_real("e_%d", j), j); }
    q0(X, m, n, MX, 1, 0, n, pat, n - 1); q0(X, n, m, 1, MX, 1, n - 1, pat, 0);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) *ap(&A, i, j) = X[i * MX + j]; sm_snap(&A);
    rc = armas_bdreduce(&A.m, wide ? &TP.m : &TQ.m, wide ? &TQ.m : &TP.m, &cf); sym_check(rc == 0, "return code"); if (rc) return;
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) X[i * MX + j] = i == j || j == i + 1 ? ag(&A, i, j) : 0.0;
    orth(&A, &TQ, vc, 0, m, n, n, "Q"); orth(&A, &TP, vr, 1, n, n - 1, n, "P");
    if (nn) for (int j = 0; j < n; j++) { sym_le(0.0, ag(&A, j, j), "diagonal %d nonnegative", j); }
    prod(X, m, n, MX, 1, &A, &TQ, vc, 0, 0, n, 0, 1, n); prod(X, n, m, 1, MX, &A, &TP, vr, 1, 0, n - 1, 0, 1, n);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) sym_eq(X[i * MX + j], ao(&A, i, j), "A=Q*B*P^T [%d,%d]", i, j);
    sm_confined(&A); sm_confined(&TQ); sm_confined(&TP); return;
#else
    for (int j = 0; j < n; j++) { X[j * MX + j] = sym_real("d_%d", j); if (j + 1 < n) X[(j + 1) * MX + j] = pat == 2 && (j == 0 || j == n - 2) ? 0.0 : sgn(sym_real("e_%d", j), j + pat); }
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++)
#if defined(TRD)
      X[i * MX + j] = X[j * MX + i];
#else
      X[i * MX + j] = (i * 3 + j) % 4 == 0 ? 0.0 : sym_real("h_%d_%d", i, j);
#endif
    q0(X, n, n, MX, 1, 1, n - 2, pat, 0); q0(X, n, n, 1, MX, 1, n - 2, pat, 0);
#if defined(TRD)
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) *ap(&A, i, j) = X[i * MX + j]; sm_snap(&A);
    rc = armas_trdreduce(&A.m, &TQ.m, upper ? ARMAS_UPPER : ARMAS_LOWER, &cf); sym_check(rc == 0, "return code"); if (rc) return;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) X[i * MX + j] = i == j || j + 1 == i ? ag(&A, i, j) : i + 1 == j ? ag(&A, j, i) : 0.0;
#else
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) *ap(&A, i, j) = X[i * MX + j]; sm_snap(&A); sm_vecout(&TQ, "tauq", n - 1, 0, 0);
    rc = armas_hessreduce(&A.m, &TQ.m, &cf); sym_check(rc == 0, "return code"); if (rc) return;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) X[i * MX + j] = i <= j + 1 ? ag(&A, i, j) : 0.0;
#endif
    orth(&A, &TQ, vc, 1, n, n - 1, n, "Q"); if (nn) for (int j = 0; j + 1 < n; j++) sym_le(0.0, ag(&A, j + 1, j), "off-diagonal %d nonnegative", j);
    prod(X, n, n, MX, 1, &A, &TQ, vc, 1, 0, n - 1, 0, 1, n); prod(X, n, n, 1, MX, &A, &TQ, vc, 1, 0, n - 1, 0, 1, n);
#if defined(TRD)
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (j <= i) sym_eq(X[i * MX + j], ao(&A, i, j), "A=Q*T*Q^T [%d,%d]", i, j); else sym_check(sym_same(ag(&A, i, j), ao(&A, i, j)), "element [%d,%d] of the unselected triangle modified", i, j); }
#else
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) sym_eq(X[i * MX + j], ao(&A, i, j), "A=Q*H*Q^T [%d,%d]", i, j);
#endif
    sm_confined(&A); sm_confined(&TQ); return;
#endif
  }
  /* arbitrary scalars */
  int isp = 0, off = 1, K = n - 1, ord = m; vfun f = vc; sym_config("maxeq", 1);
#if defined(BD)
  isp = sym_choice(2, "P"); if (isp) { f = vr; ord = n; } else { off = 0; K = n; } if (isp && n == 1) sym_skip();
#elif defined(HESS)
  if (op == 2) sym_skip();
#endif
  int tn = n, right = 0, trans = 0, p = 0, k1 = 0; if (op == 1) { right = sym_choice(2, "right"); trans = sym_choice(2, "trans"); p = sym_choice(3, "cols") + 1; if (p == 3) p = sym_tier() ? 5 : 4; } else k1 = sym_choice(K, "K") + 1;
  mk_out(&A, "a", m, n, 1); for (int k = 0; k < K; k++) for (int i = k + off + 1; i < ord; i++) *(isp ? ap(&A, k, i) : ap(&A, i, k)) = (double)((i * 5 + k * 3 + i * k) % 5 - 2); sm_snap(&A);
#if defined(HESS)
  tn = n - 1;
#endif
  sm_vec(&TQ, "tau", tn, 0, 0); int fl = 0;
#if defined(BD)
  fl |= m == n && wide ? ARMAS_LOWER : 0;
#elif defined(TRD)
  fl |= upper ? ARMAS_UPPER : ARMAS_LOWER;
#endif
  if (op == 1) {
    int rc; smat C; sm_full(&C, "c", right ? p : ord, right ? ord : p, (right ? p : ord) + 1);
    for (int i = 0; i < ord; i++) for (int j = 0; j < p; j++) X[i * MX + j] = right ? sm_o(&C, j, FLIP ? ord - 1 - i : i) : sm_o(&C, FLIP ? ord - 1 - i : i, j);
    fl |= (right ? ARMAS_RIGHT : ARMAS_LEFT) | (trans ? ARMAS_TRANS : 0);
#if defined(BD)
    rc = armas_bdmult(&C.m, &A.m, &TQ.m, fl | ((isp ^ wide) ? ARMAS_MULTP : ARMAS_MULTQ), &cf);
#elif defined(TRD)
    rc = armas_trdmult(&C.m, &A.m, &TQ.m, fl, &cf);
#else
    rc = armas_hessmult(&C.m, &A.m, &TQ.m, fl, &cf);
#endif
    sym_check(rc == 0, "return code %d", rc); if (rc) return;
    prod(X, ord, p, MX, 1, &A, &TQ, f, off, 0, K, trans ^ right, 0, n);
    for (int i = 0; i < ord; i++) for (int j = 0; j < p; j++) { int q = FLIP ? ord - 1 - i : i; sym_eq(right ? sm_g(&C, j, q) : sm_g(&C, q, j), X[i * MX + j], "op(Q)*C [%d,%d]", i, j); }
    sm_confined(&C); sm_unchanged(&A); sm_unchanged(&TQ); return;
  }
#if !defined(HESS)
  { int rc; (void)Y;
    for (int i = 0; i < ord; i++) for (int j = 0; j < n; j++) X[i * MX + j] = i == j ? 1.0 : 0.0;
#if defined(BD)
    rc = armas_bdbuild(&A.m, &TQ.m, k1, fl | ((isp ^ wide) ? ARMAS_WANTP : ARMAS_WANTQ), &cf);
#else
    rc = armas_trdbuild(&A.m, &TQ.m, k1, fl, &cf);
#endif
    sym_check(rc == 0, "return code %d", rc); if (rc) return;
    prod(X, ord, n, MX, 1, &A, &TQ, f, off, 0, k1, 0, 0, n);
    for (int i = 0; i < ord; i++) for (int j = 0; j < n; j++) sym_eq(isp ? ag(&A, j, i) : ag(&A, i, j), X[i * MX + j], "Q [%d,%d]", i, j);
    sm_confined(&A); sm_unchanged(&TQ); }
#endif
}
