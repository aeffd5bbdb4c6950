/* K01: the BLAS compatible (Fortran and CBLAS) entry points against the definition of the reference BLAS.
 * -DL1 vector routines, -DL2 matrix-vector routines, -DL3 matrix-matrix routines */
#include "config.h"
#include "mat.h"
#include "compat.h"
typedef struct { double *b, *o; int n, inc, len; const char *name; } vec;
enum { VP = 6 };
static void v_mk(vec *v, const char *name, int n, int inc, int fill) {
  int a = inc < 0 ? -inc : inc; v->n = n; v->inc = inc; v->name = name; v->len = 2 * VP + (n > 0 ? (n - 1) * a + 1 : 0);
  v->b = malloc(sizeof(double) * v->len); v->o = malloc(sizeof(double) * v->len);
  for (int i = 0; i < v->len; i++) v->b[i] = sym_poison("%s.pad%d", name, i);
  if (fill) for (int i = 0; i < n; i++) v->b[VP + (inc < 0 ? (n - 1 - i) * a : i * a)] = sym_real("%s_%d", name, i);
  memcpy(v->o, v->b, sizeof(double) * v->len);
}
static int v_k(vec *v, int i) { return VP + (v->inc < 0 ? (v->n - 1 - i) * -v->inc : i * v->inc); }
static double v_o(vec *v, int i) { return v->o[v_k(v, i)]; }
static double v_g(vec *v, int i) { return v->b[v_k(v, i)]; }
static void v_rest(vec *v, int all) {
  for (int k = 0; k < v->len; k++) { int in = 0; if (!all) for (int i = 0; i < v->n; i++) in |= v_k(v, i) == k;
    if (!in) sym_check(sym_same(v->b[k], v->o[k]), "%s: memory at offset %d changed", v->name, k - VP); }
}
static double fab(double x) { return __builtin_fabs(x); }
static const int incs[5] = {1, 2, 3, -1, -2};
#ifdef L1
extern double blas_asumf(int *, double *, int *); extern void blas_axpyf(int *, double *, double *, int *, double *, int *);
extern void blas_copyf(int *, double *, int *, double *, int *); extern double blas_dotf(int *, double *, int *, double *, int *);
extern int blas_iamaxf(int *, double *, int *); extern double blas_nrm2f(int *, double *, int *);
extern void blas_swapf(int *, double *, int *, double *, int *); extern void blas_rotf(int *, double *, int *, double *, int *, double *, double *);
extern void blas_rotgf(double *, double *, double *, double *); extern void blas_scalf(int *, double *, double *, int *);
void sym_main(void) {
  int op = sym_choice(10, "op"), n = sym_choice(sym_tier() ? 12 : 9, "n"), ix = incs[sym_choice(5, "incx")], iy = incs[sym_choice(5, "incy")];
  armas_conf_t cf; cf_init(&cf, 64, 64, 64, 4); armas_getenv()->blas1min = 1024;
  static const char *nm[] = {"asum", "axpy", "copy", "dot", "iamax", "nrm2", "swap", "rot", "rotg", "scal"}; sym_desc("%s", nm[op]);
  int two = op == 1 || op == 2 || op == 3 || op == 6 || op == 7;
  if (!two && iy != 1) sym_skip();
  if (op == 8 && (n || ix != 1)) sym_skip();
  if (op == 5 && n > 5) sym_skip();
  if (op == 4 && n > (sym_tier() ? 9 : 7)) sym_skip();
  if (op == 8) {
    double a = sym_real("a"), b = sym_real("b"), ra = a, rb = b, c = sym_poison("c"), s = sym_poison("s");
    blas_rotgf(&ra, &rb, &c, &s);
    sym_eq(c * a + s * b, ra, "rotg: c*a + s*b == r"); sym_eq(c * b, s * a, "rotg: c*b - s*a == 0"); sym_eq(c * c + s * s, 1.0, "rotg: c^2+s^2 == 1");
    /* the rotation can be recovered from z */
    if (rb == 1.0) { sym_eq(c, 0.0, "rotg: z = 1 means c = 0"); sym_eq(s, 1.0, "rotg: z = 1 means s = 1"); }
    else if (fab(rb) < 1.0) sym_eq(s, rb, "rotg: |z| < 1 means s = z");
    else sym_eq(c * rb, 1.0, "rotg: |z| > 1 means c = 1/z");
    return;
  }
  vec X, Y; v_mk(&X, "x", n, ix, 1); if (two) v_mk(&Y, "y", n, iy, 1);
  double *x = X.b + VP, *y = two ? Y.b + VP : NULL, al = sym_real("alpha"), v;
  int neg = ix < 0;
  switch (op) {
  case 0: v = blas_asumf(&n, x, &ix); { double s = 0; if (!neg) for (int i = 0; i < n; i++) s += fab(v_o(&X, i)); sym_eq(v, s, "asum"); } v_rest(&X, 1); break;
  case 1: blas_axpyf(&n, &al, x, &ix, y, &iy); for (int i = 0; i < n; i++) sym_eq(v_g(&Y, i), v_o(&Y, i) + al * v_o(&X, i), "axpy[%d]", i); v_rest(&X, 1); v_rest(&Y, 0); break;
  case 2: blas_copyf(&n, x, &ix, y, &iy); for (int i = 0; i < n; i++) sym_eq(v_g(&Y, i), v_o(&X, i), "copy[%d]", i); v_rest(&X, 1); v_rest(&Y, 0); break;
  case 3: v = blas_dotf(&n, x, &ix, y, &iy); { double s = 0; for (int i = 0; i < n; i++) s += v_o(&X, i) * v_o(&Y, i); sym_eq(v, s, "dot"); } v_rest(&X, 1); v_rest(&Y, 1); break;
  case 4: { int k = blas_iamaxf(&n, x, &ix); v_rest(&X, 1); if (neg || !n) { sym_check(k == 0, "iamax of nothing is 0"); break; }
    sym_check(k >= 1 && k <= n, "iamax in 1..n"); if (k < 1 || k > n) break;
    double m = fab(v_o(&X, k - 1)); for (int i = 0; i < n; i++) { double a = fab(v_o(&X, i)); if (i < k - 1) sym_lt(a, m, "iamax is the first (%d)", i); else sym_le(a, m, "iamax is the maximum (%d)", i); } break; }
  case 5: v = blas_nrm2f(&n, x, &ix); { double s = 0; if (!neg) for (int i = 0; i < n; i++) s += v_o(&X, i) * v_o(&X, i); sym_eq(v * v, s, "nrm2^2"); sym_le(0.0, v, "nrm2 >= 0"); } v_rest(&X, 1); break;
  case 6: blas_swapf(&n, x, &ix, y, &iy); for (int i = 0; i < n; i++) { sym_eq(v_g(&Y, i), v_o(&X, i), "swap y[%d]", i); sym_eq(v_g(&X, i), v_o(&Y, i), "swap x[%d]", i); } v_rest(&X, 0); v_rest(&Y, 0); break;
  case 7: { double c = sym_real("c"), s = sym_real("s"); blas_rotf(&n, x, &ix, y, &iy, &c, &s);
    for (int i = 0; i < n; i++) { sym_eq(v_g(&X, i), c * v_o(&X, i) + s * v_o(&Y, i), "rot x[%d]", i); sym_eq(v_g(&Y, i), c * v_o(&Y, i) - s * v_o(&X, i), "rot y[%d]", i); } v_rest(&X, 0); v_rest(&Y, 0); break; }
  case 9: blas_scalf(&n, &al, x, &ix); for (int i = 0; i < n; i++) sym_eq(v_g(&X, i), neg ? v_o(&X, i) : al * v_o(&X, i), "scal[%d]", i); v_rest(&X, 0); break;
  }
}
#endif
#ifdef L2
extern void blas_gemvf(char *, int *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
extern void blas_gerf(int *, int *, double *, double *, int *, double *, int *, double *, int *);
extern void blas_symvf(char *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
extern void blas_syrf(char *, int *, double *, double *, int *, double *, int *);
extern void blas_syr2f(char *, int *, double *, double *, int *, double *, int *, double *, int *);
extern void blas_trmvf(char *, char *, char *, int *, double *, int *, double *, int *);
extern void blas_trsvf(char *, char *, char *, int *, double *, int *, double *, int *);
void sym_main(void) {
  int op = sym_choice(7, "op"), tr = sym_choice(6, "trans"), up = sym_choice(2, "upper"), un = sym_choice(2, "unit"), ix = incs[sym_choice(3, "incx")], iy = incs[sym_choice(3, "incy")];
  int m = 1 + sym_choice(sym_tier() ? 7 : 5, "m"), n = 1 + sym_choice(sym_tier() ? 7 : 5, "n");
  static const char *nm[] = {"gemv", "ger", "symv", "syr", "syr2", "trmv", "trsv"}; sym_desc("%s", nm[op]);
  if (op > 1 && m != n) sym_skip();
  if (op >= 1 && op <= 4 && tr) sym_skip();
  if (op < 2 && up) sym_skip();
  if (op < 5 && un) sym_skip();
  if ((op == 3 || op >= 5) && iy != 1) sym_skip();
  static const char trs[] = "NTCntc"; char T = trs[tr], Uc = (tr & 1) ? (up ? 'u' : 'l') : (up ? 'U' : 'L'), Dc = un ? 'U' : 'N'; int t = tr % 3 != 0;
  armas_conf_t cf; cm_cfg(&cf, 0);
  smat A; vec X, Y; double al = sym_real("alpha"), be = sym_real("beta"); int lda = m + 2;
  if (op < 2) sm_full(&A, "A", m, n, lda); else sm_tri(&A, "A", n, n, lda, up, un);
  double *a = A.buf + A.off;
  int xl = op == 0 ? (t ? m : n) : op == 1 ? m : n, yl = op == 0 ? (t ? n : m) : n;
  v_mk(&X, "x", xl, ix, 1); v_mk(&Y, "y", yl, iy, 1); double *x = X.b + VP, *y = Y.b + VP;
  switch (op) {
  case 0: blas_gemvf(&T, &m, &n, &al, a, &lda, x, &ix, &be, y, &iy);
    for (int i = 0; i < yl; i++) { double s = 0; for (int k = 0; k < xl; k++) s += (t ? sm_o(&A, k, i) : sm_o(&A, i, k)) * v_o(&X, k); sym_eq(v_g(&Y, i), be * v_o(&Y, i) + al * s, "y[%d]", i); }
    v_rest(&X, 1); v_rest(&Y, 0); sm_unchanged(&A); break;
  case 1: blas_gerf(&m, &n, &al, x, &ix, y, &iy, a, &lda);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) sym_eq(sm_g(&A, i, j), sm_o(&A, i, j) + al * v_o(&X, i) * v_o(&Y, j), "A[%d,%d]", i, j);
    v_rest(&X, 1); v_rest(&Y, 1); sm_confined(&A); break;
  case 2: blas_symvf(&Uc, &n, &al, a, &lda, x, &ix, &be, y, &iy);
    for (int i = 0; i < n; i++) { double s = 0; for (int k = 0; k < n; k++) s += sm_symo(&A, i, k, up) * v_o(&X, k); sym_eq(v_g(&Y, i), be * v_o(&Y, i) + al * s, "y[%d]", i); }
    v_rest(&X, 1); v_rest(&Y, 0); sm_unchanged(&A); break;
  case 3: case 4: if (op == 3) blas_syrf(&Uc, &n, &al, x, &ix, a, &lda); else blas_syr2f(&Uc, &n, &al, x, &ix, y, &iy, a, &lda);
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (up ? i <= j : i >= j)
      sym_eq(sm_g(&A, i, j), sm_o(&A, i, j) + (op == 3 ? al * v_o(&X, i) * v_o(&X, j) : al * (v_o(&X, i) * v_o(&Y, j) + v_o(&Y, i) * v_o(&X, j))), "A[%d,%d]", i, j);
    v_rest(&X, 1); v_rest(&Y, 1); sm_tri_rest_unchanged(&A, up); break;
  case 5: blas_trmvf(&Uc, &T, &Dc, &n, a, &lda, x, &ix);
    for (int i = 0; i < n; i++) { double s = 0; for (int k = 0; k < n; k++) s += sm_trio(&A, i, k, up, un, t) * v_o(&X, k); sym_eq(v_g(&X, i), s, "x[%d]", i); }
    v_rest(&X, 0); sm_unchanged(&A); break;
  case 6: blas_trsvf(&Uc, &T, &Dc, &n, a, &lda, x, &ix);
    for (int i = 0; i < n; i++) { double s = 0; for (int k = 0; k < n; k++) s += sm_trio(&A, i, k, up, un, t) * v_g(&X, k); sym_eq(s, v_o(&X, i), "x[%d]", i); }
    v_rest(&X, 0); sm_unchanged(&A); break;
  }
}
#endif
#ifdef L3
extern void blas_gemmf(char *, char *, int *, int *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
extern void blas_symmf(char *, char *, int *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
extern void blas_syrkf(char *, char *, int *, int *, double *, double *, int *, double *, double *, int *);
extern void blas_syr2kf(char *, char *, int *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
extern void blas_trmmf(char *, char *, char *, char *, int *, int *, double *, double *, int *, double *, int *);
extern void blas_trsmf(char *, char *, char *, char *, int *, int *, double *, double *, int *, double *, int *);
extern void cblas_gemm(int, int, int, int, int, int, double, double *, int, double *, int, double, double *, int);
extern void cblas_symm(const enum CBLAS_ORDER, const enum CBLAS_SIDE, const enum CBLAS_UPLO, int, int, double, double *, int, double *, int, double, double *, int);
extern void cblas_trmm(const enum CBLAS_ORDER, const enum CBLAS_SIDE, const enum CBLAS_UPLO, const enum CBLAS_TRANSPOSE, const enum CBLAS_DIAG, int, int, double, double *, int, double *, int);
extern void cblas_trsm(const enum CBLAS_ORDER, const enum CBLAS_SIDE, const enum CBLAS_UPLO, const enum CBLAS_TRANSPOSE, const enum CBLAS_DIAG, int, int, double, double *, int, double *, int);
/* a logical r-by-c matrix stored in the given order: row major storage is the column major storage of the transpose */
typedef struct { smat s; int rm; } om;
static void om_mk(om *a, const char *name, int r, int c, int pad, int rm) { a->rm = rm; sm_full(&a->s, name, rm ? c : r, rm ? r : c, (rm ? c : r) + pad); }
static void om_mktri(om *a, const char *name, int n, int pad, int rm, int up, int un) { a->rm = rm; sm_tri(&a->s, name, n, n, n + pad, rm ? !up : up, un); }
static double om_o(om *a, int i, int j) { return a->rm ? sm_o(&a->s, j, i) : sm_o(&a->s, i, j); }
static double om_g(om *a, int i, int j) { return a->rm ? sm_g(&a->s, j, i) : sm_g(&a->s, i, j); }
static double om_symo(om *a, int i, int j, int up) { return (up ? i <= j : i >= j) ? om_o(a, i, j) : om_o(a, j, i); }
static double om_trio(om *a, int i, int j, int up, int un, int t) { if (t) { int k = i; i = j; j = k; } if (i == j) return un ? 1.0 : om_o(a, i, j); return (up ? i < j : i > j) ? om_o(a, i, j) : 0.0; }
#define P(a) ((a).s.buf + (a).s.off)
#define LD(a) ((a).s.m.step)
void sym_main(void) {
  /* api: 0 Fortran, 1 CBLAS column major, 2 CBLAS row major */
  int op = sym_choice(6, "op"), api = sym_choice(3, "api"), ta = sym_choice(3, "transa"), tb = sym_choice(3, "transb"), up = sym_choice(2, "upper"), un = sym_choice(2, "unit"), rt = sym_choice(2, "right");
  int sz = sym_choice(sym_tier() ? 9 : 6, "size");
  static const int dm[9][3] = {{2, 3, 4}, {4, 2, 3}, {3, 4, 2}, {1, 3, 2}, {5, 1, 2}, {3, 3, 3}, {6, 5, 9}, {9, 6, 5}, {5, 9, 6}};
  int m = dm[sz][0], n = dm[sz][1], k = dm[sz][2];
  static const char *nm[] = {"gemm", "symm", "syrk", "syr2k", "trmm", "trsm"}; sym_desc("%s", nm[op]);
  if ((op == 2 || op == 3) && api) sym_skip();
  if (op && tb) sym_skip();
  if (op == 1 && ta) sym_skip();
  if (op == 0 && up) sym_skip();
  if (op < 4 && un) sym_skip();
  if ((op == 0 || op == 2 || op == 3) && rt) sym_skip();
  static const char trs[] = "NTC"; static const int ctr[] = {CblasNoTrans, CblasTrans, CblasConjTrans};
  char A_ = trs[ta], B_ = trs[tb], U_ = up ? 'U' : 'L', D_ = un ? 'U' : 'N', S_ = rt ? 'R' : 'L';
  int cu = up ? CblasUpper : CblasLower, cd = un ? CblasUnit : CblasNonUnit, cs = rt ? CblasRight : CblasLeft, co = api == 2 ? CblasRowMajor : CblasColMajor, rm = api == 2;
  armas_conf_t cf; cm_cfg(&cf, 0); int t = ta != 0, u = tb != 0;
  double al = sym_real("alpha"), be = sym_real("beta"); om A, B, C;
  switch (op) {
  case 0: om_mk(&A, "A", t ? k : m, t ? m : k, 1, rm); om_mk(&B, "B", u ? n : k, u ? k : n, 2, rm); om_mk(&C, "C", m, n, 3, rm);
    if (!api) blas_gemmf(&A_, &B_, &m, &n, &k, &al, P(A), &LD(A), P(B), &LD(B), &be, P(C), &LD(C)); else cblas_gemm(co, ctr[ta], ctr[tb], m, n, k, al, P(A), LD(A), P(B), LD(B), be, P(C), LD(C));
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { double s = 0; for (int l = 0; l < k; l++) s += (t ? om_o(&A, l, i) : om_o(&A, i, l)) * (u ? om_o(&B, j, l) : om_o(&B, l, j)); sym_eq(om_g(&C, i, j), be * om_o(&C, i, j) + al * s, "C[%d,%d]", i, j); }
    sm_unchanged(&A.s); sm_unchanged(&B.s); sm_confined(&C.s); break;
  case 1: om_mktri(&A, "A", rt ? n : m, 1, rm, up, 0); om_mk(&B, "B", m, n, 2, rm); om_mk(&C, "C", m, n, 3, rm);
    if (!api) blas_symmf(&S_, &U_, &m, &n, &al, P(A), &LD(A), P(B), &LD(B), &be, P(C), &LD(C)); else cblas_symm(co, cs, cu, m, n, al, P(A), LD(A), P(B), LD(B), be, P(C), LD(C));
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { double s = 0; for (int l = 0; l < (rt ? n : m); l++) s += rt ? om_o(&B, i, l) * om_symo(&A, l, j, up) : om_symo(&A, i, l, up) * om_o(&B, l, j); sym_eq(om_g(&C, i, j), be * om_o(&C, i, j) + al * s, "C[%d,%d]", i, j); }
    sm_unchanged(&A.s); sm_unchanged(&B.s); sm_confined(&C.s); break;
  case 2: case 3: om_mk(&A, "A", t ? k : n, t ? n : k, 1, 0); om_mktri(&C, "C", n, 3, 0, up, 0); if (op == 3) om_mk(&B, "B", t ? k : n, t ? n : k, 2, 0);
    if (op == 2) blas_syrkf(&U_, &A_, &n, &k, &al, P(A), &LD(A), &be, P(C), &LD(C)); else blas_syr2kf(&U_, &A_, &n, &k, &al, P(A), &LD(A), P(B), &LD(B), &be, P(C), &LD(C));
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (up ? i <= j : i >= j) { double s = 0;
      for (int l = 0; l < k; l++) { double ai = t ? om_o(&A, l, i) : om_o(&A, i, l), aj = t ? om_o(&A, l, j) : om_o(&A, j, l);
        if (op == 2) s += ai * aj; else s += ai * (t ? om_o(&B, l, j) : om_o(&B, j, l)) + aj * (t ? om_o(&B, l, i) : om_o(&B, i, l)); }
      sym_eq(om_g(&C, i, j), be * om_o(&C, i, j) + al * s, "C[%d,%d]", i, j); }
    sm_unchanged(&A.s); if (op == 3) sm_unchanged(&B.s); sm_tri_rest_unchanged(&C.s, up); break;
  case 4: case 5: om_mktri(&A, "A", rt ? n : m, 1, rm, up, un); om_mk(&B, "B", m, n, 2, rm);
    if (op == 4) { if (!api) blas_trmmf(&S_, &U_, &A_, &D_, &m, &n, &al, P(A), &LD(A), P(B), &LD(B)); else cblas_trmm(co, cs, cu, ctr[ta], cd, m, n, al, P(A), LD(A), P(B), LD(B)); }
    else { if (!api) blas_trsmf(&S_, &U_, &A_, &D_, &m, &n, &al, P(A), &LD(A), P(B), &LD(B)); else cblas_trsm(co, cs, cu, ctr[ta], cd, m, n, al, P(A), LD(A), P(B), LD(B)); }
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { double s = 0; for (int l = 0; l < (rt ? n : m); l++) { double b = rt ? (op == 4 ? om_o(&B, i, l) : om_g(&B, i, l)) : (op == 4 ? om_o(&B, l, j) : om_g(&B, l, j)); s += rt ? b * om_trio(&A, l, j, up, un, t) : om_trio(&A, i, l, up, un, t) * b; }
      if (op == 4) sym_eq(om_g(&B, i, j), al * s, "B[%d,%d]", i, j); else sym_eq(s, al * om_o(&B, i, j), "op(A)*X[%d,%d]", i, j); }
    sm_unchanged(&A.s); sm_confined(&B.s); break;
  }
}
#endif
