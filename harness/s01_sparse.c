/* Sparse matrices: S01 conversions (-DCONV), S02 products (-DMV), S03 triangular (-DTRI), S04 add/multiply (-DARI), S05 incomplete factorizations (-DINC).
 * Every pattern of the small shapes and ten families of the larger ones; values symbolic.  The storage of the operands ends at an inaccessible page. */
#include "lap.h"
#include "float64/names_sparse.h"
#include "sparse.h"
#include <sys/mman.h>
#include <unistd.h>
enum { MX = 8, CSC = ARMASSP_CSC, CSR = ARMASSP_CSR, COO = ARMASSP_COO };
typedef struct { int m, n; } shp;
typedef unsigned long long pat_t;
#define BIT(p, i, j, n) (((p) >> ((i) * (n) + (j))) & 1)
static pat_t family(int f, int m, int n) {
  pat_t p = 0;
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { int b = 0;
    switch (f) { case 0: b = 1; break; case 1: b = i == j; break; case 2: b = abs(i - j) <= 1; break; case 3: b = i == j || i == m - 1 || j == n - 1; break; case 4: b = i > 0 && j > 0 && (i + j) % 3; break;
      case 5: b = (i + j) % 2 == 0; break; case 6: b = i < m - 1 && j < n - 1 && (i * 2 + j) % 3; break; case 7: b = (i * 7 + j * 5 + i * j) % 3 == 0; break; case 8: b = i + j == n - 1; break; default: b = i == m - 1 && j == n / 2; }
    if (b) p |= 1ull << (i * n + j); }
  return p;
}
/* choose a shape of the list (products up to 6: every non-empty pattern) and a pattern */
static pat_t pick(int m, int n, const char *nm) { if (m * n <= (sym_tier() ? 9 : 6)) return 1 + sym_choice((1 << (m * n)) - 1, nm); pat_t p = family(sym_choice(10, nm), m, n); if (!p) sym_skip(); return p; }
typedef struct { armas_sparse_t m; int r, c, nnz, kind; double d[MX][MX]; pat_t p; double v0[MX * MX]; int i0[3 * MX * MX]; int ni; } ssp;
static void *guarded(size_t bytes) {
  size_t pg = sysconf(_SC_PAGESIZE), tot = (bytes + pg - 1) / pg * pg; char *b = mmap(0, tot + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (b == MAP_FAILED) abort(); mprotect(b + tot, pg, PROT_NONE); return b + tot - bytes;
}
static int perm(int order, int k, int n) { return order == 0 ? k : order == 1 ? n - 1 - k : n % 3 ? (k * 3 + 1) % n : (k * 5 + 2) % n == k ? k : n % 5 ? (k * 5 + 2) % n : n - 1 - k; }
enum { REAL, POISON };
static double val_default(const char *nm, int i, int j) { return sym_real("%s_%d_%d", nm, i, j); }
static void sp_snap(ssp *S) { armas_sparse_t *A = &S->m; S->ni = 0;
  if (S->kind == COO) for (int k = 0; k < S->nnz; k++) { S->v0[k] = A->elems.ep[k].val; S->i0[S->ni++] = A->elems.ep[k].i; S->i0[S->ni++] = A->elems.ep[k].j; }
  else { for (int k = 0; k < S->nnz; k++) { S->v0[k] = A->elems.v[k]; S->i0[S->ni++] = A->ix[k]; } for (int k = 0; k <= A->nptr; k++) S->i0[S->ni++] = A->ptr[k]; } }
static void sp_unchanged(ssp *S, int vals, const char *nm) { armas_sparse_t *A = &S->m; int q = 0, ok = A->rows == S->r && A->cols == S->c && A->nnz == S->nnz && (int)A->kind == S->kind, vo = 1; sym_check(ok, "%s: dimensions or type of the operand changed", nm); if (!ok) return;
  if (S->kind == COO) for (int k = 0; k < S->nnz; k++) { vo = vo && sym_same(S->v0[k], A->elems.ep[k].val); ok = ok && S->i0[q] == A->elems.ep[k].i && S->i0[q + 1] == A->elems.ep[k].j; q += 2; }
  else { for (int k = 0; k < S->nnz; k++) { vo = vo && sym_same(S->v0[k], A->elems.v[k]); ok = ok && S->i0[q++] == A->ix[k]; } for (int k = 0; k <= A->nptr; k++) ok = ok && S->i0[q++] == A->ptr[k]; }
  sym_check(ok, "%s: structure of the operand changed", nm); if (vals) sym_check(vo, "%s: values of the operand changed", nm); }
/* stored elements in the given order (compressed: order of the elements inside a row or column) */
static void sp_fill(ssp *S, const char *nm, int r, int c, pat_t p, int kind, int order, double v[MX][MX]) {
  S->r = r; S->c = c; S->p = p; S->kind = kind; S->nnz = 0; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) S->nnz += BIT(p, i, j, c);
  size_t nb = armassp_bytes_needed(r, c, S->nnz, kind); void *b = guarded(nb); memset(b, 0, nb); sym_check(armassp_make(&S->m, r, c, S->nnz, kind, b, nb) == 0, "armassp_make failed");
  for (int i = 0; i < MX; i++) for (int j = 0; j < MX; j++) S->d[i][j] = 0;
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) if (BIT(p, i, j, c)) S->d[i][j] = v ? v[i][j] : val_default(nm, i, j);
  armas_sparse_t *A = &S->m; int k = 0;
  if (kind == COO) { int ii[MX * MX], jj[MX * MX]; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) if (BIT(p, i, j, c)) { ii[k] = i; jj[k] = j; k++; } char used[MX * MX] = {0};
    for (int q = 0; q < k; q++) { int w = perm(order, q, k); while (used[w]) w = (w + 1) % k; used[w] = 1; sym_check(armassp_append(A, ii[w], jj[w], S->d[ii[w]][jj[w]]) == 0, "append failed"); } }
  else { int n = kind == CSR ? r : c, o = kind == CSR ? c : r; for (int i = 0; i < n; i++) { A->ptr[i] = k; int idx[MX], t = 0; for (int j = 0; j < o; j++) if (kind == CSR ? BIT(p, i, j, c) : BIT(p, j, i, c)) idx[t++] = j; char used[MX] = {0};
      for (int q = 0; q < t; q++) { int w = perm(order, q, t); while (used[w]) w = (w + 1) % t; used[w] = 1; A->ix[k] = idx[w]; A->elems.v[k++] = kind == CSR ? S->d[i][idx[w]] : S->d[idx[w]][i]; } }
    A->ptr[n] = k; A->nnz = k; }
  sp_snap(S);
}
/* decode a result into D and the mask of stored positions; 0 when its structure is inconsistent */
static int sp_decode(const armas_sparse_t *A, int r, int c, int kind, int sorted, double D[MX][MX], char st[MX][MX], const char *nm) {
  memset(st, 0, MX * MX); for (int i = 0; i < MX; i++) for (int j = 0; j < MX; j++) D[i][j] = 0;
  int ok = A != 0; sym_check(ok, "%s: no result", nm); if (!ok) return 0;
  ok = A->rows == r && A->cols == c && (int)A->kind == kind; sym_check(ok, "%s: dimensions or type of the result", nm); if (!ok) return 0;
  ok = A->nnz >= 0 && A->nnz <= A->size && A->nnz <= MX * MX; sym_check(ok, "%s: element count of the result", nm); if (!ok) return 0;
  if (kind == COO) { for (int k = 0; k < A->nnz; k++) { int i = A->elems.ep[k].i, j = A->elems.ep[k].j; ok = i >= 0 && i < r && j >= 0 && j < c && !st[i][j]; sym_check(ok, "%s: index of element %d", nm, k); if (!ok) return 0; st[i][j] = 1; D[i][j] = A->elems.ep[k].val; } return 1; }
  int n = kind == CSR ? r : c, o = kind == CSR ? c : r; ok = A->nptr == n && A->ptr && A->ix && A->ptr[0] == 0 && A->ptr[n] == A->nnz; sym_check(ok, "%s: pointers of the result", nm); if (!ok) return 0;
  for (int q = 0; q < n; q++) { ok = A->ptr[q] <= A->ptr[q + 1] && A->ptr[q + 1] <= A->nnz; sym_check(ok, "%s: pointer %d", nm, q); if (!ok) return 0;
    for (int k = A->ptr[q]; k < A->ptr[q + 1]; k++) { int x = A->ix[k]; ok = x >= 0 && x < o && (!sorted || k == A->ptr[q] || A->ix[k - 1] < x); sym_check(ok, "%s: index of element %d", nm, k); if (!ok) return 0; int i = kind == CSR ? q : x, j = kind == CSR ? x : q; ok = !st[i][j]; sym_check(ok, "%s: element %d stored twice", nm, k); if (!ok) return 0; st[i][j] = 1; D[i][j] = A->elems.v[k]; } }
  return 1;
}
static double D[MX][MX]; static char st[MX][MX];
#if defined(CONV)
static void same_as(ssp *S, int trans, const char *nm) { for (int i = 0; i < S->r; i++) for (int j = 0; j < S->c; j++) { int a = trans ? j : i, b = trans ? i : j; sym_check(st[a][b] == (char)BIT(S->p, i, j, S->c), "%s: pattern at [%d,%d]", nm, a, b); if (BIT(S->p, i, j, S->c)) sym_eq(D[a][b], S->d[i][j], "%s: value at [%d,%d]", nm, a, b); } }
void sym_main(void) {
  static const shp SH[8] = {{2, 2}, {2, 3}, {3, 2}, {4, 4}, {1, 5}, {5, 1}, {5, 4}, {4, 7}};
  int op = sym_choice(9, "op"), kind = sym_choice(3, "kind"), s = sym_choice(8, "shape"), order = sym_choice(3, "order"), r = SH[s].m, c = SH[s].n; ssp S; armas_sparse_t *R; armas_conf_t cf; cm_cfg(&cf, 0);
  if (kind != COO && order && op != 4 && op != 6) sym_skip(); if ((op == 2 || op == 3) && kind == COO) sym_skip(); if (op == 7 && kind != COO) sym_skip();
  int tk = op == 0 || op == 1 ? sym_choice(2, "target") : op == 6 ? sym_choice(2, "rowcol") : 0, diag = 0; if (op == 8) { diag = sym_choice(5, "diag") - 2; if (r != c || abs(diag) >= r) sym_skip(); }
  pat_t p = pick(r, c, "pattern"); sp_fill(&S, "a", r, c, p, kind, order, 0);
  if (op == 0) { R = armassp_convert(&S.m, tk); if (sp_decode(R, r, c, tk, 1, D, st, "convert")) same_as(&S, 0, "convert"); sp_unchanged(&S, 1, "convert"); }
  else if (op == 1) { armas_sparse_t T; size_t nb = armassp_bytes_needed(r, c, S.nnz, tk); void *b = guarded(nb); memset(b, 0x3f, nb); armassp_make(&T, r, c, S.nnz, tk, b, nb); R = armassp_convert_to(&T, &S.m, tk); if (sp_decode(R, r, c, tk, 1, D, st, "convert_to")) same_as(&S, 0, "convert_to"); sp_unchanged(&S, 1, "convert_to"); }
  else if (op == 2) { R = armassp_transpose(&S.m); if (sp_decode(R, c, r, kind, 1, D, st, "transpose")) same_as(&S, 1, "transpose"); sp_unchanged(&S, 1, "transpose"); }
  else if (op == 3) { armas_sparse_t *T; R = armassp_transpose(&S.m); if (!sp_decode(R, c, r, kind, 1, D, st, "transpose")) return; T = armassp_transpose(R); if (sp_decode(T, r, c, kind, 1, D, st, "transpose twice")) same_as(&S, 0, "transpose twice"); }
  else if (op == 4) { R = armassp_mkcopy(&S.m); if (sp_decode(R, r, c, kind, 0, D, st, "copy")) same_as(&S, 0, "copy"); sp_unchanged(&S, 1, "copy"); }
  else if (op == 5) { smat A; sm_alloc(&A, "d", r, c, r + 2); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) *sm_p(&A, i, j) = sym_real("d_%d_%d", i, j); sm_snap(&A); sym_check(armassp_todense(&A.m, &S.m, &cf) == 0, "todense failed"); 
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) sym_eq(sm_g(&A, i, j), BIT(p, i, j, c) ? S.d[i][j] : sm_o(&A, i, j), "todense [%d,%d]", i, j); sm_confined(&A); sp_unchanged(&S, 1, "todense"); }
  else if (op == 6) { sym_check(armassp_sort_to(&S.m, tk ? ARMASSP_ROW_ORDER : ARMASSP_COL_ORDER) == 0, "sort failed"); if (!sp_decode(&S.m, r, c, kind, 1, D, st, "sort")) return; same_as(&S, 0, "sort"); if (kind == COO) for (int k = 1; k < S.nnz; k++) { coo_elem_t *a = &S.m.elems.ep[k - 1], *b = a + 1; sym_check(tk ? a->i < b->i || (a->i == b->i && a->j < b->j) : a->j < b->j || (a->j == b->j && a->i < b->i), "order of element %d", k); } }
  else if (op == 7) { R = armassp_new(r, c, S.nnz > 2 ? S.nnz / 2 : 1, COO); for (int k = 0; k < S.nnz; k++) { coo_elem_t *e = &S.m.elems.ep[k]; sym_check(armassp_append(R, e->i, e->j, e->val) == 0, "append %d failed", k); } if (sp_decode(R, r, c, COO, 0, D, st, "append")) same_as(&S, 0, "append"); armas_sparse_t *T = armassp_convert(R, CSR); if (sp_decode(T, r, c, CSR, 1, D, st, "append, convert")) same_as(&S, 0, "append, convert"); T = armassp_mkcopy(R); if (sp_decode(T, r, c, COO, 0, D, st, "append, copy")) same_as(&S, 0, "append, copy"); }
  else { int want = 1; for (int i = 0; i < r; i++) { int j = i + diag; if (j >= 0 && j < c && !BIT(p, i, j, c)) want = 0; } sym_check(armassp_hasdiag(&S.m, diag) == want, "hasdiag(%d)", diag); sp_unchanged(&S, 1, "hasdiag"); }
}
#elif defined(MV)
void sym_main(void) {
  static const shp SH[7] = {{2, 2}, {2, 3}, {3, 2}, {4, 4}, {5, 5}, {5, 4}, {4, 6}};
  int sy = sym_choice(3, "sym"), kind = sym_choice(2, "kind"), s = sym_choice(7, "shape"), tr = sym_choice(2, "trans"), sc = sym_choice(3, "scalars"), r = SH[s].m, c = SH[s].n; ssp S; smat X, Y; armas_conf_t cf; cm_cfg(&cf, 0); sym_config("maxeq", 0);
  if (sy && (r != c || tr)) sym_skip(); pat_t p = pick(r, c, "pattern"); double v[MX][MX]; int up = sy == 2;
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) if (BIT(p, i, j, c)) v[i][j] = sy && (up ? i > j : i < j) ? sym_poison("a_%d_%d", i, j) : sym_real("a_%d_%d", i, j);
  sp_fill(&S, "a", r, c, p, kind, 0, v); int ny = tr ? c : r, nx = tr ? r : c; sm_vec(&X, "x", nx, 0, 1); sm_vec(&Y, "y", ny, 0, 1);
  double al = sc == 1 ? 1.0 : sym_real("alpha"), be = sc == 0 ? sym_real("beta") : sc == 1 ? 1.0 : 0.0;
  int rc = sy ? armassp_mvmult_sym(be, &Y.m, al, &S.m, &X.m, up ? ARMAS_UPPER : ARMAS_LOWER, &cf) : armassp_mvmult(be, &Y.m, al, &S.m, &X.m, tr ? ARMAS_TRANS : 0, &cf);
  sym_check(rc == 0, "return code"); if (rc) return;
  for (int i = 0; i < ny; i++) { double e = be * sv_o(&Y, i); for (int j = 0; j < nx; j++) { int a = tr ? j : i, b = tr ? i : j; if (sy && (up ? a > b : a < b)) { int t = a; a = b; b = t; } if (BIT(p, a, b, c)) e += al * v[a][b] * sv_o(&X, j); } sym_eq(sv_g(&Y, i), e, "y[%d]", i); }
  sm_confined(&Y); sm_unchanged(&X); sp_unchanged(&S, 1, "A");
}
#elif defined(TRI)
void sym_main(void) {
  static const int NN[6] = {1, 2, 3, 4, 5, 6}; int solve = sym_choice(2, "solve"), kind = sym_choice(2, "kind"), up = sym_choice(2, "upper"), tr = sym_choice(2, "trans"), unit = sym_choice(2, "unit"), s = sym_choice(sym_tier() ? 6 : 5, "n"), other = sym_choice(2, "other"), n = NN[s]; ssp S; smat X; armas_conf_t cf; cm_cfg(&cf, 0); sym_config("maxeq", 0);
  pat_t p = 0; double v[MX][MX]; int al1 = sym_choice(2, "alpha"); if (other && n < 2) sym_skip();
  if (n <= 3) { int q = sym_choice(1 << (n * (n + 1) / 2), "pattern"), b = 0; for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { if ((q >> b++) & 1) p |= 1ull << (up ? j * n + i : i * n + j); } if (!p && !other) sym_skip(); }
  else { pat_t f = family(sym_choice(10, "pattern"), n, n); int dg = sym_choice(2, "diag"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if ((up ? i <= j : i >= j) && (i == j && dg ? 1 : BIT(f, i, j, n))) p |= 1ull << (i * n + j); if (!p) sym_skip(); }
  if (other) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if ((up ? i > j : i < j) && (i + 2 * j) % 3 != 1) p |= 1ull << (i * n + j);
  if (solve && !unit) for (int i = 0; i < n; i++) if (!BIT(p, i, i, n)) sym_skip();
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (BIT(p, i, j, n)) v[i][j] = (up ? i > j : i < j) || (unit && i == j) ? sym_poison("a_%d_%d", i, j) : sym_real("a_%d_%d", i, j);
  if (solve && !unit) for (int i = 0; i < n; i++) sym_assume_ne(v[i][i], 0.0);
  sp_fill(&S, "a", n, n, p, kind, 0, v); sm_vec(&X, "x", n, 0, 1); double al = al1 ? 1.0 : sym_real("alpha"); int fl = (up ? ARMAS_UPPER : ARMAS_LOWER) | (tr ? ARMAS_TRANS : 0) | (unit ? ARMAS_UNIT : 0); sym_divmode(1);
  int rc = solve ? armassp_mvsolve_trm(&X.m, al, &S.m, fl, &cf) : armassp_mvmult_trm(&X.m, al, &S.m, fl, &cf); sym_check(rc == 0, "return code"); if (rc) return;
  for (int i = 0; i < n; i++) { double e = 0; for (int j = 0; j < n; j++) { int a = tr ? j : i, b = tr ? i : j; double xx = solve ? sv_g(&X, j) : sv_o(&X, j); if (a == b && unit) e += xx; else if ((up ? a <= b : a >= b) && BIT(p, a, b, n)) e += v[a][b] * xx; }
    if (solve) sym_eq(e, al * sv_o(&X, i), "(A*x)[%d]", i); else sym_eq(sv_g(&X, i), al * e, "x[%d]", i); }
  sm_confined(&X); sp_unchanged(&S, 1, "A");
}
#elif defined(ARI)
void sym_main(void) {
  static const shp SH[6] = {{2, 2}, {2, 3}, {3, 1}, {4, 4}, {5, 3}, {3, 5}}; int mul = sym_choice(2, "mult"), kind = sym_choice(2, "kind"), ta = sym_choice(2, "transA"), tb = sym_choice(2, "transB"), s = sym_choice(6, "shape"), k = mul ? sym_choice(3, "inner") : 0, w = sym_choice(2, "to"), m = SH[s].m, n = SH[s].n; ssp A, B; armas_sparse_t *C; armas_conf_t cf; cm_cfg(&cf, 0); sym_config("maxeq", 0);
  int big = m * n > 6; k = mul ? (big ? 2 + k : 1 + k) : 0; int ar = m, ac = mul ? k : n, br = mul ? k : m, bc = n; if (ta) { int t = ar; ar = ac; ac = t; } if (tb) { int t = br; br = bc; bc = t; }
  if (!sym_tier() && (ar * ac + br * bc > 9 && ar * ac <= 6 && br * bc <= 6)) sym_skip();
  pat_t pa = pick(ar, ac, "patA"), pb = pick(br, bc, "patB"); sp_fill(&A, "a", ar, ac, pa, kind, 0, 0); sp_fill(&B, "b", br, bc, pb, kind, 0, 0); double al = sym_real("alpha"), be = mul ? 0 : sym_real("beta"); int fl = (ta ? ARMAS_TRANSA : 0) | (tb ? ARMAS_TRANSB : 0);
  if (!w) C = mul ? armassp_mult(al, &A.m, &B.m, fl, &cf) : armassp_add(al, &A.m, be, &B.m, fl, &cf);
  else { armas_wbuf_t wb = ARMAS_WBNULL; C = armassp_new(m, n, mul ? m * n : A.nnz + B.nnz, kind); int rc = mul ? armassp_multto_w(C, al, &A.m, &B.m, fl, &wb, &cf) : armassp_addto_w(C, al, &A.m, be, &B.m, fl, &wb, &cf); sym_check(rc == 0 && wb.bytes > 0, "workspace query"); if (rc || !wb.bytes) return; size_t nb = wb.bytes; wb.buf = guarded(nb); memset(wb.buf, 0x3f, nb); wb.bytes = nb; wb.offset = 0;
    rc = mul ? armassp_multto_w(C, al, &A.m, &B.m, fl, &wb, &cf) : armassp_addto_w(C, al, &A.m, be, &B.m, fl, &wb, &cf); sym_check(rc == 0, "return code"); if (rc) return; }
  if (!sp_decode(C, m, n, kind, 0, D, st, "C")) return;
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { double e = 0; int nz = 0;
    if (mul) { for (int q = 0; q < k; q++) { int a0 = ta ? q : i, a1 = ta ? i : q, b0 = tb ? j : q, b1 = tb ? q : j; if (BIT(pa, a0, a1, ac) && BIT(pb, b0, b1, bc)) { nz = 1; e += al * A.d[a0][a1] * B.d[b0][b1]; } } }
    else { int a0 = ta ? j : i, a1 = ta ? i : j, b0 = tb ? j : i, b1 = tb ? i : j; if (BIT(pa, a0, a1, ac)) { nz = 1; e += al * A.d[a0][a1]; } if (BIT(pb, b0, b1, bc)) { nz = 1; e += be * B.d[b0][b1]; } }
    if (st[i][j]) sym_eq(D[i][j], e, "C[%d,%d]", i, j); else sym_check(!nz, "C[%d,%d] missing", i, j); }
  sp_unchanged(&A, 1, "A"); sp_unchanged(&B, 1, "B");
}
#else
void sym_main(void) {
  int lu = sym_choice(2, "lu"), kind = sym_choice(2, "kind"), up = lu ? 0 : sym_choice(2, "upper"), n = 1 + sym_choice(sym_tier() ? 6 : 5, "n"), pre = sym_choice(3, "apply"); ssp S; armas_conf_t cf; pat_t p = 0; double f[MX][MX], v[MX][MX]; cm_cfg(&cf, 0); sym_config("maxeq", 0); sym_config("norm", 1);
  if (lu) { if (n <= 3) { int q = sym_choice(1 << (n * n - n), "pattern"), b = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i == j || ((q >> b++) & 1)) p |= 1ull << (i * n + j); } else { p = family(sym_choice(10, "pattern"), n, n); for (int i = 0; i < n; i++) p |= 1ull << (i * n + i); } }
  else { if (n <= 4) { int q = sym_choice(1 << (n * (n - 1) / 2), "pattern"), b = 0; for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) if (i == j || ((q >> b++) & 1)) p |= 1ull << (up ? j * n + i : i * n + j); } else { pat_t g = family(sym_choice(10, "pattern"), n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i == j || ((up ? i < j : i > j) && BIT(g, i, j, n))) p |= 1ull << (i * n + j); } }
  if (pre == 2 && lu) sym_skip();
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { f[i][j] = 0; if (BIT(p, i, j, n)) { f[i][j] = sym_real("f_%d_%d", i, j); if (i == j) { if (lu) sym_assume_ne(f[i][i], 0.0); else sym_assume_lt(0.0, f[i][i]); } } }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (BIT(p, i, j, n)) { double e = 0; for (int q = 0; q < n; q++) { if (lu) { if (q > i || q > j || (q < i && !BIT(p, i, q, n)) || !BIT(p, q, j, n)) continue; e += q == i ? f[q][j] : f[i][q] * f[q][j]; } else if (up) { if (q <= i && q <= j && BIT(p, q, i, n) && BIT(p, q, j, n)) e += f[q][i] * f[q][j]; } else if (q <= i && q <= j && BIT(p, i, q, n) && BIT(p, j, q, n)) e += f[i][q] * f[j][q]; } v[i][j] = e; }
  sp_fill(&S, "a", n, n, p, kind, 0, v); armassp_precond_t P; memset(&P, 0, sizeof P); int fl = up ? ARMAS_UPPER : ARMAS_LOWER, rc;
  rc = pre ? (lu ? armassp_init_iluz(&P, &S.m) : armassp_init_icholz(&P, &S.m, fl)) : (lu ? armassp_iluz(&S.m) : armassp_icholz(&S.m, fl)); sym_check(rc == 0, "return code"); if (rc) return;
  sp_unchanged(&S, 0, "A"); if (!sp_decode(&S.m, n, n, kind, 1, D, st, "factor")) return; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (BIT(p, i, j, n)) sym_eq(D[i][j], f[i][j], "factor [%d,%d]", i, j);
  if (!pre) return;
  smat X, Z; double t[MX], y[MX]; sm_vec(&X, "x", n, 0, 1); sm_vecout(&Z, "z", n, 0, 1); sym_config("norm", 0); sym_check(P.M == &S.m && P.precond, "preconditioner not set"); if (P.M != &S.m || !P.precond) return;
  if (pre == 1) { rc = P.precond(&Z.m, &P, &X.m, &cf); for (int i = 0; i < n; i++) { t[i] = 0; for (int j = 0; j < n; j++) { if (lu) { if (j >= i && BIT(p, i, j, n)) t[i] += f[i][j] * sv_g(&Z, j); } else { int a = up ? i : j, b = up ? j : i; if (BIT(p, a, b, n)) t[i] += f[a][b] * sv_g(&Z, j); } } }
    for (int i = 0; i < n; i++) { y[i] = lu ? t[i] : 0; for (int j = 0; j < n; j++) { if (lu) { if (j < i && BIT(p, i, j, n)) y[i] += f[i][j] * t[j]; } else { int a = up ? j : i, b = up ? i : j; if (BIT(p, a, b, n)) y[i] += f[a][b] * t[j]; } } sym_eq(y[i], sv_o(&X, i), "(M*z)[%d]", i); } }
  else { sym_check(P.partial != 0, "partial preconditioner not set"); if (!P.partial) return; int tr = 1; rc = P.partial(&Z.m, &P, &X.m, ARMAS_TRANS, &cf); (void)tr; for (int i = 0; i < n; i++) { y[i] = 0; for (int j = 0; j < n; j++) if (BIT(p, j, i, n)) y[i] += f[j][i] * sv_g(&Z, j); sym_eq(y[i], sv_o(&X, i), "(F^T*z)[%d]", i); } }
  sym_check(rc == 0, "return code"); sm_confined(&Z); sm_unchanged(&X);
}
#endif
