/* M01: views and element access */
#include "bmc.h"
#include "dtype.h"
#include "matrix.h"
#ifndef NMAX
#define NMAX 60
#endif
/* the element address is checked as an offset: col*step + row from the first element of the parent */
void bmc_main(void) {
  armas_dense_t B, A; int rows = nd_in(1, NMAX), cols = nd_in(1, NMAX), step = nd_in(1, 2 * NMAX); ASSUME(step >= rows);
  armas_make(&B, rows, cols, step, (double *)0);
#define OFF(p) ((long)((size_t)(p) / sizeof(double)))
#ifdef SUB
  int r = nd_in(-NMAX, NMAX), c = nd_in(-NMAX, NMAX), nr = nd_in(-2, NMAX), nc = nd_in(-2, NMAX), st = nd_in(-1, 2 * NMAX);
  long rr = r < 0 ? r + rows : r, cc = c < 0 ? c + cols : c; ASSUME(rr >= 0 && rr <= rows && cc >= 0 && cc <= cols);
  long er = nr < 0 ? rows - rr : nr, ec = nc < 0 ? cols - cc : nc; ASSUME(er <= rows - rr && ec <= cols - cc);
  int ext = nd_in(0, 1); 
  armas_dense_t *q = ext ? armas_submatrix_ext(&A, &B, r, c, nr, nc, st) : armas_submatrix(&A, &B, r, c, nr, nc);
  CHECK(q == &A, "view returned");
  CHECK(A.rows == er && A.cols == ec, "submatrix size");
  CHECK(A.step == (ext && st >= 0 ? st : step), "submatrix stride");
  CHECK(OFF(A.elems) == cc * (long)step + rr, "submatrix first element");
  armas_submatrix_unsafe(&A, &B, rr, cc, er, ec);
  CHECK(A.rows == er && A.cols == ec && A.step == step && OFF(A.elems) == cc * (long)step + rr, "unsafe submatrix");
#endif
#ifdef ROWCOL
  int r = nd_in(-NMAX, NMAX), c = nd_in(-NMAX, NMAX); ASSUME(r >= -rows && r < rows && c >= -cols && c < cols);
  long rr = r < 0 ? r + rows : r, cc = c < 0 ? c + cols : c;
  armas_row(&A, &B, r); CHECK(A.rows == 1 && A.cols == cols && A.step == step && OFF(A.elems) == rr, "row view");
  armas_column(&A, &B, c); CHECK(A.rows == rows && A.cols == 1 && A.step == step && OFF(A.elems) == cc * (long)step, "column view");
  armas_row_unsafe(&A, &B, rr); CHECK(A.rows == 1 && A.cols == cols && A.step == step && OFF(A.elems) == rr, "unsafe row view");
  armas_column_unsafe(&A, &B, cc); CHECK(A.rows == rows && A.cols == 1 && A.step == step && OFF(A.elems) == cc * (long)step, "unsafe column view");
#endif
#ifdef DIAG
  int k = nd_in(-NMAX, NMAX); ASSUME(k < cols && -k < rows);
  long n = 0, r0 = k < 0 ? -k : 0, c0 = k > 0 ? k : 0; n = rows - r0 < cols - c0 ? rows - r0 : cols - c0;
  int unsafe = nd_in(0, 1);
  if (unsafe) armas_diag_unsafe(&A, &B, k); else armas_diag(&A, &B, k);
  CHECK(A.rows == 1 && A.cols == n, "diagonal length"); CHECK(A.step == step + 1, "diagonal stride"); CHECK(OFF(A.elems) == c0 * (long)step + r0, "diagonal start");
#endif
#ifdef VEC
  int row = nd_in(0, 1); int n = nd_in(-NMAX, NMAX), len = nd_in(-1, NMAX);
  if (row) { armas_make(&B, 1, cols, step, (double *)0); } else armas_make(&B, rows, 1, step, (double *)0);
  long sz = row ? cols : rows, inc = row ? step : 1, nn = n < 0 ? n + sz : n; ASSUME(nn >= 0 && nn <= sz); long ln = len < 0 ? sz - nn : len; ASSUME(ln <= sz - nn);
  armas_subvector(&A, &B, n, len); CHECK(armas_size(&A) == ln, "subvector length"); if (ln > 0) { CHECK((row ? A.rows == 1 : A.cols == 1), "subvector orientation"); CHECK(OFF(A.elems) == nn * inc, "subvector start"); CHECK(A.step == step, "subvector stride"); }
  armas_subvector_unsafe(&A, &B, nn, ln); CHECK(armas_size(&A) == ln && (ln == 0 || (OFF(A.elems) == nn * inc && A.step == step)), "unsafe subvector");
#endif
}
