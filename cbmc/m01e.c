/* M01: element get/set on a small matrix with symbolic shape and index */
#include "bmc.h"
#include "dtype.h"
#include "matrix.h"
#ifndef N
#define N 4
#endif
static double buf[64];
void bmc_main(void) {
  armas_dense_t B; int rows = nd_in(1, N), cols = nd_in(1, N), step = nd_in(1, N + 2); ASSUME(step >= rows);
  double *e = buf + 8; for (int i = 0; i < 64; i++) buf[i] = i;
  armas_make(&B, rows, cols, step, e);
  int r = nd_in(-N, N - 1), c = nd_in(-N, N - 1); ASSUME(r >= -rows && r < rows && c >= -cols && c < cols);
  long rr = r < 0 ? r + rows : r, cc = c < 0 ? c + cols : c, k = 8 + cc * step + rr;
  CHECK(armas_get(&B, r, c) == (double)k, "get"); CHECK(armas_get_unsafe(&B, rr, cc) == (double)k, "get_unsafe");
  armas_set(&B, r, c, 1000.0);
  int how = nd_in(0, 3); long ix = nd_in(-N * N, N * N - 1), n = (long)rows * cols; ASSUME(ix >= -n && ix < n); long ii = ix < 0 ? ix + n : ix;
  for (int i = 0; i < 64; i++) CHECK(buf[i] == (i == k ? 1000.0 : (double)i), "set changes exactly one element");
  long k2 = 8 + (ii / rows) * step + ii % rows;
  buf[k] = (double)k;
  CHECK(armas_get_at(&B, (int)ix) == (double)k2, "get_at");
  if (rows == 1 || cols == 1) CHECK(armas_get_at_unsafe(&B, (int)ii) == (double)k2, "get_at_unsafe");
  if (how == 1 || (rows != 1 && cols != 1)) armas_set_at(&B, (int)ix, 2000.0); else armas_set_at_unsafe(&B, (int)ii, 2000.0);
  for (int i = 0; i < 64; i++) CHECK(buf[i] == (i == k2 ? 2000.0 : (double)i), "set_at changes exactly one element");
  CHECK(armas_index_valid(&B, ix), "index valid"); CHECK(!armas_index_valid(&B, n) && !armas_index_valid(&B, -n - 1), "index invalid");
}
