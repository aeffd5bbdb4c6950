/* helpers shared by the LAPACK harnesses */
#ifndef LAP_H
#define LAP_H
#include "mat.h"
/* concrete well spread values: never zero, pivot order not sorted */
static inline double cnum(int i, int j) { static const int t[13] = {3, -7, 11, 5, -2, 13, -9, 6, 17, -4, 8, -15, 10}; return t[(i * 5 + j * 7 + i * j * 3 + j * j) % 13] + (i == j ? 0.5 : 0.25 * ((i * 3 + j) % 4)); }
/* matrix with concrete columns [0,c0) and [c1,n) and symbolic columns between */
static inline void sm_mix(smat *s, const char *name, int r, int c, int ld, int c0, int c1) {
  sm_alloc(s, name, r, c, ld);
  for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) *sm_p(s, i, j) = j >= c0 && j < c1 ? sym_real("%s_%d_%d", name, i, j) : cnum(i, j);
  sm_snap(s);
}
static inline void pv_init(armas_pivot_t *P, int n) { armas_pivot_init(P, n); for (int i = 0; i < n; i++) P->indexes[i] = -999; }
static inline int imin(int a, int b) { return a < b ? a : b; }
static inline int imax(int a, int b) { return a > b ? a : b; }
/* row permutation by 1-based interchanges: perm[i] = original row now at position i */
static inline int pv_perm(armas_pivot_t *P, int k, int n, int *perm) {
  for (int i = 0; i < n; i++) perm[i] = i;
  for (int i = 0; i < k; i++) { int p = P->indexes[i] - 1; if (p < 0 || p >= n) return 0; int t = perm[i]; perm[i] = perm[p]; perm[p] = t; }
  return 1;
}
#endif
