/* L05: armas_bkfactor, armas_bksolve */
#include "lap.h"
#ifdef WS
#include "ws.h"
#endif
/* pattern of concrete values: tenths are exact rationals */
static int pat(int k, int i, int j) {
  int v = (i * 7 + j * 7 + i * j * 3 + k * 5) % 13 - 6; if (i != j) { if (k == 1 && (i + j) % 2 == 0) return 0; if (k == 3) return (i - j == 1 || j - i == 1) ? 8 + (i + j) % 3 : v / 3; return v == 0 ? 2 : v; }
  switch (k) { case 0: return v; case 1: case 3: return 0; case 2: return i % 2 ? 30 : -1; case 4: return i % 3 == 0 ? 25 : 0; case 5: return i % 4 < 2 ? 1 : -9; default: return (i * i * 5 + k) % 11 - 5; }
}
static int singular(int k, int n) {     /* of the integer pattern, by fraction free elimination */
  __int128 m[12][12], prev = 1; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m[i][j] = i < j ? pat(k, i, j) : pat(k, j, i);
  for (int c = 0; c < n; c++) { int p = c; while (p < n && !m[p][c]) p++; if (p == n) return 1; if (p != c) for (int j = 0; j < n; j++) { __int128 t = m[p][j]; m[p][j] = m[c][j]; m[c][j] = t; }
    for (int i = c + 1; i < n; i++) for (int j = c + 1; j < n; j++) m[i][j] = (m[i][j] * m[c][c] - m[i][c] * m[c][j]) / prev;
    prev = m[c][c]; }
  return 0;
}
void sym_main(void) {
  int mode = sym_choice(3, "mode"), cfg = sym_choice(sym_tier() ? 5 : 4, "cfg"), up = sym_choice(2, "upper"), fl = up ? ARMAS_UPPER : ARMAS_LOWER; static const int LB[5] = {0, 2, 3, 1, 4};
  int n, k = 0, r = 1; sym_config("norm", 1); sym_config("maxeq", 0);
  if (mode == 0) { n = sym_choice(sym_tier() ? 10 : 8, "n") + 1; k = sym_choice(sym_tier() ? 12 : 8, "pattern"); r = 1 + (n + k) % 2; }
  else if (mode == 1) { n = sym_choice(3, "n") + 3; k = sym_choice(sym_tier() ? 8 : 5, "pattern"); }
  else { n = sym_choice(3, "n") + 1; }
  if (cfg && n <= LB[cfg]) sym_skip();
  if (mode < 2 && singular(k, n)) sym_skip();
  armas_conf_t cf; cm_cfg(&cf, 0); armas_getenv()->lb = LB[cfg];
  smat A, B; sm_alloc(&A, "a", n, n, n + (n & 1));
  double S[12][12];
  if (mode == 2) {
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) S[i][j] = S[j][i] = sym_real("a_%d_%d", i, j);
    sym_assume_ne(n == 1 ? S[0][0] : n == 2 ? S[0][0] * S[1][1] - S[0][1] * S[0][1] : S[0][0] * (S[1][1] * S[2][2] - S[1][2] * S[1][2]) - S[0][1] * (S[0][1] * S[2][2] - S[1][2] * S[0][2]) + S[0][2] * (S[0][1] * S[1][2] - S[1][1] * S[0][2]), 0.0);
  } else {
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) S[i][j] = S[j][i] = sym_rat(pat(k, j, i), 10);
    if (mode == 1) { int p = (k + n) % n, q = (k * 2 + 1) % n; double t = sym_real("t"); sym_assume_lt(-0.0625, t); sym_assume_lt(t, 0.0625); S[p][q] = S[p][q] + t; if (p != q) S[q][p] = S[p][q]; }
  }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (up ? i <= j : i >= j) *sm_p(&A, i, j) = S[i][j];
  sm_snap(&A);
  if (mode == 1 && n > 3) { sm_alloc(&B, "b", n, r, n + 1); for (int i = 0; i < n; i++) *sm_p(&B, i, 0) = sym_rat((i * 5 + k) % 7 - 3, 1); sm_snap(&B); } else sm_full(&B, "b", n, r, n + 1);
  armas_pivot_t P; pv_init(&P, n);
  int rc = armas_bkfactor(&A.m, &P, fl, &cf); sym_check(rc == 0, "bkfactor return code"); sm_tri_rest_unchanged(&A, up);
  for (int i = 0; i < n; i++) { int p = P.indexes[i], q = p < 0 ? -p : p; int ok = p != 0 && q <= n; sym_check(ok, "pivot index %d valid", i); if (!ok) return; }
  smat A2; sm_alloc(&A2, "f", n, n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (up ? i <= j : i >= j) *sm_p(&A2, i, j) = sm_g(&A, i, j);
  sm_snap(&A2);
  rc = armas_bksolve(&B.m, &A2.m, &P, fl, &cf); sym_check(rc == 0, "bksolve return code");
  sm_unchanged(&A2); sm_confined(&B);
  for (int j = 0; j < r; j++) for (int i = 0; i < n; i++) { double s = 0; for (int p = 0; p < n; p++) s += S[i][p] * sm_g(&B, p, j); sym_eq(s, sm_o(&B, i, j), "A*X=B [%d,%d]", i, j); }
  armas_pivot_release(&P);
}
