/* L15 Givens rotations */
#include "lap.h"
void sym_main(void) {
  int op = sym_choice(5, "op"); armas_conf_t cf; cm_cfg(&cf, 0);
  if (op == 0) { /* gvcompute: a, b arbitrary */
    int z = sym_choice(4, "zero"); double a = z & 1 ? 0.0 : sym_real("a"), b = z & 2 ? 0.0 : sym_real("b"), c = sym_poison("c"), s = sym_poison("s"), r = sym_poison("r");
    armas_gvcompute(&c, &s, &r, a, b);
    sym_eq(c * c + s * s, 1.0, "c^2+s^2=1"); sym_eq(c * a + s * b, r, "first component r"); sym_eq(c * b - s * a, 0.0, "second component 0"); return;
  }
  if (op == 1) { /* gvleft / gvright */
    int right = sym_choice(2, "right"), big = sym_choice(3, "shape"), p = sym_choice(3, "rows"); int m = 2 + big, n = 4 - big + p % 2, lim = right ? n : m, len = right ? m : n;
    int r1 = p == 0 ? 0 : p == 1 ? lim - 1 : 1, r2 = p == 0 ? lim - 1 : p == 1 ? 0 : 1, st = sym_choice(len + 1, "start"), cnt = sym_choice(len + 2, "count");
    smat A; sm_full(&A, "a", m, n, m + 1); double c = sym_real("c"), s = sym_real("s"); sym_config("maxeq", 0);
    if (right) armas_gvright(&A.m, c, s, r1, r2, st, cnt); else armas_gvleft(&A.m, c, s, r1, r2, st, cnt);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { int k = right ? j : i, q = right ? i : j; double o = sm_o(&A, i, j), e = o;
      double x = right ? sm_o(&A, i, r1) : sm_o(&A, r1, j), y = right ? sm_o(&A, i, r2) : sm_o(&A, r2, j);
      if (q >= st && q < st + cnt) { if (r1 == r2) { if (k == r1) e = c * o; } else if (k == r1) e = c * x + s * y; else if (k == r2) e = c * y - s * x; }
      sym_eq(sm_g(&A, i, j), e, "rotated element [%d,%d]", i, j); }
    sm_confined(&A); return;
  }
  if (op == 2) { /* gvrot_vec */
    int n = sym_choice(6, "n"), rx = sym_choice(2, "xrow"), ry = sym_choice(2, "yrow"); smat X, Y; sm_vec(&X, "x", n, rx, 1); sm_vec(&Y, "y", n, ry, 2); if (!n) sym_skip();
    double c = sym_real("c"), s = sym_real("s"); armas_gvrot_vec(&X.m, &Y.m, c, s);
    for (int i = 0; i < n; i++) { sym_eq(sv_g(&X, i), c * sv_o(&X, i) + s * sv_o(&Y, i), "X[%d]", i); sym_eq(sv_g(&Y, i), c * sv_o(&Y, i) - s * sv_o(&X, i), "Y[%d]", i); }
    sm_confined(&X); sm_confined(&Y); return;
  }
  if (op == 3) { double c = sym_real("c"), s = sym_real("s"), y0 = sym_real("y0"), y1 = sym_real("y1"), v0 = sym_poison("v0"), v1 = sym_poison("v1");
    armas_gvrotate(&v0, &v1, c, s, y0, y1); sym_eq(v0, c * y0 + s * y1, "v0"); sym_eq(v1, c * y1 - s * y0, "v1"); return; }
  { /* gvupdate: sequence of adjacent plane rotations */
    int right = sym_choice(2, "right"), back = sym_choice(2, "backward"), sh = sym_choice(sym_tier() ? 6 : 4, "shape"), crow = sym_choice(2, "crow"); static const int M[6] = {2, 4, 3, 5, 7, 6}, N[6] = {3, 2, 5, 4, 5, 8};
    int m = M[sh], n = N[sh], lim = right ? n : m; int st = sym_choice(lim, "start"), nrot = sym_choice(lim, "nrot"); int big = st + nrot > lim - 1;
    smat A, C, S; sm_full(&A, "a", m, n, m + 2); sm_vec(&C, "c", lim, crow, 1); sm_vec(&S, "s", lim, 0, 1); double W[8][8];
    if (nrot > 1) { *(crow ? sm_p(&C, 0, 1) : sm_p(&C, 1, 0)) = 1.0; *sm_p(&S, 1, 0) = 0.0; sm_snap(&C); sm_snap(&S); } sym_config("maxeq", 0);
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) W[i][j] = sm_o(&A, i, j);
    for (int q = 0, nr = big ? lim - 1 - st : nrot; q < nr; q++) { int t = back ? nr - 1 - q : q, k = st + t; double c = sv_o(&C, t), s = sv_o(&S, t);
      if (right) for (int i = 0; i < m; i++) { double x = W[i][k], y = W[i][k + 1]; W[i][k] = c * x + s * y; W[i][k + 1] = c * y - s * x; }
      else for (int j = 0; j < n; j++) { double x = W[k][j], y = W[k + 1][j]; W[k][j] = c * x + s * y; W[k + 1][j] = c * y - s * x; } }
    int rc = armas_gvupdate(&A.m, st, &C.m, &S.m, nrot, (right ? ARMAS_RIGHT : ARMAS_LEFT) | (back ? ARMAS_BACKWARD : ARMAS_FORWARD));
    if (big) nrot = lim - 1 - st; sym_check(rc == nrot, "number of rotations applied");
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) sym_eq(sm_g(&A, i, j), W[i][j], "A[%d,%d]", i, j);
    sm_confined(&A); sm_unchanged(&C); sm_unchanged(&S);
  }
}
