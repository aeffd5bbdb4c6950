/* E01: extended precision vector operations */
#include "mat.h"
extern int armas_ext_sum(DTYPE *result, DTYPE alpha, const armas_dense_t *X, int flags, armas_conf_t *cf);
void sym_main(void) {
  int op = sym_choice(4, "op"), ox = sym_choice(2, "xrow"), oy = sym_choice(2, "yrow"), n = sym_choice(sym_tier() ? 20 : 14, "n"), sc = sym_choice(3, "alpha");
  armas_conf_t cf; cm_cfg(&cf, 0);
  if (op < 2 && oy) sym_skip();
  smat X, Y; double v = 0, alpha = sc == 2 ? sym_real("alpha") : sc == 1 ? 1.0 : -1.0, beta; int rc;
  if (op == 1) sym_config("absfork", 0);
  sm_vec(&X, "x", n, ox, 2); if (op >= 2) sm_vec(&Y, "y", n, oy, 3);
  switch (op) {
  case 0: case 1: rc = armas_ext_sum(&v, alpha, &X.m, op ? ARMAS_ABS : 0, &cf); { double s = 0; for (int i = 0; i < n; i++) { double a = sv_o(&X, i); s += op ? __builtin_fabs(a) : a; } sym_eq(v, alpha * s, op ? "asum" : "sum"); } break;
  case 2: rc = armas_ext_adot(&v, alpha, &X.m, &Y.m, &cf); { double s = 0; for (int i = 0; i < n; i++) s += sv_o(&X, i) * sv_o(&Y, i); sym_eq(v, alpha * s, "adot"); } sm_unchanged(&Y); break;
  default: beta = sc == 2 ? sym_real("beta") : sc; rc = armas_ext_axpby(beta, &Y.m, alpha, &X.m, &cf); for (int i = 0; i < n; i++) sym_eq(sv_g(&Y, i), beta * sv_o(&Y, i) + alpha * sv_o(&X, i), "axpby[%d]", i); sm_confined(&Y); break;
  }
  sm_unchanged(&X); sym_check(rc == 0, "return code");
}
