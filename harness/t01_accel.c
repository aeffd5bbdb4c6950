/* T01: products and solves by threads (SIMPLE accelerator) and by worker tasks */
#include "mat.h"
#include "accel.h"
#include "threaded/threaded.h"
#include "workers/counter.h"
#include "workers/scheduler.h"
#include "workers/workers.h"
static double opv(smat *s, int i, int j, int trans, int absf) { double v = trans ? sm_o(s, j, i) : sm_o(s, i, j); return absf ? fabs(v) : v; }
/* scheduler of the harness: runs the tasks in order, or all of them in reverse order when the last has come */
static struct armas_ac_task *tq[64]; static int ntq, rev, total, bad;
static void run(struct armas_ac_task *t) { t->func(t->args); armas_counter_decrement(t->ready); }
static int h_sched(struct armas_ac_scheduler *s, void *task) {
  struct armas_ac_task *t = task; (void)s;
  if (!ntq) total = t->ready->count;
  if (ntq >= 64) { bad = 1; return 0; }
  tq[ntq++] = t; if (!rev) run(t); else if (ntq == total) for (int i = ntq; i-- > 0;) run(tq[i]);
  return 0; }
static int h_ok(struct armas_ac_scheduler *s) { (void)s; return 0; }
static struct armas_ac_scheduler_ops hops = { h_ok, h_ok, h_ok, h_sched };
void sym_main(void) {
  int op = sym_choice(5, "op"), mode = sym_choice(3, "order"), nt = 1 + sym_choice(sym_tier() ? 6 : 4, "threads"), v = sym_choice(16, "flags"), cfg = sym_choice(2, "cfg"), shp = sym_choice(sym_tier() ? 9 : 6, "shape");
  static const int M[9] = {1, 5, 9, 13, 4, 6, 17, 21, 8}, N[9] = {3, 9, 6, 2, 12, 17, 9, 3, 18}, K[9] = {2, 3, 5, 1, 4, 2, 3, 2, 9};
  int m = M[shp], n = N[shp], k = K[shp], tile = op == 4 && cfg;
  int ta = v & 1, tb = v >> 1 & 1, up = v >> 2 & 1, right = v >> 3 & 1;
  if (op == 4 && mode == 2) sym_skip();
  if (nt == 1 && (mode || cfg)) sym_skip();
  if (!sym_tier() && nt > 1 && (mode + nt + v + shp) % 2) sym_skip();
  if ((op == 0 || op == 4) && up && !(ta || tb)) sym_skip();     /* up: conjugate form, right: absolute values */
  if (op == 0 || op == 4) { if (right && (nt & 1)) sym_skip(); }
  if (op == 1 && ta) sym_skip();
  if (op >= 2 && op < 4) { k = right ? n : m; if (k > 9) sym_skip(); }
  if (op == 3 && k > 6) sym_skip();
  sym_config("thrmode", op < 4 ? mode : 0);
  sym_config("maxeq", 1);
  armas_conf_t cf; cm_cfg(&cf, cfg);
  struct armas_ac_env *env = armas_ac_getenv(); env->max_cores = nt; env->num_items = tile ? 4 + 3 * nt : 1 + (m * n + nt - 1) / nt; env->weight = 1.0 + nt; env->options = tile ? ARMAS_OBLAS_TILED : 0;
  if (op < 4 && nt == 1) env->num_items = 1;
  armas_ac_handle_t ac = 0; int rc = armas_ac_init(&ac, "SIMPLE"); sym_check(rc == 0 && ac, "accelerator is initialised");
  cf.accel = ac;
  double alpha = sym_real("alpha"), beta = 0.0;
  if (op == 0 || op == 4) {
    smat A, B, C;
    sm_full(&A, "a", ta ? k : m, ta ? m : k, (ta ? k : m) + 1); sm_full(&B, "b", tb ? n : k, tb ? k : n, (tb ? n : k) + 2);
    beta = sym_real("beta"); sm_full(&C, "c", m, n, m + 1);
    int flags = (ta ? up ? ARMAS_CTRANSA : ARMAS_TRANSA : 0) | (tb ? up ? ARMAS_CTRANSB : ARMAS_TRANSB : 0) | (right ? ARMAS_ABSA|ARMAS_ABSB : 0);
    if (op == 0) { rc = armas_mult(beta, &C.m, alpha, &A.m, &B.m, flags, &cf); sym_check(rc == 0, "return code"); }
    else {
      struct armas_ac_scheduler s = { &hops }; struct armas_ac_blas3 args; ntq = bad = 0; rev = mode;
      armas_ac_set_blas3_args(&args, beta, &C.m, alpha, &A.m, &B.m, flags);
      rc = armas_ac_workers_mult(&args, &cf, &s);
      if (rc == -ARMAS_EIMP) { sm_unchanged(&C); sm_unchanged(&A); sm_unchanged(&B); armas_ac_release(ac); return; }
      sym_check(rc == 0 && !bad, "return code"); sym_check(ntq == total, "number of scheduled tasks");
      for (int t = 0; t < ntq; t++) for (int u = 0; u < t; u++) sym_check(tq[t] != tq[u], "every task is scheduled once");
    }
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
      double s = 0; for (int p = 0; p < k; p++) s += opv(&A, i, p, ta, right) * opv(&B, p, j, tb, right);
      sym_eq(sm_g(&C, i, j), alpha * s + beta * sm_o(&C, i, j), "C[%d,%d]", i, j);
    }
    sm_unchanged(&A); sm_unchanged(&B); sm_confined(&C);
  } else if (op == 1) {
    smat A, B, C; k = right ? n : m;
    sm_tri(&A, "a", k, k, k + 1, up, 0); sm_full(&B, "b", tb ? n : m, tb ? m : n, (tb ? n : m) + 1);
    beta = sym_real("beta"); sm_full(&C, "c", m, n, m + 1);
    rc = armas_mult_sym(beta, &C.m, alpha, &A.m, &B.m, (up ? ARMAS_UPPER : ARMAS_LOWER) | (right ? ARMAS_RIGHT : (shp & 1) ? ARMAS_LEFT : 0) | (tb ? ARMAS_TRANSB : 0), &cf);
    sym_check(rc == 0, "return code");
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
      double s = 0;
      for (int p = 0; p < k; p++) {
        double b = right ? (tb ? sm_o(&B, p, i) : sm_o(&B, i, p)) : (tb ? sm_o(&B, j, p) : sm_o(&B, p, j));
        s += right ? b * sm_symo(&A, p, j, up) : sm_symo(&A, i, p, up) * b;
      }
      sym_eq(sm_g(&C, i, j), alpha * s + beta * sm_o(&C, i, j), "C[%d,%d]", i, j);
    }
    sm_unchanged(&A); sm_unchanged(&B); sm_confined(&C);
  } else {
    int unit = tb; smat A, B;
    sm_tri(&A, "a", k, k, k + 1, up, unit); sm_full(&B, "b", m, n, m + 1);
    int flags = (up ? ARMAS_UPPER : ARMAS_LOWER) | (right ? ARMAS_RIGHT : ARMAS_LEFT) | (ta ? ARMAS_TRANSA : 0) | (unit ? ARMAS_UNIT : 0);
    if (op == 3) { if (!unit) for (int i = 0; i < k; i++) sym_assume_ne(sm_o(&A, i, i), 0.0); rc = armas_solve_trm(&B.m, alpha, &A.m, flags, &cf); }
    else rc = armas_mult_trm(&B.m, alpha, &A.m, flags, &cf);
    sym_check(rc == 0, "return code");
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
      double s = 0, x;
      for (int p = 0; p < k; p++) { x = right ? (op == 3 ? sm_g(&B, i, p) : sm_o(&B, i, p)) : (op == 3 ? sm_g(&B, p, j) : sm_o(&B, p, j)); s += right ? x * sm_trio(&A, p, j, up, unit, ta) : sm_trio(&A, i, p, up, unit, ta) * x; }
      if (op == 3) sym_eq(s, alpha * sm_o(&B, i, j), "op(A)X=alpha*B [%d,%d]", i, j); else sym_eq(sm_g(&B, i, j), alpha * s, "B[%d,%d]", i, j);
    }
    sm_unchanged(&A); sm_confined(&B);
  }
  armas_ac_release(ac);
}
