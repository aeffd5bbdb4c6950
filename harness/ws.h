/* L20: included after lap.h in a harness compiled with -DWS. Routine calls go to the explicit-workspace variants with a workspace
 * between guard zones, of the queried size or smaller; everything else in the harness (its oracle) stays. */
#ifndef WS_H
#define WS_H
#include <setjmp.h>
static int WSM; static jmp_buf ws_out; static double *ws_buf; static int ws_len, ws_g = 16;
static struct { const armas_dense_t *m; armas_dense_t v; double *s; } ws_op[3];
static void ws_ops(const armas_dense_t *a, const armas_dense_t *b, const armas_dense_t *c) {
  const armas_dense_t *o[3] = {a, b, c};
  for (int k = 0; k < 3; k++) { ws_op[k].m = o[k]; if (!o[k]) continue; ws_op[k].v = *o[k]; int r = o[k]->rows, n = o[k]->cols; ws_op[k].s = (double *)malloc(sizeof(double) * (r * n + 1)); for (int j = 0; j < n; j++) for (int i = 0; i < r; i++) ws_op[k].s[j * r + i] = o[k]->elems[j * o[k]->step + i]; }
}
static void ws_same(const char *when) {
  for (int k = 0; k < 3; k++) { const armas_dense_t *m = ws_op[k].m; if (!m) continue; for (int j = 0; j < m->cols; j++) for (int i = 0; i < m->rows; i++) sym_check(sym_same(m->elems[j * m->step + i], ws_op[k].s[j * m->rows + i]), "operand %d unchanged %s [%d,%d]", k, when, i, j); }
}
static void ws_query(int rc, armas_wbuf_t *wb) {
  sym_check(rc == 0 && wb->bytes % sizeof(double) == 0, "workspace query rc %d bytes %d", rc, (int)wb->bytes); ws_same("by the workspace query"); if (rc || !wb->bytes) longjmp(ws_out, 1);
  int need = wb->bytes / sizeof(double), off = WSM == 1 ? 2 : 0, n = WSM < 2 ? need : WSM == 2 ? need - 1 : WSM == 3 ? need / 2 : 1; if (n < 1 || (WSM == 4 && need <= 2)) longjmp(ws_out, 1);
  ws_len = 2 * ws_g + off + n; ws_buf = (double *)malloc(sizeof(double) * ws_len); for (int i = 0; i < ws_len; i++) ws_buf[i] = sym_poison("w%d", i);
  wb->buf = (char *)(ws_buf + ws_g); wb->bytes = (off + n) * sizeof(double); wb->offset = off * sizeof(double);
}
static void ws_done(int rc, armas_wbuf_t *wb) {
  for (int i = 0; i < ws_len; i++) if (i < ws_g + (WSM == 1 ? 2 : 0) || i >= ws_len - ws_g) sym_check(sym_is_poison(ws_buf[i]), "memory outside the workspace touched at element %d of %d", i - ws_g, ws_len - 2 * ws_g);
  sym_check(wb->offset == (WSM == 1 ? 2 : 0) * sizeof(double), "workspace reservations released");
  if (WSM < 2) sym_check(rc == 0, "queried workspace size is sufficient");
  else if (rc < 0) { ws_same("after rejection of a small workspace"); longjmp(ws_out, 1); }
}
#define WS3(a, b, d, call) ({ armas_wbuf_t wb = ARMAS_WBNULL; ws_ops(a, b, d); int rc_ = (call); ws_query(rc_, &wb); rc_ = (call); ws_done(rc_, &wb); rc_; })
#undef armas_bkfactor
#define armas_bkfactor(A, P, f, c) WS3(A, 0, 0, armas_bkfactor_w(A, P, f, &wb, c))
#undef armas_ldlfactor
#define armas_ldlfactor(A, P, f, c) WS3(A, 0, 0, armas_ldlfactor_w(A, P, f, &wb, c))
#undef armas_luinverse
#define armas_luinverse(A, P, c) WS3(A, 0, 0, armas_luinverse_w(A, P, &wb, c))
#undef armas_cholinverse
#define armas_cholinverse(A, f, c) WS3(A, 0, 0, armas_cholinverse_w(A, f, &wb, c))
#undef armas_ldlinverse
#define armas_ldlinverse(A, P, f, c) WS3(A, 0, 0, armas_ldlinverse_w(A, P, f, &wb, c))
#undef armas_qrfactor
#define armas_qrfactor(A, t, c) WS3(A, 0, 0, armas_qrfactor_w(A, t, &wb, c))
#undef armas_lqfactor
#define armas_lqfactor(A, t, c) WS3(A, 0, 0, armas_lqfactor_w(A, t, &wb, c))
#undef armas_qlfactor
#define armas_qlfactor(A, t, c) WS3(A, 0, 0, armas_qlfactor_w(A, t, &wb, c))
#undef armas_rqfactor
#define armas_rqfactor(A, t, c) WS3(A, 0, 0, armas_rqfactor_w(A, t, &wb, c))
#undef armas_qrtfactor
#define armas_qrtfactor(A, t, c) WS3(A, 0, 0, armas_qrtfactor_w(A, t, &wb, c))
#undef armas_qrmult
#define armas_qrmult(C, A, t, f, c) WS3(C, A, t, armas_qrmult_w(C, A, t, f, &wb, c))
#undef armas_lqmult
#define armas_lqmult(C, A, t, f, c) WS3(C, A, t, armas_lqmult_w(C, A, t, f, &wb, c))
#undef armas_qlmult
#define armas_qlmult(C, A, t, f, c) WS3(C, A, t, armas_qlmult_w(C, A, t, f, &wb, c))
#undef armas_rqmult
#define armas_rqmult(C, A, t, f, c) WS3(C, A, t, armas_rqmult_w(C, A, t, f, &wb, c))
#undef armas_qrbuild
#define armas_qrbuild(A, t, k, c) WS3(A, t, 0, armas_qrbuild_w(A, t, k, &wb, c))
#undef armas_lqbuild
#define armas_lqbuild(A, t, k, c) WS3(A, t, 0, armas_lqbuild_w(A, t, k, &wb, c))
#undef armas_qlbuild
#define armas_qlbuild(A, t, k, c) WS3(A, t, 0, armas_qlbuild_w(A, t, k, &wb, c))
#undef armas_rqbuild
#define armas_rqbuild(A, t, k, c) WS3(A, t, 0, armas_rqbuild_w(A, t, k, &wb, c))
#undef armas_qrsolve
#define armas_qrsolve(B, A, t, f, c) WS3(B, A, t, armas_qrsolve_w(B, A, t, f, &wb, c))
#undef armas_lqsolve
#define armas_lqsolve(B, A, t, f, c) WS3(B, A, t, armas_lqsolve_w(B, A, t, f, &wb, c))
#undef armas_hessreduce
#define armas_hessreduce(A, t, c) WS3(A, 0, 0, armas_hessreduce_w(A, t, &wb, c))
#undef armas_trdreduce
#define armas_trdreduce(A, t, f, c) WS3(A, 0, 0, armas_trdreduce_w(A, t, f, &wb, c))
#undef armas_bdreduce
#define armas_bdreduce(A, t, u, c) WS3(A, 0, 0, armas_bdreduce_w(A, t, u, &wb, c))
#undef armas_hessmult
#define armas_hessmult(C, A, t, f, c) WS3(C, A, t, armas_hessmult_w(C, A, t, f, &wb, c))
#undef armas_trdmult
#define armas_trdmult(C, A, t, f, c) WS3(C, A, t, armas_trdmult_w(C, A, t, f, &wb, c))
#undef armas_bdmult
#define armas_bdmult(C, A, t, f, c) WS3(C, A, t, armas_bdmult_w(C, A, t, f, &wb, c))
#undef armas_bdbuild
#define armas_bdbuild(A, t, k, f, c) WS3(A, t, 0, armas_bdbuild_w(A, t, k, f, &wb, c))
#undef armas_trdbuild
#define armas_trdbuild(A, t, k, f, c) WS3(A, t, 0, armas_trdbuild_w(A, t, k, f, &wb, c))
/* quick tier: fewer values of the choices that do not concern workspaces */
static int ws_choice(int n, const char *nm) {
  if (!strcmp(nm, "pattern") || !strcmp(nm, "nonneg") || !strcmp(nm, "scalars") || !strcmp(nm, "explicit") || !strcmp(nm, "layout")) return sym_choice(1, nm);
  if (!sym_tier() && (!strcmp(nm, "shape") || !strcmp(nm, "n")) && n > 3) { int k = sym_choice(3, nm); return k == 0 ? n / 2 : k == 1 ? n - 2 : n - 1; }
  return sym_choice(n, nm);
}
#define sym_choice ws_choice
static void ws_main(void);
void sym_main(void) { WSM = (sym_choice)(5, "ws"); if (!setjmp(ws_out)) ws_main(); }
#define sym_main ws_main
#endif
