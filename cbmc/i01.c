/* I01: matrices as JSON, over the token functions decided by I02. PARSE: arbitrary token sequences; ROUND: written tokens read back */
#include "bmc.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "dtype.h"
#include "matrix.h"
#ifndef TKMAX
#define TKMAX 14
#endif
static int tk_t[TKMAX + 1], tk_v[TKMAX + 1], tk_n, tk_pos; static double tk_d[TKMAX + 1]; static int tk_full;
static armas_iostream_t the_ios;
/* token sources and sinks: a number is handed over as its index, decoded by the number conversions below */
static int i01_read(char *buf, size_t len, armas_iostream_t *ios) {
  CHECK(len >= 16 && ios == &the_ios, "token buffer"); if (tk_pos >= tk_n) return ARMAS_JSON_EOF;
  int k = tk_pos++, t = tk_t[k];
  if (t == ARMAS_JSON_NUMBER || t == ARMAS_JSON_INT) { buf[0] = (char)k; buf[1] = 0; return ARMAS_JSON_NUMBER; }
  if (t == ARMAS_JSON_STRING) { static const char *W[6] = {"rows", "cols", "data", "nnz", "flags", "x"}; const char *w = W[tk_v[k] >= 0 && tk_v[k] <= 5 ? tk_v[k] : 5]; for (int i = 0; i < 6; i++) { buf[i] = w[i]; if (!w[i]) break; } }
  return t;
}
static void i01_unget(void *s, int c) { (void)s; CHECK(tk_pos > 0 && tk_t[tk_pos - 1] == c, "character put back is the one read"); tk_pos--; }
static int i01_get(void *s) { (void)s; CHECK(0, "reading around the tokenizer"); return -1; }
static int i01_put(void *s, int c) { (void)s; (void)c; CHECK(0, "writing around the token writer"); return -1; }
static armas_iostream_vtable_t vt = { i01_get, i01_unget, i01_put, 0 };
static int i01_atoi(const char *b) { return tk_v[(int)b[0]]; }
static double i01_strtod(const char *b, char **e) { if (e) *e = 0; return tk_d[(int)b[0]]; }
static int i01_write(int t, const void *p, size_t len, armas_iostream_t *ios) {
  CHECK(ios == &the_ios, "stream"); if (tk_n >= tk_full) return -1; int k = tk_n++; tk_t[k] = t;
  if (t == ARMAS_JSON_STRING) { const char *s = p; tk_v[k] = len == 5 ? 4 : len == 3 ? 3 : s[0] == 'r' ? 0 : s[0] == 'c' ? 1 : s[0] == 'd' ? 2 : 5; }
  if (t == ARMAS_JSON_INT) { CHECK(len == sizeof(int), "integer size"); tk_v[k] = *(const int *)p; }
  if (t == ARMAS_JSON_NUMBER) { CHECK(len == sizeof(double), "number size"); tk_d[k] = *(const double *)p; tk_v[k] = 0; }
  return 0;
}
static int i01_simple(int t, armas_iostream_t *ios) { return i01_write(t, 0, 0, ios); }
#define armas_json_read_token i01_read
#define armas_json_write_token i01_write
#define armas_json_write_simple_token i01_simple
#define atoi i01_atoi
#define strtod i01_strtod
/* matrices of at most 3x3; the allocation itself is M01's */
static double store[16]; static int made_r, made_c, made;
static armas_dense_t *i01_init(armas_dense_t *m, int r, int c) {
  made++; made_r = r; made_c = c; m->__data = 0; m->__nbytes = 0; m->elems = 0; m->step = 0; m->rows = r < 0 ? 0 : r; m->cols = c < 0 ? 0 : c;
  if (r <= 0 || c <= 0) return m; for (int i = 0; i < 16; i++) store[i] = i < r * c ? 0.0 : -77.0; m->elems = store; m->step = r; return m;
}
#undef armas_init
#define armas_init i01_init
#undef armas_free
#define armas_free(m) ((void)(m))
#undef armas_release
#define armas_release(m) ((void)(m))
#include "io/json_base.c"
#undef armas_init
/* reference: 0 malformed, 1 null, 2 complete matrix, 3 fewer values than elements, 4 coordinates */
static int rr, rc, rend; static double want[16];
static int T(int k) { return k < tk_n ? (tk_t[k] == ARMAS_JSON_INT ? ARMAS_JSON_NUMBER : tk_t[k]) : ARMAS_JSON_EOF; }
static int reference(void) {
  int p = 0, have = 0, v[6] = {0, 0, 0, 0, 0, 0}; for (int i = 0; i < 16; i++) want[i] = 0.0;
  if (T(0) == ARMAS_JSON_NULL) { rend = 1; return 1; }
  if (T(p++) != '{') return 0;
  if (T(p) == '}') { rend = p + 1; return 1; }
  for (;;) {
    if (T(p) != ARMAS_JSON_STRING) return 0; int w = tk_v[p]; if (w < 0 || w > 4) return 0; p++; if (w != 2 && (have >> w & 1)) return 0;
    if (T(p++) != ':') return 0; if (w == 2) break;
    if (T(p) != ARMAS_JSON_NUMBER) return 0; v[w] = tk_v[p++]; have |= 1 << w;
    if (T(p++) != ',') return 0;
  }
  if ((have & 3) != 3) return 0; rr = v[0]; rc = v[1]; int n = rr > 0 && rc > 0 ? rr * rc : 0, k = 0;
  if (T(p++) != '[') return 0;
  if (n && T(p) == '[') {
    for (;;) {
      if (T(p++) != '[' || T(p) != ARMAS_JSON_NUMBER || T(p + 1) != ',' || T(p + 2) != ARMAS_JSON_NUMBER || T(p + 3) != ',' || T(p + 4) != ARMAS_JSON_NUMBER || T(p + 5) != ']') return 0;
      int i = tk_v[p], j = tk_v[p + 2]; if (i >= 0 && i < rr && j >= 0 && j < rc) want[j * rr + i] = tk_d[p + 4]; p += 6;
      if (T(p) == ']') break; if (T(p++) != ',') return 0;
    }
    p++; if (T(p++) != '}') return 0; rend = p; return 4;
  }
  for (; k < n; k++) { if (k) { if (T(p) == ']') break; if (T(p++) != ',') return 0; } if (T(p) != ARMAS_JSON_NUMBER) return 0; want[k] = tk_d[p++]; }
  if (T(p++) != ']' || T(p++) != '}') return 0; rend = p; return k < n ? 3 : 2;
}
void bmc_main(void) {
  armas_ios_init(&the_ios, &vt, &the_ios); armas_dense_t M, *A; int given = nd_in(0, 1); A = given ? &M : (armas_dense_t *)0;
#ifdef PARSE
  static const int TOK[14] = { '{', '}', '[', ']', ':', ',', ARMAS_JSON_STRING, ARMAS_JSON_NUMBER, ARMAS_JSON_NULL, ARMAS_JSON_TRUE, ARMAS_JSON_FALSE, ARMAS_JSON_EINVAL, ARMAS_JSON_E2BIG, ARMAS_JSON_EOF };
#ifdef HEAD     /* a well-formed object up to the data */
  static const int H[10] = { '{', ARMAS_JSON_STRING, ':', ARMAS_JSON_NUMBER, ',', ARMAS_JSON_STRING, ':', ARMAS_JSON_NUMBER, ',', ARMAS_JSON_STRING };
  tk_n = TKMAX; for (int k = 0; k < TKMAX; k++) { tk_t[k] = k < 10 ? H[k] : k == 10 ? ':' : k == 11 ? '[' : TOK[nd_in(0, 13)]; tk_v[k] = k == 1 ? 0 : k == 5 ? 1 : k == 9 ? 2 : nd_in(-1, VMAX); tk_d[k] = tk_v[k]; }
#ifdef COORD
  tk_t[12] = '[';
#endif
#else
  tk_n = nd_in(0, TKMAX); for (int k = 0; k < TKMAX; k++) { tk_t[k] = TOK[nd_in(0, 13)]; tk_v[k] = tk_t[k] == ARMAS_JSON_STRING ? nd_in(0, 5) : nd_in(-1, VMAX); tk_d[k] = tk_v[k]; }
#endif
  int w = reference(), r = armas_json_read(&A, &the_ios);
  CHECK(r <= 0, "return code");
  for (int i = 0; i < 16; i++) CHECK(!made || made_r <= 0 || made_c <= 0 || i < made_r * made_c || store[i] == -77.0, "no element outside the matrix written");
  if (w == 0) CHECK(r < 0, "malformed object rejected");
  if (w == 1) { CHECK(r == 0 && !made && !A, "null matrix"); CHECK(tk_pos == rend, "stream stands behind the object"); }
  if (w == 2 || w == 4) CHECK(r == 0, "well-formed object accepted");
  if (w >= 2 && r == 0) {
    CHECK(A && made == 1, "matrix made"); CHECK(A->rows == (rr > 0 ? rr : 0) && A->cols == (rc > 0 ? rc : 0), "dimensions"); CHECK(tk_pos == rend, "stream stands behind the object");
    if (rr > 0 && rc > 0) for (int i = 0; i < 9; i++) CHECK(i >= rr * rc || store[i] == want[i], "element");
  }
  if (r < 0 && !given) CHECK(!A, "no matrix returned on failure");
#else
  int rows = RM, cols = CMX, step = nd_in(1, 4), fl = FLG ? 128 : 0; ASSUME(step >= rows); static double e[16]; armas_dense_t S; for (int i = 0; i < 16; i++) e[i] = nd_in(-9, 9);
  armas_make(&S, rows, cols, step, e); int use = USE; tk_full = use ? TKMAX : nd_in(0, TKMAX);
  int total = 14 + (fl ? 4 : 0) + (rows * cols ? 2 * rows * cols - 1 : 0);
  int r = armas_json_write(&the_ios, use == 2 ? (armas_dense_t *)0 : &S, fl);
  if (use == 2) CHECK(r == 0 && tk_n == 1 && tk_t[0] == ARMAS_JSON_NULL, "null matrix written");
  else if (tk_full < total) CHECK(r < 0, "full stream reported");
  else {
    CHECK(r == 0, "written"); CHECK(tk_n == total, "number of tokens written"); if (!use) return; int q = armas_json_read(&A, &the_ios);
    CHECK(q == 0 && A, "read back"); CHECK(A->rows == rows && A->cols == cols, "dimensions read back"); CHECK(tk_pos == tk_n, "stream stands behind the object");
    for (int j = 0; j < cols; j++) for (int i = 0; i < rows; i++) CHECK(A->elems[j * A->step + i] == e[j * step + i], "element read back");
  }
  if (use == 2) { int q = armas_json_read(&A, &the_ios); CHECK(q == 0 && !A, "null read back"); }
#endif
}
