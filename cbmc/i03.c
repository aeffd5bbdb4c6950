/* I03: MatrixMarket files. The C library's streams are replaced by a queue of lines of fields (integers, values, junk, comments); the banner line keeps its bytes.
   ROUND: dumped (and cut anywhere) and loaded; PARSE: arbitrary lines behind a given banner */
#include "bmc.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <ctype.h>
#include <stdarg.h>
#ifdef DENSE
#include "dtype.h"
#include "matrix.h"
#define COORD_OUT 2
#else
#include "spdefs.h"
#include "matrix.h"
#ifdef __CPROVER
#define union struct /* the value and the element pointer are never used for one another; CBMC loses a pointer written to a union */
#endif
#include "sparse.h"
#undef union
#define COORD_OUT 0
#endif
#ifndef NL
#define NL 12
#endif
#ifndef NV
#define NV 10
#endif
enum { INT = 1, VAL, JUNK };
typedef struct { int nf, com, k[4], v[4]; double d[4]; } line_t;
static line_t ln[NL]; static int nl, rd, open_line, seen; static char hb[96]; static int hn, hr; static char lbuf[12]; static char filemark; static FILE *const the_file = (FILE *)&filemark;
static int put(char c) {
  if (!seen) { if (hn < 95) hb[hn] = c; hn++; if (c == '\n') seen = 1; return 1; }
  if (c == '\n') { if (!open_line) { CHECK(nl < NL, "harness: lines"); ln[nl].nf = 0; ln[nl].com = 0; } open_line = 0; nl++; return 1; }
  if (c == ' ') return 1;
  if (!open_line) { CHECK(nl < NL, "harness: lines"); open_line = 1; ln[nl].nf = 0; ln[nl].com = 0; }
  if (c == '%' && !ln[nl].nf) ln[nl].com = 1; else { CHECK(ln[nl].nf < 4, "fields"); ln[nl].k[ln[nl].nf++] = JUNK; }
  return 1;
}
static int field(int kind, int v, double d) { put('x'); line_t *l = &ln[nl]; l->k[l->nf - 1] = kind; l->v[l->nf - 1] = v; l->d[l->nf - 1] = d; return 3; }
static int i03_fprintf(FILE *f, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); CHECK(f == the_file, "file"); int n = 0;
  for (int i = 0; fmt[i]; i++) {
    if (fmt[i] != '%') { n += put(fmt[i]); continue; }
    i++; if (fmt[i] == '%') n += put('%');
    else if (fmt[i] == 'd') n += field(INT, va_arg(ap, int), 0);
    else if (fmt[i] == 's') { const char *s = va_arg(ap, const char *); for (int k = 0; s[k]; k++) n += put(s[k]); }
    else { while (fmt[i] && fmt[i] != 'e' && fmt[i] != 'g' && fmt[i] != 'f') i++; n += field(VAL, 0, va_arg(ap, double)); }
  }
  va_end(ap); return n;
}
static char *i03_fgets(char *b, int n, FILE *f) { CHECK(f == the_file && n >= 80 && !hr, "the banner is read once"); hr = 1; if (!hn) return 0; for (int i = 0; i < hn; i++) b[i] = hb[i]; b[hn] = 0; return b; }
static line_t *cur; /* the line now in lbuf */
static long i03_getline(char **b, size_t *n, FILE *f) {
  CHECK(f == the_file && hr, "file"); *b = lbuf; *n = 12;
  int r = rd++; if (r >= nl || r >= NL) { cur = 0; return -1; }
  line_t *l = &ln[r]; cur = l; int k = 0; if (l->com) lbuf[k++] = '%';
  for (int i = 0; i < 4; i++) { if (i >= l->nf) break; lbuf[k++] = l->k[i] == JUNK ? 'z' : l->v[i] < 0 ? '-' : '1'; lbuf[k++] = ' '; }
  lbuf[k++] = '\n'; lbuf[k] = 0; return k;
}
static int at(const char *s) { CHECK(cur && s >= lbuf && s < lbuf + 12, "text scanned is the line read"); int i = (int)(s - lbuf); return cur->com ? 9 : (i + 1) / 2; }
static long i03_strtol(const char *s, char **e, int base) { int i = at(s); long v = 0; const char *p = s; if (i < cur->nf && cur->k[i] == INT) { v = cur->v[i]; p = lbuf + 2 * i + 1; } if (e) *e = (char *)p; return v; }
static double i03_strtod(const char *s, char **e) { int i = at(s); double v = 0; const char *p = s; if (i < cur->nf && cur->k[i] != JUNK) { v = cur->k[i] == INT ? cur->v[i] : cur->d[i]; p = lbuf + 2 * i + 1; } if (e) *e = (char *)p; return v; }
static int i03_sscanf(const char *s, const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); int n = 0, j = at(s); if (j >= cur->nf) return cur->com ? 0 : -1;
  for (int i = 0; fmt[i]; i++) {
    if (fmt[i] == ' ') continue;
    CHECK(fmt[i] == '%', "scan format"); i++; if (j >= cur->nf || cur->k[j] == JUNK) break;
    if (fmt[i] == 'd') { if (cur->k[j] != INT) { if (cur->k[j] == VAL) *va_arg(ap, int *) = (int)cur->d[j], n++; break; } *va_arg(ap, int *) = cur->v[j]; n++; j++; }
    else { CHECK(fmt[i] == 'l' && fmt[i + 1] == 'f', "scan format"); i++; *va_arg(ap, double *) = cur->k[j] == INT ? cur->v[j] : cur->d[j]; n++; j++; }
  }
  va_end(ap); return n;
}
static char *i03_strsep(char **s, const char *d) { char *b = *s, *p; if (!b) return b; for (p = b; *p; p++) if (*p == d[0]) { *p = 0; *s = p + 1; return b; } *s = 0; return b; }
static int i03_strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return 1; if (!a[i]) return 0; } return 0; }
static char *i03_strchr(char *s, int c) { for (; *s; s++) if (*s == c) return s; return 0; }
#undef tolower
#undef isspace
#undef isdigit
#define tolower(c) ((c) >= 'A' && (c) <= 'Z' ? (c) + 32 : (c))
#define isspace(c) ((c) == ' ' || (c) == '\n' || (c) == '\t')
#define isdigit(c) ((c) >= '0' && (c) <= '9')
#undef strsep
#undef strncmp
#undef strchr
#define strsep i03_strsep
#define strncmp i03_strncmp
#define strchr i03_strchr
#define fprintf i03_fprintf
#define fgets i03_fgets
#define getline i03_getline
#define sscanf i03_sscanf
#define strtol i03_strtol
#define strtod i03_strtod
#define free(p) ((void)(p))
static void text(const char *s) { for (int i = 0; s[i]; i++) put(s[i]); }
/* reference reading of the lines: 1 well formed, 0 malformed, 2 left open */
static int e_r[NV], e_c[NV], e_n, b_r, b_c, b_nz; static double e_v[NV];
static int body(int coord, int sym) {
  int p = 0, nd = coord ? 3 : 2; line_t *l; e_n = 0;
  for (int i = 0; i < NL; i++) { if (i >= nl) break; if (ln[i].nf == 0 && !ln[i].com) return 2; for (int q = 0; q < 4; q++) if (q < ln[i].nf && !ln[i].com && ln[i].k[q] == VAL && q < 2 && (coord || ln[i].nf > 1)) return 2; }
  for (int i = 0; i < NL; i++) { if (p < nl && ln[p].com) p++; else break; }
  if (p >= nl) return 0; l = &ln[p++];
  for (int q = 0; q < 3; q++) if (q < nd && (l->nf <= q || l->k[q] != INT || l->v[q] < 0)) return l->nf > q && l->k[q] == VAL ? 2 : 0;
  if (l->nf != nd) return 2;
  b_r = l->v[0]; b_c = l->v[1]; if (sym && b_r != b_c) return coord && COORD_OUT == 0 ? 2 : 0; b_nz = coord ? l->v[2] : sym ? b_c * (b_c + 1) / 2 : b_r * b_c; if (b_r * b_c == 0 || !b_nz || b_nz > NV) return 2;
  for (int i = 0; i < NL; i++) {
    if (p >= nl || e_n >= b_nz) break; l = &ln[p++]; if (l->com) continue;
    int w = coord ? 2 : 0;
    for (int q = 0; q < 2; q++) if (q < w && (l->nf <= q || l->k[q] != INT)) return 0;
    if (l->nf <= w || l->k[w] == JUNK) return 0;
    if (l->nf != w + 1) return 2;
    if (e_n < NV) { e_r[e_n] = l->v[0] - 1; e_c[e_n] = l->v[1] - 1; e_v[e_n] = l->k[w] == INT ? l->v[w] : l->d[w]; e_n++; }
    if (coord && (l->v[0] < 1 || l->v[0] > b_r || l->v[1] < 1 || l->v[1] > b_c)) return COORD_OUT;
  }
  return e_n == b_nz;
}
#ifndef COMF
#define COMF 0
#endif
static void lines(void) {
#ifdef NLINES
  nl = 0; int n = nd_in(0, NLINES);
#if HEADK
  ln[0].nf = HEADK == 1 ? 2 : 3; ln[0].k[0] = ln[0].k[1] = ln[0].k[2] = INT; ln[0].v[0] = HR; ln[0].v[1] = HC; ln[0].v[2] = HN; nl = 1;
#endif
  for (int i = 0; i < NLINES; i++) { line_t *l = &ln[nl + i]; l->com = HEADK ? nd_in(0, 1) : i < COMF; l->nf = nd_in(0, 4); for (int q = 0; q < 4; q++) { l->k[q] = nd_in(INT, JUNK); l->v[q] = nd_in(-1, 3); l->d[q] = 100 + 4 * i + q; } }
  nl += n;
#endif
}
static int cut(void) { /* the file ends inside or behind any line; 1 if all fields are still there */
  int full = nl; nl = nd_in(0, full); if (nl < full) { int k = nd_in(0, 2); line_t *l = &ln[nl]; if (k > 0 && k <= l->nf) { nl++; int all = k == l->nf; l->nf = k; return all && nl == full; } return 0; } return 1;
}
#ifdef DENSE
static double store[32]; static int made; static void *rel;
static armas_dense_t *i03_init(armas_dense_t *m, int r, int c) { made++; m->__data = 0; m->elems = 0; m->step = 0; m->rows = r < 0 ? 0 : r; m->cols = c < 0 ? 0 : c; if (r <= 0 || c <= 0) return m; for (int i = 0; i < 32; i++) store[i] = i < r * c ? 0.0 : -77.0; m->elems = store; m->step = r; return m; }
#undef armas_init
#define armas_init i03_init
#undef armas_release
#define armas_release(m) (rel = (m))
#include "io/iomm.c"
void bmc_main(void) {
  armas_dense_t L; int fl = -1; L.rows = L.cols = L.step = 0; L.elems = 0;
#ifdef ROUND
  static double e[16]; int step = nd_in(RM, RM + 1); armas_dense_t S; for (int i = 0; i < 16; i++) e[i] = 100 + i;
  armas_make(&S, RM, CMX, step, e); int n = armas_mmdump(the_file, &S, SYM ? ARMAS_SYMM : 0), all = 1; CHECK(n >= hn + 2 * nl, "bytes written"); CHECK(!open_line, "last line ended");
  if (CUT) all = cut();
  int rc = armas_mmload(&L, &fl, the_file);
  if (!all) CHECK(rc < 0, "truncated file rejected");
  else {
    CHECK(rc >= 0, "loaded"); CHECK(!(rc & ARMAS_MM_SYMMETRIC) == !SYM && !(fl & ARMAS_SYMM) == !SYM, "symmetry reported"); CHECK(L.rows == RM && L.cols == CMX, "dimensions"); CHECK(rd == nl, "file read to the end of the matrix and no further");
    for (int j = 0; j < CMX; j++) for (int i = SYM ? j : 0; i < RM; i++) CHECK(L.elems[j * L.step + i] == e[j * step + i], "element");
  }
#else
  text("%%MatrixMarket matrix "); text(COO ? "coordinate" : "array"); text(SYM ? " real symmetric\n" : " real general\n"); lines();
  int w = body(COO, SYM), rc = armas_mmload(&L, &fl, the_file);
  for (int i = 0; i < 32; i++) CHECK(!made || L.rows * L.cols <= 0 || i < L.rows * L.cols || store[i] == -77.0, "no element outside the matrix written");
  if (w == 0) CHECK(rc < 0, "malformed file rejected");
  if (w == 1) {
    CHECK(rc >= 0 && L.rows == b_r && L.cols == b_c, "dimensions"); static double want[16]; if (COO) for (int k = 0; k < NV; k++) if (k < e_n) want[e_c[k] * b_r + e_r[k]] = e_v[k];
    int k = 0; if (!COO) for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) if (i < b_r && j < b_c && (!SYM || i >= j)) { if (k < NV) want[j * b_r + i] = e_v[k]; k++; }
    for (int i = 0; i < 9; i++) if (i < b_r * b_c) CHECK(store[i] == want[i], "element");
  }
#endif
}
#else
static armas_sparse_t SP; static coo_elem_t ents[NV]; static int freed, made_nnz = -1;
static armas_sparse_t *i03_new(int r, int c, int nnz, armassp_type_enum k) { CHECK(k == ARMASSP_COO, "coordinate storage"); made_nnz = nnz; SP.rows = r; SP.cols = c; SP.nnz = 0; SP.size = nnz; SP.kind = k; SP.elems.ep = ents; return &SP; }
static int i03_append(armas_sparse_t *A, int m, int n, double v) { CHECK(A == &SP, "matrix"); if (A->nnz >= NV) return -1; ents[A->nnz].i = m; ents[A->nnz].j = n; ents[A->nnz].val = v; A->nnz++; return 0; }
#undef armassp_new
#define armassp_new i03_new
#undef armassp_append
#define armassp_append i03_append
#undef armassp_free
#define armassp_free(A) (freed++)
#undef armassp_pprintf
#undef armassp_iprintf
#include "sparse/io.c"
void bmc_main(void) {
  int tc = 0;
#ifdef ROUND
  static armas_sparse_t S; static coo_elem_t ce[NZ]; static double v[NZ]; static int ix[NZ], ptr[5]; int ri[NZ], ci[NZ]; S.rows = RM; S.cols = CMX; S.nnz = NZ; S.kind = KIND; S.size = NZ; int all = 1;
  for (int k = 0; k < NZ; k++) { ri[k] = nd_in(0, RM - 1); ci[k] = nd_in(0, CMX - 1); }
  if (KIND == ARMASSP_COO) { for (int k = 0; k < NZ; k++) { ce[k].i = ri[k]; ce[k].j = ci[k]; ce[k].val = 100 + k; } S.elems.ep = ce; }
  else { int *maj = KIND == ARMASSP_CSR ? ri : ci, *mi = KIND == ARMASSP_CSR ? ci : ri, nm = KIND == ARMASSP_CSR ? RM : CMX; for (int k = 0; k < NZ; k++) { if (k) ASSUME(maj[k - 1] <= maj[k]); v[k] = 100 + k; ix[k] = mi[k]; for (int q = 0; q < 5; q++) if (q > maj[k]) ptr[q]++; } S.elems.v = v; S.ix = ix; S.ptr = ptr; S.nptr = nm; }
  int n = armassp_mmdump(the_file, &S, SYM ? ARMAS_MM_SYMMETRIC : 0); CHECK(n >= hn + 2 * nl, "bytes written"); CHECK(!open_line, "last line ended");
  if (CUT) all = cut();
  armas_sparse_t *L = armassp_mmload(&tc, the_file);
  if (!all) CHECK(!L, "truncated file rejected");
  else { CHECK(L && L->rows == RM && L->cols == CMX && L->nnz == NZ, "dimensions and number of elements"); CHECK(!(tc & ARMAS_MM_SYMMETRIC) == !SYM, "symmetry reported"); CHECK(rd == nl, "file read to the end of the matrix and no further");
    for (int k = 0; k < NZ; k++) CHECK(ents[k].i == ri[k] && ents[k].j == ci[k] && ents[k].val == 100 + k, "element"); }
#else
  text("%%MatrixMarket matrix coordinate real "); text(SYM ? "symmetric\n" : "general\n"); lines();
  int w = body(1, SYM); armas_sparse_t *L = armassp_mmload(&tc, the_file);
  if (L) for (int k = 0; k < NV; k++) if (k < SP.nnz) CHECK(ents[k].i >= 0 && ents[k].i < SP.rows && ents[k].j >= 0 && ents[k].j < SP.cols, "indices inside the matrix");
  if (L) CHECK(SP.nnz == made_nnz, "number of elements as announced");
  if (w == 0) CHECK(!L, "malformed file rejected");
  if (w == 1) { CHECK(L && SP.rows == b_r && SP.cols == b_c && SP.nnz == b_nz, "dimensions"); for (int k = 0; k < NV; k++) if (k < e_n) CHECK(ents[k].i == e_r[k] && ents[k].j == e_c[k] && ents[k].val == e_v[k], "element"); }
#endif
}
#endif
