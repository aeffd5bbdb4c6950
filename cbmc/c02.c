/* C02: configuration strings. CFG: ARMAS_CONFIG, CACHE: ARMAS_CACHE */
#include "bmc.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>
#include <ctype.h>
#include <limits.h>
#ifndef PRE
#define PRE ""
#endif
#ifndef LEN
#define LEN 8
#endif
static char env_str[sizeof(PRE) + LEN + 1], env_org[sizeof(PRE) + LEN + 1]; static const char *env_name;
static char *c02_getenv(const char *n) { return !strcmp(n, env_name) ? env_str : (char *)0; }
#define getenv c02_getenv
#ifdef __CPROVER
/* library functions CBMC has no model of */
static char *c02_strsep(char **s, const char *d) { char *b = *s, *p; if (!b) return b; for (p = b; *p; p++) if (*p == d[0]) { *p = 0; *s = p + 1; return b; } *s = 0; return b; }
#undef strsep
#define strsep c02_strsep
static int c02_space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int c02_dig(char c, int base) { int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; return d < base ? d : -1; }
static unsigned long c02_num(const char *s, char **e, int base, int *neg) {
  const char *p = s, *q; unsigned long v = 0; int any = 0; *neg = 0;
  while (c02_space(*p)) p++;
  if (*p == '+' || *p == '-') { *neg = *p == '-'; p++; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && c02_dig(p[2], 16) >= 0) { p += 2; base = 16; }
  else if (base == 0) base = p[0] == '0' ? 8 : 10;
  for (; c02_dig(*p, base) >= 0; p++) { v = v * base + c02_dig(*p, base); any = 1; }
  if (e) *e = (char *)(any ? p : s);
  return v;
}
/* the bounds keep the digit strings short of an overflow */
static unsigned long c02_strtoul(const char *s, char **e, int base) { int n; unsigned long v = c02_num(s, e, base, &n); return n ? -v : v; }
static long c02_strtol(const char *s, char **e, int base) { int n; unsigned long v = c02_num(s, e, base, &n); return n ? -(long)v : (long)v; }
static int c02_atoi(const char *s) { return (int)c02_strtol(s, 0, 10); }
static int c02_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int c02_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
#undef toupper
#undef tolower
#undef isalpha
#undef isdigit
#define strtoul c02_strtoul
#define strtol c02_strtol
#define atoi c02_atoi
#define toupper c02_toupper
#define tolower c02_tolower
#define isdigit(c) ((c) >= '0' && (c) <= '9')
#define isalpha(c) (((c) >= 'a' && (c) <= 'z') || ((c) >= 'A' && (c) <= 'Z'))
#endif
#include "base/env.c"
/* reference reading: field k of the comma separated string; returns 0 when there is no such field */
static int field(int k, const char **b, int *len) {
  int i = 0; for (; k > 0; k--) { while (env_org[i] && env_org[i] != ',') i++; if (!env_org[i]) return 0; i++; }
  *b = env_org + i; int n = 0; while ((*b)[n] && (*b)[n] != ',') n++; *len = n; return 1;
}
static int dig(char c) { return c >= '0' && c <= '9'; }
/* leading decimal integer (atoi) */
static long deci(const char *b, int n) {
  int i = 0, neg = 0; long v = 0; while (i < n && (b[i] == ' ' || (b[i] >= 9 && b[i] <= 13))) i++;
  if (i < n && (b[i] == '-' || b[i] == '+')) { neg = b[i] == '-'; i++; }
  for (; i < n && dig(b[i]); i++) v = v * 10 + (b[i] - '0');
  return neg ? -v : v;
}
static void mkstr(void) {
  int k = sizeof(PRE) - 1; for (int i = 0; i < k; i++) env_str[i] = PRE[i];
  for (int i = 0; i < LEN; i++) { int c = nd_in(0, 127); 
#ifdef ALPHA
    { static const char al[] = ALPHA; int ok = c == 0; for (int q = 0; al[q]; q++) ok |= c == al[q]; ASSUME(ok); }
#endif
    env_str[k + i] = c; }
  env_str[k + LEN] = 0; for (int i = 0; i < (int)sizeof(env_str); i++) env_org[i] = env_str[i];
}
static int same(void) { int r = 1; for (int i = 0; i < (int)sizeof(env_str); i++) r &= env_str[i] == env_org[i]; return r; }
void bmc_main(void) {
  const char *b; int n, i;
  mkstr();
#ifdef CFG
  env_name = "ARMAS_CONFIG"; armas_env_t d = __env_config, *e = armas_getenv();
  long got[6] = {e->mb, e->nb, e->kb, e->lb, e->blas1min, e->blas2min}, def[6] = {d.mb, d.nb, d.kb, d.lb, d.blas1min, d.blas2min};
  for (i = 0; i < 6; i++) { long v = field(i, &b, &n) ? deci(b, n) : 0;
    if (v <= 0) CHECK(got[i] == def[i], "missing or malformed field keeps the default");
    else if (i >= 4 && v < 2) CHECK(got[i] == 2, "recursion threshold at least two");
    else CHECK(got[i] == v, "field has the value it names");
    CHECK(got[i] > 0, "positive value"); }
  if (!field(7, &b, &n)) { int fx = field(6, &b, &n) && n > 0 && (b[0] == 'y' || b[0] == 'Y'); CHECK(!e->fixed == !fx, "fixed flag"); }
  CHECK(e->cmem == d.cmem && e->l1mem == d.l1mem, "memory sizes not affected");
  CHECK(same(), "environment not modified"); CHECK(armas_getenv() == e, "one configuration");
#endif
#ifdef CACHE
  env_name = "ARMAS_CACHE"; armas_env_t d = __env_config, *e = armas_getenv();
  for (i = 0; i < 2; i++) { size_t got = i ? e->l1mem : e->cmem, def = i ? d.l1mem : d.cmem, lo = i ? 1024 : 4096; 
    int pos = 0, w = 0, ok = field(i, &b, &n); unsigned long v = 0;
    if (ok) { while (w < n && dig(b[w])) v = v * 10 + (b[w++] - '0'); }
    /* well formed: decimal number without leading zero and optional suffix letter */
    int wf = ok && w > 0 && b[0] != '0' && (w == n || (w == n - 1 && (b[w] == 'k' || b[w] == 'K' || b[w] == 'm' || b[w] == 'M')));
    if (wf) { if (w < n) v *= (b[w] == 'k' || b[w] == 'K') ? 1024 : 1024 * 1024; CHECK(got == (v < lo ? lo : v), "memory size is the one named, at least the minimum"); }
    if (!ok || n == 0) CHECK(got == def, "missing field keeps the default");
    CHECK(got >= lo && got <= ((size_t)1 << 62), "usable memory size"); }
  CHECK(e->mb == d.mb && e->nb == d.nb && e->kb == d.kb && e->lb == d.lb, "block sizes not affected"); CHECK(same(), "environment not modified");
#endif
}
