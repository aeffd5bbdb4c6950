/* Concrete twin of symrt.cpp: replays one case with given inputs on the real library. Exit 1 if a goal fails. */
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "sym.h"
static int choices[64], nchoices, chpos, fails, tier_; static char *names[200000]; static double vals[200000]; static int nv;
static double tol = 1e-6; static long poi;
/* compiled without -ffast-math: NaN tests are reliable here */
int sym_choice(int n, const char *name) { int v = chpos < nchoices ? choices[chpos] : 0; chpos++; printf("choice %s=%d\n", name, v); if (v >= n) { printf("REPLAY-SKIP\n"); exit(5); } return v; }
void sym_skip(void) { printf("REPLAY-SKIP\n"); exit(5); }
static void chomp(char *b, const char *f, va_list ap) { vsnprintf(b, 512, f, ap); }
#define FMT(b, f) char b[512]; do { va_list ap; va_start(ap, f); chomp(b, f, ap); va_end(ap); } while (0)
double sym_rat(double n, double d) { return n / d; }
double sym_real(const char *f, ...) { FMT(b, f); for (int i = 0; i < nv; i++) if (!strcmp(names[i], b)) return vals[i]; return 0.0; }
double sym_poison(const char *f, ...) { static int fin = -1; if (fin < 0) { const char *e = getenv("SYM_POISON"); fin = e && e[0] == 'f'; }
  if (fin) return -(1e4 + 0.0009765625 * (++poi) + 1.0 / 1099511627776.0);   /* finite garbage, recognisable */
  uint64_t u = 0x7FF8000000000000ull | (uint64_t)(++poi); double d; memcpy(&d, &u, 8); return d; }
static void dead(const char *w) { printf("REPLAY-DEAD assumption %s not met\n", w); exit(5); }
void sym_assume_lt(double a, double b) { if (!(a < b)) dead("<"); }
void sym_assume_le(double a, double b) { if (!(a <= b + tol * (1 + fabs(a)))) dead("<="); }
void sym_assume_ne(double a, double b) { if (a == b) dead("!="); }
void sym_assume_eq(double a, double b) { if (!(fabs(a - b) <= tol * (1 + fabs(a) + fabs(b)))) dead("=="); }
static void fail(const char *b, double x, double y) { printf("REPLAY-FAIL %s: %.17g vs %.17g\n", b, x, y); fflush(stdout); fails++; }
void sym_eq(double a, double b, const char *f, ...) { FMT(s, f); if (!memcmp(&a, &b, 8)) return; if (!(fabs(a - b) <= tol * (1 + fabs(a) + fabs(b)))) fail(s, a, b); }
void sym_hint_eq(double a, double b, const char *f, ...) { (void)a; (void)b; (void)f; }
void sym_le(double a, double b, const char *f, ...) { FMT(s, f); if (!(a <= b + tol * (1 + fabs(a) + fabs(b)))) fail(s, a, b); }
void sym_lt(double a, double b, const char *f, ...) { FMT(s, f); if (!(a < b)) fail(s, a, b); }
void sym_ne(double a, double b, const char *f, ...) { FMT(s, f); if (!(a != b)) fail(s, a, b); }
void sym_check(int c, const char *f, ...) { FMT(s, f); if (!c) fail(s, 0, 1); }
int sym_same(double a, double b) { return !memcmp(&a, &b, 8); }
int sym_is_poison(double a) { uint64_t u; memcpy(&u, &a, 8); return (u >> 48) == 0x7FF8 || (a < -9999 && a > -20000); }
int sym_tier(void) { return tier_; }
void sym_divmode(int m) { (void)m; }
int sym_symbolic(void) { return 0; }
void sym_desc(const char *f, ...) { FMT(s, f); printf("case %s\n", s); }
void sym_note(const char *f, ...) { (void)f; }
void sym_config(const char *k, double v) { if (!strcmp(k, "tol")) tol = v; }
void sym_env(const char *n, const char *v) { if (v) setenv(n, v, 1); else unsetenv(n); }
static void onsig(int s) { printf("REPLAY-FAIL signal %d (%s)\n", s, s == SIGALRM ? "does not terminate" : "crash"); fflush(stdout); _exit(1); }
int main(int argc, char **argv) {
  signal(SIGSEGV, onsig); signal(SIGABRT, onsig); signal(SIGFPE, onsig); signal(SIGBUS, onsig); signal(SIGALRM, onsig); alarm(10);
  FILE *f = fopen(argv[1], "r"); char line[1024]; if (!f) return 4;
  while (fgets(line, sizeof line, f)) {
    char k[600]; char v[200];
    if (sscanf(line, "choice %d", &choices[nchoices]) == 1) { nchoices++; continue; }
    if (sscanf(line, "tier %d", &tier_) == 1) continue;
    if (sscanf(line, "in %s %s", k, v) == 2) { names[nv] = strdup(k); vals[nv++] = strtod(v, NULL); }
  }
  fclose(f);
  sym_main();
  if (fails) return 1;
  printf("REPLAY-OK\n"); return 0;
}
