/* Harness API.  The same harness source is built twice:
 *  - symbolically: compiled with the symfp pass and linked with symrt.cpp (Z3 decides), and
 *  - concretely: compiled plainly, linked with conc.c and the real library (replay of a counterexample). */
#ifndef SYM_H
#define SYM_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
int sym_choice(int n, const char *name);            /* enumerated concrete choice 0..n-1 (sizes, flags) */
void sym_skip(void);                                 /* discard this combination of choices */
double sym_real(const char *fmt, ...);               /* fresh real variable */
double sym_poison(const char *fmt, ...);             /* value that must never influence a result (NaN-like) */
void sym_assume_lt(double a, double b);
void sym_assume_le(double a, double b);
void sym_assume_ne(double a, double b);
void sym_assume_eq(double a, double b);
void sym_eq(double a, double b, const char *fmt, ...);   /* goal: a == b */
void sym_le(double a, double b, const char *fmt, ...);   /* goal: a <= b */
void sym_lt(double a, double b, const char *fmt, ...);   /* goal: a <  b */
void sym_ne(double a, double b, const char *fmt, ...);   /* goal: a != b */
void sym_check(int cond, const char *fmt, ...);          /* goal decided concretely on this path */
int sym_same(double a, double b);                        /* bitwise the same value/handle */
int sym_is_poison(double a);
void sym_hint_eq(double a, double b, const char *fmt, ...); /* lemma: proved in isolation, then assumed */
int sym_tier(void);                                  /* 0 quick 1 thorough */
void sym_divmode(int mode);                          /* 0: assume divisor != 0; 1: a possible zero divisor is a violation */
void sym_desc(const char *fmt, ...);                 /* human readable case description */
void sym_note(const char *fmt, ...);
void sym_config(const char *key, double val);
int sym_symbolic(void);
void sym_env(const char *name, const char *value);   /* environment seen by the library */
double sym_fresh_nonzero(const char *fmt, ...);
double sym_rat(double num, double den);               /* exact rational constant */
void sym_main(void);                                 /* the harness */
#ifdef __cplusplus
}
#endif
#endif
