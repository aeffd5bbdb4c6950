/* Native replay of a concurrency counterexample: the harness and the code under test are compiled with -fsanitize=thread and linked with the hooks
   below, which make every shared access and every lock event a point where another (cooperative) thread can go on. The order of the events of the
   counterexample is followed first; between events, and in later runs everywhere, the next thread is drawn from a seeded generator. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <stdint.h>
#include <ucontext.h>
#include <sys/wait.h>
#define MAXT 8
#define STK 262144
void bmc_main(void);
int h_me; static ucontext_t uc[MAXT]; static char *stk[MAXT]; static int alive[MAXT], nt = 1, in_ev, nblk; static void *(*fn[MAXT])(void *); static void *fa[MAXT];
static int ev_log[4096], ev_n, ev_pos, guided; static uint64_t rs;
static unsigned rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (unsigned)(rs >> 11); }
static void dead(void) { _exit(5); }
static void go(int t) { int me = h_me; if (t == me) return; h_me = t; swapcontext(&uc[me], &uc[t]); }
static int other(int can_stay) { int c[MAXT], n = 0, i; for (i = 0; i < nt; i++) if (alive[i] && (can_stay || i != h_me)) c[n++] = i; return n ? c[rnd() % n] : -1; }
static void point(void) {
  if (in_ev) return;
  if (rnd() % 3 == 0) { int t = other(1); if (t >= 0) go(t); } }
void thr_event(void) {
  if (guided && ev_pos < ev_n) { int spin = 0; while (ev_pos < ev_n && ev_log[ev_pos] != h_me) { int t = ev_log[ev_pos]; if (t >= nt || !alive[t]) t = other(0); if (t < 0 || ++spin > 200) dead(); go(t); } }
  else point();
  nblk = 0; in_ev = 1; }
void thr_done(void) { in_ev = 0; nblk = 0; if (guided) ev_pos++; if (!guided || ev_pos >= ev_n) point(); }
void thr_blocked(void) { int t = other(0); in_ev = 0; if (t < 0 || ++nblk > 400) dead(); go(t); in_ev = 1; }
static void entry(int id) { in_ev = 0; fn[id](fa[id]); alive[id] = 0; int t = other(0); if (t < 0) dead(); h_me = t; setcontext(&uc[t]); }
int thr_new(void *(*f)(void *), void *a) {
  int id = nt++; fn[id] = f; fa[id] = a; stk[id] = malloc(STK); getcontext(&uc[id]); uc[id].uc_stack.ss_sp = stk[id]; uc[id].uc_stack.ss_size = STK; uc[id].uc_link = 0;
  makecontext(&uc[id], (void (*)(void))entry, 1, id); alive[id] = 1; return id; }
static void acc(void *p) { char *c = p, here; int i; if (in_ev) return; for (i = 0; i < nt; i++) if (stk[i] && c >= stk[i] && c < stk[i] + STK) return; if (c > &here - 65536 && c < &here + 65536) return; point(); }
#define A(n) void __tsan_read##n(void *p) { acc(p); } void __tsan_write##n(void *p) { acc(p); } void __tsan_unaligned_read##n(void *p) { acc(p); } void __tsan_unaligned_write##n(void *p) { acc(p); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_init(void) {} void __tsan_func_entry(void *p) { (void)p; } void __tsan_func_exit(void) {}
void __tsan_read_range(void *p, unsigned long n) { (void)n; acc(p); } void __tsan_write_range(void *p, unsigned long n) { (void)n; acc(p); }
#define AT(n, T) T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int m) { (void)m; point(); T o = *p; *p += v; return o; } T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int m) { (void)m; point(); T o = *p; *p -= v; return o; } \
  T __tsan_atomic##n##_load(volatile T *p, int m) { (void)m; point(); return *p; } void __tsan_atomic##n##_store(volatile T *p, T v, int m) { (void)m; point(); *p = v; } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T c, T v, int m, int f) { (void)m; (void)f; point(); T o = *p; if (o == c) *p = v; return o; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *c, T v, int m, int f) { (void)m; (void)f; point(); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; }
AT(32, int) AT(64, long) AT(8, char)
long ND(void) { return rnd() % 4; }
int main(int c, char **v) {
  FILE *f = fopen(v[1], "r"); char l[256]; int i, x, s, st; (void)c;
  while (f && fgets(l, sizeof l, f)) if (sscanf(l, "ev %d %d", &i, &x) == 2 && i < 4096) { ev_log[i] = x; if (i >= ev_n) ev_n = i + 1; }
  for (s = 0; s < 6000; s++) {
    pid_t p = fork();
    if (!p) { alarm(2); guided = ev_n && s < 400; rs = 0x9e3779b97f4a7c15ull * (s + 1); alive[0] = 1; bmc_main(); _exit(0); }
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 5 || WEXITSTATUS(st) == 4)) continue;
    if (WIFSIGNALED(st)) printf("REPLAY-FAIL signal %d\n", WTERMSIG(st));
    printf("schedule %d%s of the real code fails\n", s, s < 400 && ev_n ? " (order of events of the counterexample)" : ""); return 1;
  }
  printf("REPLAY-OK\n"); return 0;
}
