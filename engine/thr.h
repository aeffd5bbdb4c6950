/* Threads, mutexes and condition variables for the concurrency harnesses.
   CBMC: every interleaving of the threads is explored (native concurrency semantics of CBMC); waits end by a signal, a timeout or (within a
   budget) spuriously; a wait or thread end that leaves every unfinished thread waiting is reported as a deadlock.
   Native: cooperative threads that switch at lock events and at every shared access (see bmcthr.c), following the order of events of a
   counterexample where they can. Include after all system headers and before the code under test. */
#ifndef THR_H
#define THR_H
#include "bmc.h"
#include <pthread.h>
#include <errno.h>
#include <time.h>
#ifndef NT
#define NT 4
#endif
#ifndef NTHR
#define NTHR NT
#endif
/* SAFE: a wait may end at any time (spurious wakeups are allowed by POSIX), no deadlock detection; otherwise waits end only by a signal or timeout */
typedef struct { unsigned char held; } h_mutex_t;
typedef struct { unsigned char waiters; } h_cond_t;
static int h_nthr = NTHR, h_nstop, h_nfin, h_main, h_ids = 1;   /* threads created; waiting or finished; finished; main waits for the end of all */
#ifdef __CPROVER
static __thread int h_me;
#define H_RACY
static void h_ev(int who) { int h_evt = who; (void)h_evt; }
#define H_BEGIN() do { __CPROVER_atomic_begin(); h_ev(h_me); } while (0)
#define H_END() __CPROVER_atomic_end()
#define H_BLOCK(c) __CPROVER_assume(c)
#else
extern int h_me; int thr_new(void *(*f)(void *), void *a); void thr_event(void); void thr_done(void); void thr_blocked(void);
#define H_RACY __attribute__((no_sanitize("thread")))
#define H_BEGIN() thr_event()
#define H_END() thr_done()
#define H_BLOCK(c) do { while (!(c)) thr_blocked(); } while (0)
#endif
static H_RACY int h_lock(h_mutex_t *m) { H_BEGIN(); H_BLOCK(!m->held); m->held = 1; H_END(); return 0; }
static H_RACY int h_unlock(h_mutex_t *m) { H_BEGIN(); CHECK(m->held, "unlocked mutex is held"); m->held = 0; H_END(); return 0; }
#ifdef SAFE
#define H_DEADLOCK() ((void)0)
#define H_STOP() ((void)0)
static int h_wait_(h_cond_t *c, h_mutex_t *m, int timed) { (void)c; if (timed) return ETIMEDOUT; h_unlock(m); h_lock(m); return 0; }
static int h_signal(h_cond_t *c) { (void)c; return 0; }
static int h_broadcast(h_cond_t *c) { (void)c; return 0; }
#else
/* called inside an event: no unfinished thread can go on */
#define H_DEADLOCK() CHECK(h_nstop < h_nthr || h_nfin >= h_nthr - h_main, "no deadlock: some thread can go on")
#define H_STOP() (h_nstop++)
static H_RACY int h_wait_(h_cond_t *c, h_mutex_t *m, int timed) {
  if (timed) return ETIMEDOUT;
  H_BEGIN(); CHECK(m->held, "mutex is held when waiting"); m->held = 0; c->waiters |= 1 << h_me; h_nstop++; H_DEADLOCK(); H_END();
  H_BEGIN(); H_BLOCK(!m->held && !(c->waiters >> h_me & 1)); m->held = 1; H_END(); return 0; }
static H_RACY int h_signal(h_cond_t *c) {
  H_BEGIN(); if (c->waiters) { int w = (int)nd_in(0, NT - 1); ASSUME(c->waiters >> w & 1); c->waiters &= ~(1 << w); h_nstop--; }
  H_END(); return 0; }
static H_RACY int h_broadcast(h_cond_t *c) { H_BEGIN(); h_nstop -= (c->waiters & 1) + (c->waiters >> 1 & 1) + (c->waiters >> 2 & 1) + (c->waiters >> 3 & 1) + (c->waiters >> 4 & 1); c->waiters = 0; H_END(); return 0; }
#endif
static int h_wait(h_cond_t *c, h_mutex_t *m) { return h_wait_(c, m, 0); }
static int h_timedwait(h_cond_t *c, h_mutex_t *m, const struct timespec *t) { (void)t; return h_wait_(c, m, 1); }
static H_RACY int h_minit(h_mutex_t *m) { m->held = 0; return 0; }
static H_RACY int h_cinit(h_cond_t *c) { c->waiters = 0; return 0; }
static H_RACY void h_exit(void) { H_BEGIN(); h_nfin++; H_STOP(); H_DEADLOCK(); H_END(); }
/* NTHR: number of threads when all are created by main at the beginning; 1: threads are created during the run */
#ifdef __CPROVER
#if NTHR > 1
#define H_NEWID(id) (id = h_ids++)
#else
#define H_NEWID(id) do { H_BEGIN(); id = h_ids++; h_nthr++; H_END(); } while (0)
#endif
static void h_run(int id, void *(*f)(void *), void *a) { h_me = id; f(a); h_exit(); }
static int h_create(void *t, void *(*f)(void *), void *a) {
  int id; H_NEWID(id); (void)t;
__CPROVER_ASYNC_1: h_run(id, f, a);
  return 0; }
#else
struct h_arg { void *(*f)(void *); void *a; };
static struct h_arg h_args[NT + 1];
static void *h_run(void *p) { struct h_arg *a = p; a->f(a->a); h_exit(); return 0; }
static H_RACY int h_create(void *t, void *(*f)(void *), void *a) { int id = h_ids++; (void)t; h_nthr += !(NTHR > 1); h_args[id].f = f; h_args[id].a = a; thr_new(h_run, &h_args[id]); return 0; }
#endif
static H_RACY void h_join_all(void) { H_BEGIN(); H_STOP(); h_main = 1; H_DEADLOCK(); H_END(); H_BEGIN(); H_BLOCK(h_nfin == h_nthr - 1); H_END(); }
#undef pthread_mutex_t
#define pthread_mutex_t h_mutex_t
#define pthread_cond_t h_cond_t
#define pthread_mutex_init(m, a) h_minit(m)
#define pthread_cond_init(c, a) h_cinit(c)
#define pthread_mutex_lock(m) h_lock(m)
#define pthread_mutex_unlock(m) h_unlock(m)
#define pthread_cond_wait(c, m) h_wait(c, m)
#define pthread_cond_timedwait(c, m, t) h_timedwait(c, m, t)
#define pthread_cond_signal(c) h_signal(c)
#define pthread_cond_broadcast(c) h_broadcast(c)
#define pthread_mutex_destroy(m) 0
#define pthread_cond_destroy(c) 0
#endif
