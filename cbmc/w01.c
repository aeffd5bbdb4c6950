/* W01: the task queue under every interleaving. W02: completion counter */
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <assert.h>
#include "thr.h"
#include "armas.h"
#ifdef QUEUE
#include "workers/queue.h"
#ifndef QLEN
#define QLEN 1
#endif
#ifndef PROD
#define PROD 1
#endif
#ifndef CONS
#define CONS 1
#endif
#ifndef PER
#define PER 2        /* items of one producer */
#endif
#define ITEMS (PROD*PER)
#define GET (ITEMS/CONS)
static struct armas_ac_queue q; static long slots[QLEN];
static long got[CONS][GET];
#define PUT_enqueue(q, v) taskq_enqueue(q, v, BC)
#define PUT_write(q, v) taskq_write(q, v)
#define TAKE_dequeue(q, v) taskq_dequeue(q, v, BC)
#define TAKE_read(q, v) taskq_read(q, v)
static void *producer(void *a) { long p = (long)a, k; for (k = 0; k < PER; k++) PUT(&q, 1 + p*PER + k); return 0; }
static void *consumer(void *a) { long c = (long)a, k; for (k = 0; k < GET; k++) { long v = 0; TAKE(&q, &v); got[c][k] = v; } return 0; }
void bmc_main(void) {
  long i, c, k, n, last;
  taskq_init(&q, QLEN); 
#ifdef __CPROVER
  q.items = slots;
#endif
  for (i = 0; i < PROD; i++) h_create(0, producer, (void *)i);
  for (i = 0; i < CONS; i++) h_create(0, consumer, (void *)i);
  h_join_all();
  CHECK(q.count == 0, "queue is empty when every task is taken");
  for (i = 1; i <= ITEMS; i++) { n = 0; for (c = 0; c < CONS; c++) for (k = 0; k < GET; k++) n += got[c][k] == i; CHECK(n == 1, "every task is taken exactly once"); }
  for (c = 0; c < CONS; c++) for (i = 0; i < PROD; i++) { last = 0; for (k = 0; k < GET; k++) if (got[c][k] > i*PER && got[c][k] <= (i + 1)*PER) { CHECK(got[c][k] > last, "tasks are taken in order"); last = got[c][k]; } }
}
#endif
#ifdef COUNTER
#include "workers/counter.h"
#ifndef TASKS
#define TASKS 2
#endif
static struct armas_ac_counter c; static int done[TASKS];
static void *task(void *a) { done[(long)a] = 1; armas_counter_decrement(&c); return 0; }
void bmc_main(void) {
  long i; armas_counter_init(&c, TASKS);
  for (i = 0; i < TASKS; i++) h_create(0, task, (void *)i);
  armas_counter_wait(&c);
  for (i = 0; i < TASKS; i++) CHECK(done[i], "wait returns after every task is done");
  h_exit();
}
#endif
