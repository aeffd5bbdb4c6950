/* T02: boundaries of work partitions */
#include "bmc.h"
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
#include <pthread.h>
#include "dtype.h"
#include "armas.h"
#include "matrix.h"
#include "accel.h"
#include "workers/scheduler.h"
#include "workers/workers.h"
#ifndef MAXBLK
#define MAXBLK 16
#endif
#ifndef MAXTOT
#define MAXTOT INT_MAX
#endif
#ifdef K_AC
#define IDX armas_ac_block_index
#endif
void bmc_main(void) {
#ifdef IDX
  int tot = nd_in(0, MAXTOT), nb =
#ifdef NBLK
    NBLK
#else
    nd_in(1, MAXBLK)
#endif
  , n = nd_in(0, MAXBLK - 1);
  ASSUME(n < nb);
  CHECK(IDX(0, nb, tot) == 0, "partition starts at zero");
  CHECK(IDX(nb, nb, tot) == tot, "partition ends at the size");
  int a = IDX(n, nb, tot), b = IDX(n + 1, nb, tot);
  CHECK(0 <= a && a <= b && b <= tot, "boundaries are monotone");
#endif
#ifdef K_TILES
  int M = nd_in(1, MAXTOT), N = nd_in(1, MAXTOT), wb = nd_in(1, MAXTOT), r, c;
  int t = worker_tiles(&r, &c, M, N, wb);
  CHECK(r >= 1 && c >= 1 && t == r * c, "at least one tile");
#endif
}
