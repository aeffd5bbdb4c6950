/* M01: memory of a new matrix (the allocator is a stub that records the request and returns any 16-byte aligned address) */
#include "bmc.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "dtype.h"
static size_t got_n, got_s; static int calls; static size_t addr;
static void *h_calloc(size_t n, size_t s) { calls++; got_n = n; got_s = s; if (n > ((size_t)1 << 60)) addr = 0; /* no such amount of memory */ return (void *)addr; }
#define calloc h_calloc
#include "base/matrix.c"
#undef calloc
void bmc_main(void) {
  int r = nd_in(-2, MAXD), c = nd_in(-2, MAXD); armas_dense_t m; addr = nd_in(0, 1000000) * 16; m.elems = (DTYPE *)8; m.__nbytes = 5; m.rows = m.cols = m.step = -1;
  armas_dense_t *p = armas_init(&m, r, c);
  if (r <= 0 || c <= 0) { CHECK(p == &m && !calls && m.rows == (r < 0 ? 0 : r) && m.cols == (c < 0 ? 0 : c) && !m.elems && !m.__data && !m.__nbytes, "empty matrix"); return; }
  CHECK(calls == 1, "one allocation"); size_t e = (size_t)r * c; 
  if (!addr) { CHECK(!p && !m.__nbytes && !m.__data, "failed allocation reported"); return; }
  CHECK(p == &m && m.rows == r && m.cols == c && m.step == r, "dimensions"); CHECK((size_t)m.__data == addr, "memory block");
  CHECK((size_t)m.elems >= addr && (size_t)m.elems - addr < 64 && ((size_t)m.elems & 63) == 0, "elements aligned to a cache line");
  CHECK(got_s == sizeof(DTYPE) && got_n >= e && (got_n - e) * sizeof(DTYPE) >= (size_t)m.elems - addr, "memory for every element"); CHECK(m.__nbytes == got_n * sizeof(DTYPE), "recorded size");
}
