#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
long nd_log[1024]; int nd_n; static int nd_have;
long ND(void) { return nd_n < nd_have ? nd_log[nd_n++] : 0; }
void bmc_main(void);
static void onsig(int s) { printf("REPLAY-FAIL signal %d (%s)\n", s, s == SIGALRM ? "does not terminate" : "crash"); fflush(stdout); _exit(1); }
int main(int c, char **v) {
  signal(SIGSEGV, onsig); signal(SIGABRT, onsig); signal(SIGFPE, onsig); signal(SIGBUS, onsig); signal(SIGALRM, onsig); alarm(10);
  FILE *f = fopen(v[1], "r"); char l[256]; long x; int i;
  while (f && fgets(l, sizeof l, f)) if (sscanf(l, "nd %d %ld", &i, &x) == 2 && i < 1024) { nd_log[i] = x; if (i >= nd_have) nd_have = i + 1; }
  bmc_main(); printf("REPLAY-OK\n"); return 0;
}
