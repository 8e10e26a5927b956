/* An adversarial but standard-conforming MPI RMA layer between the library and Open MPI (profiling interface):
 * operations take effect as late as the MPI standard allows, unordered puts take effect in arbitrary order,
 * every access is checked against the target window and the epoch, requests must be completed exactly once. */
#ifndef LAZY_H
#define LAZY_H
#include <mpi.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <setjmp.h>

enum { K_PUT, K_GET, K_ACC, K_GACC, K_FOP, K_CAS };

typedef struct freq { struct freq *next; struct op *o; int done; int polls; } freq;

typedef struct op {
  struct op *next;
  int kind, target; struct win *w;
  char *obuf; int ocount; MPI_Datatype otype;
  char *rbuf; int rcount; MPI_Datatype rtype;
  MPI_Aint disp; int tcount; MPI_Datatype ttype; MPI_Op mop;
  int snapped; char *snap; int snapcount; MPI_Datatype basic;
  freq *rq;
} op;

typedef struct win {
  struct win *next; MPI_Win h; MPI_Comm comm; int n, me; MPI_Aint *size; void **base; int disp_unit;
  int lockall; int *lock; op *head, *tail; int wr[64];
} win;

extern win *lz_wins;
extern freq *lz_reqs;
extern int lz_slow, lz_issued, lz_nreq, lz_nwin, lz_ncomm, lz_nop, lz_nalloc, lz_lazy, lz_aborted, lz_expect_abort, lz_ngroup, lz_ntype;
extern long lz_total;
extern jmp_buf lz_jmp;
extern int lz_flagwatch; extern char *lz_flagaddr; extern int lz_flagproc, lz_flagseen;
extern int lz_prevn; extern uint64_t lz_seed;
void fail(const char *fmt, ...);
int lz_pending(int world_target);
uint64_t lz_rand(void);
#endif
