#include "lazy.h"
#include <unistd.h>

win *lz_wins; freq *lz_reqs;
int lz_issued, lz_nreq, lz_nwin, lz_ncomm, lz_nop, lz_nalloc, lz_lazy = 1, lz_aborted, lz_expect_abort, lz_ngroup, lz_ntype;
long lz_total;
jmp_buf lz_jmp;
int lz_flagwatch; char *lz_flagaddr; int lz_flagproc, lz_flagseen;
uint64_t lz_seed = 88172645463325252ull;

uint64_t lz_rand(void) {
  lz_seed ^= lz_seed << 13; lz_seed ^= lz_seed >> 7; lz_seed ^= lz_seed << 17;
  return lz_seed >> 11;
}

static win *find(MPI_Win h) {
  for (win *w = lz_wins; w; w = w->next) if (w->h == h) return w;
  fail("an MPI call uses a window that does not exist");
  return 0;
}

static int named(MPI_Datatype t) {
  int ni, na, nd, c;
  PMPI_Type_get_envelope(t, &ni, &na, &nd, &c);
  return c == MPI_COMBINER_NAMED;
}
static MPI_Datatype basic_of(MPI_Datatype t) {
  int ni, na, nd, c;
  PMPI_Type_get_envelope(t, &ni, &na, &nd, &c);
  if (c == MPI_COMBINER_NAMED) return t;
  int *I = malloc(sizeof(int) * (ni + 1)); MPI_Aint *A = malloc(sizeof(MPI_Aint) * (na + 1));
  MPI_Datatype *D = malloc(sizeof(MPI_Datatype) * (nd + 1));
  PMPI_Type_get_contents(t, ni, na, nd, I, A, D);
  MPI_Datatype r = nd ? basic_of(D[0]) : MPI_BYTE;
  for (int i = 0; i < nd; i++) if (!named(D[i])) PMPI_Type_free(&D[i]);
  free(I); free(A); free(D);
  return r;
}
static MPI_Datatype keep(MPI_Datatype t) {
  if (t == MPI_DATATYPE_NULL || named(t)) return t;
  MPI_Datatype r; PMPI_Type_dup(t, &r); return r;
}
static void drop(MPI_Datatype t) { if (t != MPI_DATATYPE_NULL && !named(t)) PMPI_Type_free(&t); }

static void span(MPI_Datatype t, int n, MPI_Aint *lo, MPI_Aint *hi) {
  MPI_Aint lb, ex, tlb, tex; int sz;
  PMPI_Type_size(t, &sz);
  if (n <= 0 || sz == 0) { *lo = *hi = 0; return; }
  PMPI_Type_get_extent(t, &lb, &ex); PMPI_Type_get_true_extent(t, &tlb, &tex);
  *lo = tlb + (ex < 0 ? (n - 1) * ex : 0); *hi = tlb + tex + (ex > 0 ? (n - 1) * ex : 0);
}

static op *issue(int kind, const void *o, int oc, MPI_Datatype ot, void *r, int rc, MPI_Datatype rt, int target,
                 MPI_Aint disp, int tc, MPI_Datatype tt, MPI_Op mop, MPI_Win h) {
  win *w = find(h);
  MPI_Aint lo, hi;
  int so = 0, sr = 0, s2 = 0;
  lz_issued++; lz_total++;
  if (target < 0 || target >= w->n) fail("RMA operation to process %d of a window of %d processes", target, w->n);
  if (!w->lockall && !w->lock[target]) fail("RMA operation outside an access epoch (target %d)", target);
  span(tt, tc, &lo, &hi);
  lo += disp * w->disp_unit; hi += disp * w->disp_unit;
  if (hi > lo && (lo < 0 || hi > w->size[target]))
    fail("RMA operation reaches bytes [%ld,%ld) of the %ld bytes process %d contributed", (long)lo, (long)hi, (long)w->size[target], w->wr[target]);
  PMPI_Type_size(tt, &s2);
  if (oc && ot != MPI_DATATYPE_NULL) PMPI_Type_size(ot, &so);
  if (rc && rt != MPI_DATATYPE_NULL) PMPI_Type_size(rt, &sr);
  if (kind == K_PUT || kind == K_ACC || (kind == K_GACC && mop != MPI_NO_OP))
    if ((long)so * oc != (long)s2 * tc) fail("origin and target data lengths differ (%ld, %ld bytes)", (long)so * oc, (long)s2 * tc);
  if (kind == K_GET || kind == K_GACC)
    if ((long)sr * rc != (long)s2 * tc) fail("result and target data lengths differ (%ld, %ld bytes)", (long)sr * rc, (long)s2 * tc);
  op *p = calloc(1, sizeof *p);
  p->kind = kind; p->target = target; p->w = w; p->obuf = (char *)o; p->ocount = oc; p->otype = keep(ot);
  p->rbuf = r; p->rcount = rc; p->rtype = keep(rt); p->disp = disp; p->tcount = tc; p->ttype = keep(tt); p->mop = mop;
  p->basic = (kind == K_GET) ? MPI_DATATYPE_NULL : basic_of(tt);
  if (w->tail) w->tail->next = p; else w->head = p;
  w->tail = p;
  if (lz_flagwatch && (kind == K_PUT || kind == K_ACC) && w->wr[target] == lz_flagproc &&
      (char *)w->base[target] + lo == lz_flagaddr) {
    lz_flagseen++;
    for (win *v = lz_wins; v; v = v->next)
      for (op *q = v->head; q; q = q->next)
        if (q != p && v->wr[q->target] == lz_flagproc)
          fail("the flag is put while data of the same call may still be incomplete at the target");
  }
  return p;
}

static void snapshot(op *p) {
  int sz, bs, pos = 0;
  if (p->snapped || p->kind == K_GET || p->mop == MPI_NO_OP || !p->obuf) return;
  p->snapped = 1;
  int n1; PMPI_Type_size(p->otype, &n1); sz = n1 * p->ocount;
  p->snap = malloc(sz + 1);
  if (sz) {
    int ps; PMPI_Pack_size(p->ocount, p->otype, MPI_COMM_SELF, &ps);
    char *t = malloc(ps + 16);
    if (named(p->otype)) { memcpy(t, p->obuf, sz); pos = sz; }          /* plain copy: visible to the sanitizer */
    else PMPI_Pack(p->obuf, p->ocount, p->otype, t, ps + 16, &pos, MPI_COMM_SELF);
    if (pos != sz) fail("internal: packed %d of %d bytes", pos, sz);
    memcpy(p->snap, t, sz); free(t);
  }
  PMPI_Type_size(p->basic, &bs);
  p->snapcount = sz / bs;
}

static void execute(op *p) {
  MPI_Win h = p->w->h;
  snapshot(p);
  switch (p->kind) {
  case K_PUT: PMPI_Put(p->snap, p->snapcount, p->basic, p->target, p->disp, p->tcount, p->ttype, h); break;
  case K_GET: {
    if (p->rcount && named(p->rtype)) {                                   /* visible to the sanitizer */
      int s; PMPI_Type_size(p->rtype, &s); long k = (long)s * p->rcount; volatile char x;
      if (k) { x = p->rbuf[0]; p->rbuf[0] = x; x = p->rbuf[k - 1]; p->rbuf[k - 1] = x; }
    }
    PMPI_Get(p->rbuf, p->rcount, p->rtype, p->target, p->disp, p->tcount, p->ttype, h); break; }
  case K_ACC: PMPI_Accumulate(p->snap, p->snapcount, p->basic, p->target, p->disp, p->tcount, p->ttype, p->mop, h); break;
  case K_GACC:
    PMPI_Get_accumulate(p->snap ? (void *)p->snap : (void *)p->rbuf, p->mop == MPI_NO_OP ? 0 : p->snapcount, p->basic, p->rbuf, p->rcount, p->rtype,
                        p->target, p->disp, p->tcount, p->ttype, p->mop, h); break;
  case K_FOP: PMPI_Fetch_and_op(p->snap ? (void *)p->snap : (void *)&p->kind, p->rbuf, p->ttype, p->target, p->disp, p->mop, h); break;
  }
  PMPI_Win_flush(p->target, h);
  if (p->rq) { p->rq->done = 1; p->rq->o = 0; }
  drop(p->otype); drop(p->rtype); drop(p->ttype);
  free(p->snap); free(p);
}

static op *take(win *w, op *x) {
  op *prev = 0;
  for (op *p = w->head; p; prev = p, p = p->next)
    if (p == x) {
      if (prev) prev->next = p->next; else w->head = p->next;
      if (w->tail == p) w->tail = prev;
      p->next = 0;
      return p;
    }
  return 0;
}

static int is_acc(op *p) { return p->kind == K_ACC || p->kind == K_GACC || p->kind == K_FOP; }

/* everything an accumulate-class operation must not overtake */
static void run_acc_upto(win *w, op *x) {
  for (;;) {
    op *q = w->head;
    while (q && q != x && !(is_acc(q) && q->target == x->target)) q = q->next;
    if (!q) return;
    int last = q == x;
    execute(take(w, q));
    if (last) return;
  }
}

static void local_done(win *w, int target) {
  for (op *p = w->head, *nx; p; p = nx) {
    nx = p->next;
    if (target >= 0 && p->target != target) continue;
    if (p->kind == K_PUT || p->kind == K_ACC) { snapshot(p); }
  }
  for (;;) {
    op *p = w->head;
    while (p && !((target < 0 || p->target == target) && p->kind != K_PUT && p->kind != K_ACC)) p = p->next;
    if (!p) break;
    if (is_acc(p)) run_acc_upto(w, p); else execute(take(w, p));
  }
}

int lz_slow;
static void remote_done(win *w, int target) {
  if (lz_slow && w->head) usleep(2000);
  for (;;) {
    int n = 0;
    for (op *p = w->head; p; p = p->next) if (target < 0 || p->target == target) n++;
    if (!n) break;
    int k = lz_rand() % n;
    op *p = w->head;
    for (;; p = p->next) if (target < 0 || p->target == target) if (k-- == 0) break;
    if (is_acc(p)) run_acc_upto(w, p); else execute(take(w, p));
  }
}

int lz_pending(int wt) {
  int n = 0;
  for (win *w = lz_wins; w; w = w->next)
    for (op *p = w->head; p; p = p->next) if (wt < 0 || w->wr[p->target] == wt) n++;
  return n;
}

static MPI_Request newreq(op *p) {
  freq *f = calloc(1, sizeof *f);
  f->o = p; p->rq = f; f->next = lz_reqs; lz_reqs = f; lz_nreq++;
  f->polls = lz_rand() % 3;
  return (MPI_Request)f;
}

/* ------------------------------------------------------------------ RMA */
#define RMA(k, rq) { op *p_ = issue k; (void)p_; rq; if (!lz_lazy) remote_done(p_->w, p_->target); return MPI_SUCCESS; }
int MPI_Put(const void *o, int oc, MPI_Datatype ot, int t, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win h)
RMA((K_PUT, o, oc, ot, 0, 0, MPI_DATATYPE_NULL, t, d, tc, tt, MPI_REPLACE, h), )
int MPI_Get(void *o, int oc, MPI_Datatype ot, int t, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win h)
RMA((K_GET, 0, 0, MPI_DATATYPE_NULL, o, oc, ot, t, d, tc, tt, MPI_NO_OP, h), )
int MPI_Accumulate(const void *o, int oc, MPI_Datatype ot, int t, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Op m, MPI_Win h)
RMA((K_ACC, o, oc, ot, 0, 0, MPI_DATATYPE_NULL, t, d, tc, tt, m, h), )
int MPI_Get_accumulate(const void *o, int oc, MPI_Datatype ot, void *r, int rc, MPI_Datatype rt, int t, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Op m, MPI_Win h)
RMA((K_GACC, m == MPI_NO_OP ? 0 : o, m == MPI_NO_OP ? 0 : oc, ot, r, rc, rt, t, d, tc, tt, m, h), )
int MPI_Rput(const void *o, int oc, MPI_Datatype ot, int t, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win h, MPI_Request *rq)
RMA((K_PUT, o, oc, ot, 0, 0, MPI_DATATYPE_NULL, t, d, tc, tt, MPI_REPLACE, h), *rq = newreq(p_))
int MPI_Rget(void *o, int oc, MPI_Datatype ot, int t, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win h, MPI_Request *rq)
RMA((K_GET, 0, 0, MPI_DATATYPE_NULL, o, oc, ot, t, d, tc, tt, MPI_NO_OP, h), *rq = newreq(p_))
int MPI_Raccumulate(const void *o, int oc, MPI_Datatype ot, int t, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Op m, MPI_Win h, MPI_Request *rq)
RMA((K_ACC, o, oc, ot, 0, 0, MPI_DATATYPE_NULL, t, d, tc, tt, m, h), *rq = newreq(p_))
int MPI_Rget_accumulate(const void *o, int oc, MPI_Datatype ot, void *r, int rc, MPI_Datatype rt, int t, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Op m, MPI_Win h, MPI_Request *rq)
RMA((K_GACC, m == MPI_NO_OP ? 0 : o, m == MPI_NO_OP ? 0 : oc, ot, r, rc, rt, t, d, tc, tt, m, h), *rq = newreq(p_))
int MPI_Fetch_and_op(const void *o, void *r, MPI_Datatype dt, int t, MPI_Aint d, MPI_Op m, MPI_Win h)
RMA((K_FOP, m == MPI_NO_OP ? 0 : o, m == MPI_NO_OP ? 0 : 1, dt, r, 1, dt, t, d, 1, dt, m, h), )

/* ------------------------------------------------------------------ requests */
static freq *isfake(MPI_Request r) {
  for (freq *f = lz_reqs; f; f = f->next) if ((MPI_Request)f == r) return f;
  return 0;
}
static void retire(MPI_Request *r) {
  freq **q = &lz_reqs;
  while (*q && (MPI_Request)*q != *r) q = &(*q)->next;
  freq *f = *q; *q = f->next; lz_nreq--;
  if (f->o) f->o->rq = 0;
  free(f); *r = MPI_REQUEST_NULL;
}
static void rwait(freq *f) {
  op *p = f->o;
  if (f->done || !p) return;
  if (p->kind == K_PUT || p->kind == K_ACC) { snapshot(p); }
  else if (is_acc(p)) run_acc_upto(p->w, p);
  else execute(take(p->w, p));
  f->done = 1;
}
int MPI_Wait(MPI_Request *r, MPI_Status *s) {
  if (*r == MPI_REQUEST_NULL) return MPI_SUCCESS;
  freq *f = isfake(*r);
  if (!f) { fail("wait on a request that does not exist or was completed before"); return PMPI_Wait(r, s); }
  rwait(f); retire(r); return MPI_SUCCESS;
}
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *s) {
  for (int i = 0; i < n; i++) MPI_Wait(&r[i], MPI_STATUS_IGNORE);
  return MPI_SUCCESS;
}
int MPI_Test(MPI_Request *r, int *flag, MPI_Status *s) {
  *flag = 1;
  if (*r == MPI_REQUEST_NULL) return MPI_SUCCESS;
  freq *f = isfake(*r);
  if (!f) { fail("test of a request that does not exist or was completed before"); return MPI_SUCCESS; }
  if (!f->done && f->polls-- > 0) { *flag = 0; return MPI_SUCCESS; }
  rwait(f); retire(r); return MPI_SUCCESS;
}
int MPI_Testall(int n, MPI_Request *r, int *flag, MPI_Status *s) {
  int ok = 1;
  for (int i = 0; i < n; i++) {
    if (r[i] == MPI_REQUEST_NULL) continue;
    freq *f = isfake(r[i]);
    if (!f) { fail("test of a request that does not exist or was completed before"); return MPI_SUCCESS; }
    if (!f->done && f->polls-- > 0) ok = 0;
  }
  *flag = ok;
  if (ok) for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) { rwait(isfake(r[i])); retire(&r[i]); }
  return MPI_SUCCESS;
}

/* ------------------------------------------------------------------ windows */
static void reg(void *base, MPI_Aint size, int du, MPI_Comm c, MPI_Win h) {
  win *w = calloc(1, sizeof *w);
  w->h = h; w->comm = c; w->disp_unit = du;
  PMPI_Comm_size(c, &w->n); PMPI_Comm_rank(c, &w->me);
  w->size = calloc(w->n, sizeof(MPI_Aint)); w->base = calloc(w->n, sizeof(void *)); w->lock = calloc(w->n, sizeof(int));
  PMPI_Allgather(&size, 1, MPI_AINT, w->size, 1, MPI_AINT, c);
  PMPI_Allgather(&base, 8, MPI_BYTE, w->base, 8, MPI_BYTE, c);
  MPI_Group g, g0; PMPI_Comm_group(c, &g); PMPI_Comm_group(MPI_COMM_WORLD, &g0);
  for (int i = 0; i < w->n && i < 64; i++) PMPI_Group_translate_ranks(g, 1, &i, g0, &w->wr[i]);
  PMPI_Group_free(&g); PMPI_Group_free(&g0);
  w->next = lz_wins; lz_wins = w; lz_nwin++;
}
int MPI_Win_create(void *base, MPI_Aint size, int du, MPI_Info info, MPI_Comm c, MPI_Win *h) {
  int r = PMPI_Win_create(base, size, du, info, c, h); reg(base, size, du, c, *h); return r;
}
int MPI_Win_allocate(MPI_Aint size, int du, MPI_Info info, MPI_Comm c, void *b, MPI_Win *h) {
  int r = PMPI_Win_allocate(size, du, info, c, b, h); reg(*(void **)b, size, du, c, *h); return r;
}
int MPI_Win_free(MPI_Win *h) {
  win *w = find(*h), **q = &lz_wins;
  if (w->lockall) fail("window freed while its access epoch is open");
  if (w->head) fail("window freed with incomplete operations");
  while (*q != w) q = &(*q)->next;
  *q = w->next; lz_nwin--;
  free(w->size); free(w->base); free(w->lock); free(w);
  return PMPI_Win_free(h);
}
int MPI_Win_lock(int type, int rank, int as, MPI_Win h) { win *w = find(h); w->lock[rank]++; return PMPI_Win_lock(type, rank, as, h); }
int MPI_Win_unlock(int rank, MPI_Win h) { win *w = find(h); remote_done(w, rank); w->lock[rank]--; return PMPI_Win_unlock(rank, h); }
int MPI_Win_lock_all(int as, MPI_Win h) { win *w = find(h); w->lockall++; return PMPI_Win_lock_all(as, h); }
int MPI_Win_unlock_all(MPI_Win h) { win *w = find(h); remote_done(w, -1); w->lockall--; return PMPI_Win_unlock_all(h); }
#define EP if (!w->lockall && !(rank >= 0 && w->lock[rank])) fail("flush outside an access epoch")
int MPI_Win_flush(int rank, MPI_Win h) { win *w = find(h); if (rank < 0 || rank >= w->n) fail("flush of process %d of %d", rank, w->n); EP; remote_done(w, rank); return MPI_SUCCESS; }
int MPI_Win_flush_local(int rank, MPI_Win h) { win *w = find(h); if (rank < 0 || rank >= w->n) fail("flush of process %d of %d", rank, w->n); EP; local_done(w, rank); return MPI_SUCCESS; }
int MPI_Win_flush_all(MPI_Win h) { win *w = find(h); int rank = -1; EP; remote_done(w, -1); return MPI_SUCCESS; }
int MPI_Win_flush_local_all(MPI_Win h) { win *w = find(h); int rank = -1; EP; local_done(w, -1); return MPI_SUCCESS; }

/* ------------------------------------------------------------------ resources, failure */
int MPI_Alloc_mem(MPI_Aint size, MPI_Info i, void *p) {           /* plain heap: visible to the sanitizer */
  lz_nalloc++; void *q = malloc(size ? size : 1); memset(q, 0xA5, size); *(void **)p = q; return MPI_SUCCESS;
}
int MPI_Free_mem(void *p) { lz_nalloc--; free(p); return MPI_SUCCESS; }
int MPI_Op_create(MPI_User_function *f, int c, MPI_Op *o) { lz_nop++; return PMPI_Op_create(f, c, o); }
int MPI_Op_free(MPI_Op *o) { lz_nop--; return PMPI_Op_free(o); }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *n) { lz_ncomm++; return PMPI_Comm_dup(c, n); }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *n) { int r = PMPI_Comm_create(c, g, n); if (*n != MPI_COMM_NULL) lz_ncomm++; return r; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *n) { int r = PMPI_Comm_split(c, color, key, n); if (*n != MPI_COMM_NULL) lz_ncomm++; return r; }
int MPI_Intercomm_create(MPI_Comm c, int l, MPI_Comm p, int rl, int tag, MPI_Comm *n) { lz_ncomm++; return PMPI_Intercomm_create(c, l, p, rl, tag, n); }
int MPI_Intercomm_merge(MPI_Comm c, int h, MPI_Comm *n) { lz_ncomm++; return PMPI_Intercomm_merge(c, h, n); }
int MPI_Comm_free(MPI_Comm *c) { lz_ncomm--; return PMPI_Comm_free(c); }
int MPI_Comm_group(MPI_Comm c, MPI_Group *g) { lz_ngroup++; return PMPI_Comm_group(c, g); }
int MPI_Group_incl(MPI_Group c, int n, const int *r, MPI_Group *g) { lz_ngroup++; return PMPI_Group_incl(c, n, r, g); }
int MPI_Group_free(MPI_Group *g) { lz_ngroup--; return PMPI_Group_free(g); }
int MPI_Type_free(MPI_Datatype *t) { lz_ntype--; return PMPI_Type_free(t); }
static double clock0;
double MPI_Wtime(void) { if (lz_expect_abort || lz_aborted) { clock0 += 10; return clock0; } return PMPI_Wtime(); }
int MPI_Abort(MPI_Comm c, int code) {
  if (lz_expect_abort) { lz_aborted = 1; longjmp(lz_jmp, 1); }
  fail("the library aborted (code %d) on a valid call", code);
  return PMPI_Abort(c, code);
}
