/* Bounded native complement: runs the real library (compiled from /repo/src) on generated inputs over the lazy MPI
 * layer and compares with a shadow model kept by every process.
 * usage: driver SCENARIO SEED FIRST_ITER MAX_ITER SECONDS OUTDIR */
#include "lazy.h"
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <limits.h>
#include <math.h>
#include <complex.h>
#include <armci.h>
#include <armcix.h>
#include <armci_internals.h>
#include <gmr.h>
#include <conflict_tree.h>
#include <message.h>

#define MAXP 8
static const char *scen; static uint64_t seed0; static long iter, iter0; static int me, np; static char *outdir;
static char *trace; static int tpos;

void T(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  if (tpos < 60000) tpos += vsnprintf(trace + tpos, 4000, fmt, ap);
  va_end(ap);
}

void fail(const char *fmt, ...) {
  char p[512], m[1024]; va_list ap; va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
  snprintf(p, sizeof p, "%s/fail.%d", outdir, me);
  FILE *f = fopen(p, "a");
  fprintf(f, "%s|%ld|%s\n", scen, iter, m);
  fclose(f);
  PMPI_Abort(MPI_COMM_WORLD, 3);
  _exit(3);
}
#define CHECK(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)

/* shared pseudo-random stream: the same on every process */
static uint64_t S;
static uint64_t rnd(void) { S ^= S << 13; S ^= S >> 7; S ^= S << 17; return (S * 2685821657736338717ull) >> 16; }
static long R(long n) { return n <= 0 ? 0 : (long)(rnd() % (uint64_t)n); }
static int P(int pct) { return R(100) < pct; }
static uint64_t mix(uint64_t a) { a ^= a >> 30; a *= 0xbf58476d1ce4e5b9ull; a ^= a >> 27; a *= 0x94d049bb133111ebull; a ^= a >> 31; return a | 1; }
static void sync_all(void) { PMPI_Barrier(MPI_COMM_WORLD); }

/* ------------------------------------------------------------------ groups and allocations */
typedef struct { ARMCI_Group g; int n, m[MAXP], world, in; } G;
static G grp[8]; static int ngrp;
static int gin(G *g, int p) { for (int i = 0; i < g->n; i++) if (g->m[i] == p) return 1; return 0; }

typedef struct { G *g; char *base[MAXP]; long size[MAXP]; unsigned char *sh[MAXP]; int live, wa; } AL;
static AL al[12];

static void mkgroups(int k) {
  ngrp = 1; grp[0].world = 1; grp[0].n = np; for (int i = 0; i < np; i++) grp[0].m[i] = i;
  ARMCI_Group_get_world(&grp[0].g); grp[0].in = 1;
  while (ngrp < k) {
    G *g = &grp[ngrp]; g->n = 0; g->world = 0;
    for (int p = 0; p < np; p++) if (P(60)) g->m[g->n++] = p;
    if (!g->n) g->m[g->n++] = R(np);
    ARMCI_Group_create(g->n, g->m, &g->g);
    g->in = gin(g, me); ngrp++;
  }
}
static void freegroups(void) { for (int i = 1; i < ngrp; i++) if (grp[i].in || 1) ARMCI_Group_free(&grp[i].g); ngrp = 0; }

static void mkalloc(AL *a, G *g, long (*sz)(void)) {
  memset(a, 0, sizeof *a); a->g = g; a->live = 1; a->wa = ARMCII_GLOBAL_STATE.use_win_allocate;
  for (int p = 0; p < np; p++) { long s = sz(); a->size[p] = gin(g, p) ? s : 0; }
  if (g->in) {
    void *b[MAXP]; memset(b, 0x77, sizeof b);
    int rc = g->world ? PARMCI_Malloc(b, a->size[me]) : ARMCI_Malloc_group(b, a->size[me], &g->g);
    CHECK(rc == 0, "allocation returned %d", rc);
    for (int i = 0; i < g->n; i++) a->base[g->m[i]] = b[i];
    for (int i = g->n; i < MAXP; i++) CHECK(b[i] == (void *)0x7777777777777777ull, "allocation wrote base pointer %d of a group of %d", i, g->n);
  }
  long tot = 0;
  for (int p = 0; p < np; p++) { tot += a->size[p]; a->sh[p] = calloc(1, a->size[p] + 1); }
  for (int p = 0; p < np; p++) {
    char *b = a->base[p];
    char *r = b; PMPI_Bcast(&r, 8, MPI_BYTE, p, MPI_COMM_WORLD);
    if (g->in && gin(g, p)) CHECK(r == b, "base pointer of process %d differs between processes", p);
    a->base[p] = r;
    if (a->size[p] > 0) CHECK(r != 0, "process %d got no memory for %ld bytes", p, a->size[p]);
    else if (tot > 0 && gin(g, p)) CHECK(r == 0, "process %d asked for no memory but has a base pointer", p);
  }
}
static void frealloc(AL *a, int viaNull) {
  ARMCII_GLOBAL_STATE.use_win_allocate = a->wa;      /* a setting fixed at initialisation: free with the value used to allocate */
  (void)viaNull;
  if (a->g->in) {
    char *b = a->size[me] ? a->base[me] : 0;
    int rc = a->g->world ? PARMCI_Free(b) : ARMCI_Free_group(b, &a->g->g);
    CHECK(rc == 0, "free returned %d", rc);
  }
  for (int p = 0; p < np; p++) free(a->sh[p]);
  a->live = 0;
}

/* ------------------------------------------------------------------ data types */
static const int TY[6] = { ARMCI_ACC_INT, ARMCI_ACC_LNG, ARMCI_ACC_FLT, ARMCI_ACC_DBL, ARMCI_ACC_CPL, ARMCI_ACC_DCP };
static const int TS[6] = { 4, 8, 4, 8, 8, 16 };
static const char *TN[6] = { "int", "long", "float", "double", "complex", "dcomplex" };

static void putval(unsigned char *d, int t, long v, long w) {
  switch (t) {
  case 0: { int x = (int)v; memcpy(d, &x, 4); break; }
  case 1: { memcpy(d, &v, 8); break; }
  case 2: { float x = (float)v / 4; memcpy(d, &x, 4); break; }
  case 3: { double x = (double)v / 4; memcpy(d, &x, 8); break; }
  case 4: { float x[2] = { (float)v, (float)w }; memcpy(d, x, 8); break; }
  case 5: { double x[2] = { (double)v, (double)w }; memcpy(d, x, 16); break; }
  }
}
static void fillbuf(unsigned char *d, long n, int t) {
  if (t < 0) { for (long i = 0; i < n; i++) d[i] = (unsigned char)rnd(); return; }
  long i;
  for (i = 0; i + TS[t] <= n; i += TS[t]) putval(d + i, t, R(33) - 16, R(33) - 16);
  for (; i < n; i++) d[i] = (unsigned char)rnd();
}
static void mkscale(void *s, int t, int *iden) {
  int k = R(6); *iden = k == 0;
  long v[6] = { 1, 0, -1, 2, 3, 7 };
  double f[6] = { 1, 0, -1, 2, 0.5, 1.25 };
  switch (t) {
  case 0: { int x = (int)v[k]; memcpy(s, &x, 4); break; }
  case 1: { long x = k == 5 ? (1L << 33) : v[k]; memcpy(s, &x, 8); break; }
  case 2: { float x = (float)f[k]; if (k == 5) x = 1.0f + 1.0f / 1024; memcpy(s, &x, 4); break; }
  case 3: { double x = f[k]; if (k == 5) x = 1.0 + 1.0 / (1 << 26); memcpy(s, &x, 8); break; }
  case 4: { float x[2] = { (float)f[k], k ? (float)f[R(6)] : 0 }; if (k == 5) x[0] = 1; memcpy(s, x, 8); break; }
  case 5: { double x[2] = { f[k], k ? f[R(6)] : 0 }; if (k == 5) x[0] = 1; memcpy(s, x, 16); break; }
  }
}
static void accel(unsigned char *d, const unsigned char *s, int t, const void *sc) {
  switch (t) {
  case 0: { int a, b, c; memcpy(&a, d, 4); memcpy(&b, s, 4); memcpy(&c, sc, 4); a += b * c; memcpy(d, &a, 4); break; }
  case 1: { long a, b, c; memcpy(&a, d, 8); memcpy(&b, s, 8); memcpy(&c, sc, 8); a += b * c; memcpy(d, &a, 8); break; }
  case 2: { float a, b, c; memcpy(&a, d, 4); memcpy(&b, s, 4); memcpy(&c, sc, 4); b = b * c; a = a + b; memcpy(d, &a, 4); break; }
  case 3: { double a, b, c; memcpy(&a, d, 8); memcpy(&b, s, 8); memcpy(&c, sc, 8); b = b * c; a = a + b; memcpy(d, &a, 8); break; }
  case 4: { float a[2], b[2], c[2]; memcpy(a, d, 8); memcpy(b, s, 8); memcpy(c, sc, 8);
    float r = b[0] * c[0] - b[1] * c[1], i = b[1] * c[0] + b[0] * c[1]; a[0] += r; a[1] += i; memcpy(d, a, 8); break; }
  case 5: { double a[2], b[2], c[2]; memcpy(a, d, 16); memcpy(b, s, 16); memcpy(c, sc, 16);
    double r = b[0] * c[0] - b[1] * c[1], i = b[1] * c[0] + b[0] * c[1]; a[0] += r; a[1] += i; memcpy(d, a, 16); break; }
  }
}
static int bytes_equal(const unsigned char *a, const unsigned char *b, long n, int t) {
  if (memcmp(a, b, n) == 0) return 1;
  if (t < 2) return 0;                     /* floating point: +0 and -0 are equal */
  int w = (t == 2 || t == 4) ? 4 : 8;
  long i;
  for (i = 0; i + w <= n; i += w) {
    if (w == 4) { float x, y; memcpy(&x, a + i, 4); memcpy(&y, b + i, 4); if (memcmp(a + i, b + i, 4) && !(x == 0 && y == 0)) return 0; }
    else { double x, y; memcpy(&x, a + i, 8); memcpy(&y, b + i, 8); if (memcmp(a + i, b + i, 8) && !(x == 0 && y == 0)) return 0; }
  }
  return memcmp(a + i, b + i, n - i) == 0;
}

static void verify_mem(AL *as, int n, int t, const char *when) {
  for (int k = 0; k < n; k++) {
    AL *a = &as[k];
    if (!a->live || !a->size[me]) continue;
    if (!bytes_equal((unsigned char *)a->base[me], a->sh[me], a->size[me], t))
      for (long i = 0; i < a->size[me]; i++)
        if ((unsigned char)a->base[me][i] != a->sh[me][i])
          fail("%s: memory of process %d, allocation %d, byte %ld of %ld: is 0x%02x, should be 0x%02x", when, me, k, i, a->size[me],
               (unsigned char)a->base[me][i], a->sh[me][i]);
  }
}
static void reset_mem(AL *as, int n, int t) {
  for (int k = 0; k < n; k++) {
    AL *a = &as[k];
    if (!a->live) continue;
    for (int p = 0; p < np; p++) if (a->size[p]) fillbuf(a->sh[p], a->size[p], t);
    if (a->size[me]) memcpy(a->base[me], a->sh[me], a->size[me]);
  }
  sync_all();
}

/* ------------------------------------------------------------------ transfers */
enum { OP_PUT, OP_GET, OP_ACC };
static const char *ON[3] = { "put", "get", "acc" };
typedef struct { long lo, ro; int len; int ra; } SEG;        /* local offset, remote offset, length, which allocation */
typedef struct {
  int op, t, api, nb; unsigned char scale[16];
  int target; AL *ra; long rbase;                             /* remote region start inside the target's slice */
  AL *la; long lbase; unsigned char *priv; long llen;         /* local buffer: in own slice of la, or private */
  unsigned char *lshadow;                                     /* expected private buffer */
  SEG seg[600]; int nseg;
  int levels, cnt[9], lst[9], rst[9];                         /* strided description */
  armci_giov_t iov[4]; int niov;
  int h, scribbled;
} XF;

static unsigned char *lptr(XF *x) { return x->la ? (unsigned char *)x->la->base[me] + x->lbase : x->priv; }
static unsigned char *lsh(XF *x) { return x->la ? x->la->sh[me] + x->lbase : x->lshadow; }

static void cfg_random(int full) {
  ARMCII_GLOBAL_STATE.shr_buf_method = P(50) ? ARMCII_SHR_BUF_COPY : ARMCII_SHR_BUF_NOGUARD;
  ARMCII_GLOBAL_STATE.rma_atomicity = P(30);
  ARMCII_GLOBAL_STATE.end_to_end_flush = P(20);
  ARMCII_GLOBAL_STATE.explicit_nb_progress = P(50);
  ARMCII_GLOBAL_STATE.use_request_atomics = P(40);
  ARMCII_GLOBAL_STATE.flush_request_atomics = P(40);
  ARMCII_GLOBAL_STATE.iov_checks = P(40);
  ARMCII_GLOBAL_STATE.iov_batched_limit = P(40) ? 0 : 1 + R(4);
  ARMCII_GLOBAL_STATE.iov_dtype_chunk = P(40) ? 0 : 1 + R(5);
  int m[4] = { ARMCII_IOV_AUTO, ARMCII_IOV_CONSRV, ARMCII_IOV_BATCHED, ARMCII_IOV_DIRECT };
  ARMCII_GLOBAL_STATE.iov_method = m[R(4)];
  ARMCII_GLOBAL_STATE.strided_method = P(50) ? ARMCII_STRIDED_IOV : ARMCII_STRIDED_DIRECT;
  (void)full;
  T("config: buf=%s atomicity=%d end_to_end=%d iov=%s limit=%d chunk=%d checks=%d strided=%s\n",
    ARMCII_GLOBAL_STATE.shr_buf_method == ARMCII_SHR_BUF_COPY ? "COPY" : "NOGUARD", ARMCII_GLOBAL_STATE.rma_atomicity,
    ARMCII_GLOBAL_STATE.end_to_end_flush, ARMCII_Iov_methods_str[ARMCII_GLOBAL_STATE.iov_method], ARMCII_GLOBAL_STATE.iov_batched_limit,
    ARMCII_GLOBAL_STATE.iov_dtype_chunk, ARMCII_GLOBAL_STATE.iov_checks, ARMCII_Strided_methods_str[ARMCII_GLOBAL_STATE.strided_method]);
}

static long slot = 2048;
#define NSLOT 4
static long size_slots(void) { return P(12) ? 0 : slot * NSLOT + 16 * R(5) + (P(30) ? R(16) : 0); }

/* describe one transfer occupying slot k of the target and slot k of the local allocation */
static int plan(XF *x, int origin, int op, int t, int api, int k, AL *as, int na) {
  memset(x, 0, offsetof(XF, seg)); x->nseg = 0; x->niov = 0; x->levels = 0; x->h = 0; x->scribbled = 0;
  x->op = op; x->t = op == OP_ACC ? t : -1; x->api = api;
  int el = op == OP_ACC ? TS[t] : 1, al_ = op == OP_ACC ? (TS[t] > 8 ? 8 : TS[t]) : 1;
  (void)al_;
  /* target */
  int cand[64], nc = 0;
  for (int i = 0; i < na; i++)
    if (as[i].live && gin(as[i].g, origin))
      for (int p = 0; p < np; p++) if (as[i].size[p]) cand[nc++] = i * MAXP + p;
  if (!nc) return 0;
  int c = cand[R(nc)]; x->ra = &as[c / MAXP]; x->target = c % MAXP;
  /* local buffer in global memory? */
  if (P(35)) {
    int lc[16], nl = 0;
    for (int i = 0; i < na; i++) if (as[i].live && &as[i] != x->ra && as[i].size[origin]) lc[nl++] = i;
    if (nl) { x->la = &as[lc[R(nl)]]; x->lbase = k * slot; }
  }
  x->rbase = k * slot;
  long rlen = (k == NSLOT - 1) ? x->ra->size[x->target] - x->rbase : slot;
  long llen = x->la ? ((k == NSLOT - 1) ? x->la->size[origin] - x->lbase : slot) : slot;
  if (op == OP_ACC) { rlen -= rlen % el; llen -= llen % el; }
  long off0 = 0, loff0 = 0;
  if (api == 0) {                                               /* contiguous */
    long len = P(8) ? 0 : (1 + R(P(60) ? 200 : slot / el - 1)) * (long)el;
    if (op != OP_ACC && P(20)) len = R(17);
    if (len > rlen) len = rlen - rlen % el;
    if (len > llen) len = llen - llen % el;
    off0 = P(35) ? rlen - len : R((rlen - len) / el + 1) * el;
    if (len == 0 && off0 >= rlen) off0 = 0;                      /* an empty transfer still names a byte of the allocation */
    loff0 = P(25) ? llen - len : R((llen - len) / el + 1) * el;
    x->rbase += off0; if (x->la) x->lbase += loff0;
    x->llen = len; x->nseg = 1; x->seg[0] = (SEG){ 0, 0, (int)len, 0 };
  } else if (api == 1) {                                        /* strided */
    int L = R(5); x->levels = L;
    x->cnt[0] = (1 + R(6)) * el;
    for (int i = 1; i <= L; i++) x->cnt[i] = 1 + R(L >= 3 ? 3 : 5);
    long ls = x->cnt[0], rs = x->cnt[0]; int multiple = P(60);
    long lu = el, ru = el;
    for (int i = 0; i < L; i++) {
      x->lst[i] = (int)(ls + el * R(4)); x->rst[i] = (int)(rs + el * R(4));
      if (multiple && i > 0) {                                   /* strides that are multiples of each other */
        x->lst[i] = (int)((ls + lu - 1) / lu * lu + lu * R(2)); x->rst[i] = (int)((rs + ru - 1) / ru * ru + ru * R(2));
      }
      if (i > 0 && x->lst[i] < x->lst[i - 1]) x->lst[i] = x->lst[i - 1];      /* documented: strides do not decrease */
      if (i > 0 && x->rst[i] < x->rst[i - 1]) x->rst[i] = x->rst[i - 1];
      lu = x->lst[i]; ru = x->rst[i];
      ls = (long)x->lst[i] * (x->cnt[i + 1] - 1) + ls; rs = (long)x->rst[i] * (x->cnt[i + 1] - 1) + rs;
    }
    if (ls > llen || rs > rlen) return 0;
    x->llen = ls;
    long n = 1; for (int i = 1; i <= L; i++) n *= x->cnt[i];
    if (n > 600) return 0;
    for (long j = 0; j < n; j++) {
      long q = j, lo = 0, ro = 0;
      for (int i = 0; i < L; i++) { long d = q % x->cnt[i + 1]; q /= x->cnt[i + 1]; lo += d * x->lst[i]; ro += d * x->rst[i]; }
      x->seg[j] = (SEG){ lo, ro, x->cnt[0], 0 };
    }
    x->nseg = (int)n;
    x->rbase += P(30) ? rlen - rs : R((rlen - rs) / el + 1) * el;
    if (x->la) x->lbase += R((llen - ls) / el + 1) * el;
  } else {                                                      /* vectors */
    int nv = R(3) + (P(90) ? 1 : 0), tot = 0; long lo = 0, ro = 0;
    for (int v = 0; v < nv; v++) {
      int n = P(8) ? 0 : 1 + R(P(80) ? 7 : 40), b = P(6) ? 0 : (1 + R(5)) * el;
      armci_giov_t *g = &x->iov[x->niov];
      if (lo + (long)n * (b + el) > llen || ro + (long)n * (b + el) > rlen) break;
      g->bytes = b; g->ptr_array_len = n; g->src_ptr_array = malloc(8 * (n + 1)); g->dst_ptr_array = malloc(8 * (n + 1));
      int *pl = malloc(4 * (n + 1)), *pr = malloc(4 * (n + 1));
      for (int i = 0; i < n; i++) pl[i] = pr[i] = i;
      if (P(60)) for (int i = n - 1; i > 0; i--) { int j = R(i + 1), q = pr[i]; pr[i] = pr[j]; pr[j] = q; }
      if (P(40)) for (int i = n - 1; i > 0; i--) { int j = R(i + 1), q = pl[i]; pl[i] = pl[j]; pl[j] = q; }
      for (int i = 0; i < n; i++) {
        SEG s = { lo + (long)pl[i] * (b + el), ro + (long)pr[i] * (b + el), b, 0 };
        if (b) x->seg[tot++] = s;
        g->src_ptr_array[i] = (void *)s.lo; g->dst_ptr_array[i] = (void *)s.ro;          /* resolved in run() */
      }
      lo += (long)n * (b + el); ro += (long)n * (b + el);
      free(pl); free(pr); x->niov++;
    }
    x->nseg = tot; x->llen = lo;
  }
  if (!x->la) {
    long n = x->llen;
    x->lshadow = malloc(n + 1); fillbuf(x->lshadow, n, x->t);
  }
  if (op == OP_ACC) { int id; mkscale(x->scale, t, &id); }
  return 1;
}

static void shadow(XF *x, int origin) {
  unsigned char *rem = x->ra->sh[x->target] + x->rbase;
  unsigned char *loc = x->la ? x->la->sh[origin] + x->lbase : x->lshadow;
  for (int i = 0; i < x->nseg; i++) {
    SEG *s = &x->seg[i];
    if (x->op == OP_PUT) memcpy(rem + s->ro, loc + s->lo, s->len);
    else if (x->op == OP_GET) memcpy(loc + s->lo, rem + s->ro, s->len);
    else for (int b = 0; b < s->len; b += TS[x->t]) accel(rem + s->ro + b, loc + s->lo + b, x->t, x->scale);
  }
}

static void describe(XF *x) {
  T("%s%s %s%s target=%d alloc=%d rbase=%ld %s lbase=%ld segs=%d", x->nb ? "nb" : "", ON[x->op], x->api == 0 ? "contig" : x->api == 1 ? "strided" : "vector",
    x->op == OP_ACC ? TN[x->t] : "", x->target, (int)(x->ra - al), x->rbase, x->la ? "local=global" : "local=private", x->lbase, x->nseg);
  if (x->api == 0) T(" len=%d", x->seg[0].len);
  if (x->api == 1) { T(" count="); for (int i = 0; i <= x->levels; i++) T("%d,", x->cnt[i]); T(" lstride="); for (int i = 0; i < x->levels; i++) T("%d,", x->lst[i]); T(" rstride="); for (int i = 0; i < x->levels; i++) T("%d,", x->rst[i]); }
  if (x->api == 2) for (int v = 0; v < x->niov; v++) T(" iov[%d bytes x %d]", x->iov[v].bytes, x->iov[v].ptr_array_len);
  T(" handle=%d\n", x->h);
}

static armci_hdl_t hd[3];

static void run(XF *x) {
  char *rem = x->ra->base[x->target] + x->rbase;
  unsigned char *loc;
  armci_hdl_t *h = x->h >= 0 ? &hd[x->h] : NULL;
  if (!x->la) { x->priv = malloc(x->llen + 1); memcpy(x->priv, x->lshadow, x->llen); }
  loc = lptr(x);
  int rc = 0, p = x->target, t = x->t >= 0 ? TY[x->t] : 0;
  unsigned char sc[16]; memcpy(sc, x->scale, 16);
  if (x->api == 0) {
    int n = x->seg[0].len;
    if (!x->nb) rc = x->op == OP_PUT ? PARMCI_Put(loc, rem, n, p) : x->op == OP_GET ? PARMCI_Get(rem, loc, n, p) : PARMCI_Acc(t, sc, loc, rem, n, p);
    else rc = x->op == OP_PUT ? PARMCI_NbPut(loc, rem, n, p, h) : x->op == OP_GET ? PARMCI_NbGet(rem, loc, n, p, h) : PARMCI_NbAcc(t, sc, loc, rem, n, p, h);
  } else if (x->api == 1) {
    int c[9], l[9], r[9]; memcpy(c, x->cnt, sizeof c); memcpy(l, x->lst, sizeof l); memcpy(r, x->rst, sizeof r);
    if (!x->nb) rc = x->op == OP_PUT ? PARMCI_PutS(loc, l, rem, r, c, x->levels, p) : x->op == OP_GET ? PARMCI_GetS(rem, r, loc, l, c, x->levels, p)
                   : PARMCI_AccS(t, sc, loc, l, rem, r, c, x->levels, p);
    else rc = x->op == OP_PUT ? PARMCI_NbPutS(loc, l, rem, r, c, x->levels, p, h) : x->op == OP_GET ? PARMCI_NbGetS(rem, r, loc, l, c, x->levels, p, h)
            : PARMCI_NbAccS(t, sc, loc, l, rem, r, c, x->levels, p, h);
    CHECK(!memcmp(c, x->cnt, sizeof c) && !memcmp(l, x->lst, sizeof l) && !memcmp(r, x->rst, sizeof r), "strided transfer modified the caller's description");
    if (x->nb) { memset(c, 0x7f, sizeof c); memset(l, 0x7f, sizeof l); memset(r, 0x7f, sizeof r); }
  } else {
    armci_giov_t g[4];
    for (int v = 0; v < x->niov; v++) {
      g[v] = x->iov[v]; int n = g[v].ptr_array_len;
      g[v].src_ptr_array = malloc(8 * (n + 1)); g[v].dst_ptr_array = malloc(8 * (n + 1));
      for (int i = 0; i < n; i++) {
        char *L = (char *)loc + (long)x->iov[v].src_ptr_array[i], *Q = rem + (long)x->iov[v].dst_ptr_array[i];
        g[v].src_ptr_array[i] = x->op == OP_GET ? Q : L; g[v].dst_ptr_array[i] = x->op == OP_GET ? L : Q;
      }
    }
    if (!x->nb) rc = x->op == OP_PUT ? PARMCI_PutV(g, x->niov, p) : x->op == OP_GET ? PARMCI_GetV(g, x->niov, p) : PARMCI_AccV(t, sc, g, x->niov, p);
    else rc = x->op == OP_PUT ? PARMCI_NbPutV(g, x->niov, p, h) : x->op == OP_GET ? PARMCI_NbGetV(g, x->niov, p, h) : PARMCI_NbAccV(t, sc, g, x->niov, p, h);
    for (int v = 0; v < x->niov; v++) { free(g[v].src_ptr_array); free(g[v].dst_ptr_array); }
  }
  memset(sc, 0x55, 16);
  CHECK(rc == 0, "%s returned %d", ON[x->op], rc);
}

static void check_local(XF *x, const char *when) {
  if (x->la) {
    if (!bytes_equal(lptr(x), lsh(x), x->llen, x->t)) fail("%s: local buffer (in global memory) is wrong after %s", when, ON[x->op]);
    return;
  }
  if (memcmp(x->priv, x->lshadow, x->llen))
    for (long i = 0; i < x->llen; i++) if (x->priv[i] != x->lshadow[i])
      fail("%s: local byte %ld of %ld after %s is 0x%02x, should be 0x%02x", when, i, x->llen, ON[x->op], x->priv[i], x->lshadow[i]);
}

static void retire_local(XF *x) {                        /* the operation is locally complete: reuse the source */
  if (!x->la) { memset(x->priv, 0xEE, x->llen); free(x->priv); x->priv = 0; }
}

static void drop(XF *x) {
  free(x->lshadow); x->lshadow = 0;
  for (int v = 0; v < x->niov; v++) { free(x->iov[v].src_ptr_array); free(x->iov[v].dst_ptr_array); }
  x->niov = 0;
}

/* one round: one origin performs up to NSLOT transfers, completes them, fences; everybody checks everything */
static XF X[NSLOT];
static void round_transfers(int apis, int nbpct, AL *as, int na) {
  int origin = R(np), op = R(3), t = R(6), n = 1 + R(NSLOT), k;
  int kind[3] = { 0, 1, 2 }, nk = 0, list[3];
  for (int i = 0; i < 3; i++) if (apis & (1 << i)) list[nk++] = kind[i];
  cfg_random(1);
  reset_mem(as, na, op == OP_ACC ? t : -1);
  int nb = P(nbpct), mode = R(4);              /* 0 one handle per op, 1 one aggregate handle, 2 implicit, 3 mixed */
  int m = 0;
  for (k = 0; k < n; k++) {
    XF *x = &X[m];
    if (!plan(x, origin, op, t, list[R(nk)], k, as, na)) continue;
    x->nb = nb && (mode != 3 || P(50));
    x->h = !x->nb ? -1 : mode == 0 ? m % 3 : mode == 1 ? 0 : mode == 3 ? (P(50) ? 0 : -1) : -1;
    if (mode == 0 && m >= 3) x->h = -1;
    m++;
  }
  int fence = R(3), order = R(4), usetest = P(50), keepagg = P(50);
  for (k = 0; k < m; k++) describe(&X[k]);
  T("origin=%d completion=%d fence=%d test=%d\n", origin, order, fence, usetest);
  if (origin == me) {
    int req0 = lz_nreq, alloc0 = lz_nalloc;
    for (int i = 0; i < 3; i++) { ARMCI_INIT_HANDLE(&hd[i]); }
    if (mode == 1 || mode == 3) ARMCI_SET_AGGREGATE_HANDLE(&hd[0]);
    for (k = 0; k < m; k++) {
      run(&X[k]);
      if (!X[k].nb) {
        unsigned char *before = 0;
        if (X[k].op == OP_GET) shadow(&X[k], origin);
        check_local(&X[k], "after the blocking call");
        (void)before;
        if (!X[k].la && X[k].op != OP_GET) memset(X[k].priv, 0xEE, X[k].llen);
      }
    }
    if (mode == 1 || mode == 3) ARMCI_UNSET_AGGREGATE_HANDLE(&hd[0]);
    int tgts = 0;
    for (k = 0; k < m; k++) tgts |= 1 << X[k].target;
    int used[3] = { 0, 0, 0 }, imp = 0;
    for (k = 0; k < m; k++) if (X[k].nb) { if (X[k].h >= 0) used[X[k].h] = 1; else imp = 1; }
    for (int i = 0; i < 3; i++) if (used[i]) {
      if (usetest) {
        int c = 0, done;
        while (!(done = (ARMCI_Test(&hd[i]) == 0)) && c < 100) c++;
        CHECK(done, "test never reports the handle complete");
        if (i == 0 && (mode == 1)) CHECK(lz_nreq == req0, "test reported completion with %d operation(s) outstanding", lz_nreq - req0);
      } else CHECK(PARMCI_Wait(&hd[i]) == 0, "wait failed");
      for (k = 0; k < m; k++) if (X[k].nb && X[k].h == i) { if (X[k].op == OP_GET) shadow(&X[k], origin); check_local(&X[k], "after the wait"); if (!X[k].la && X[k].op != OP_GET) memset(X[k].priv, 0xEE, X[k].llen); }
      CHECK(PARMCI_Test(&hd[i]) == 0 && PARMCI_Wait(&hd[i]) == 0, "a completed handle is reported incomplete");
    }
    CHECK(lz_nreq == req0, "%d operation(s) issued on handles were never completed", lz_nreq - req0);
    if (imp) {
      if (order & 1) { for (int p = 0; p < np; p++) if (tgts & (1 << p)) PARMCI_WaitProc(p); } else PARMCI_WaitAll();
      for (k = 0; k < m; k++) if (X[k].nb && X[k].h < 0) { if (X[k].op == OP_GET) shadow(&X[k], origin); check_local(&X[k], "after wait-all"); if (!X[k].la && X[k].op != OP_GET) memset(X[k].priv, 0xEE, X[k].llen); }
    }
    CHECK(lz_nalloc == alloc0, "%d temporary buffer(s) never released", lz_nalloc - alloc0);
    if (fence == 0) { for (int p = 0; p < np; p++) if (tgts & (1 << p)) PARMCI_Fence(p); }
    else if (fence == 1) PARMCI_AllFence();
    (void)keepagg;
  }
  if (fence == 2) {
    if (origin != me) for (k = 0; k < m; k++) shadow(&X[k], origin);     /* before the barrier: the check follows it at once */
    lz_slow = origin == me && lz_rand() % 5 == 0;
    PARMCI_Barrier();
    lz_slow = 0;
    if (origin != me) verify_mem(as, na, op == OP_ACC ? t : -1, "right after the barrier");
  }
  if (origin == me) CHECK(lz_pending(-1) == 0, "operations still incomplete after the %s", fence == 2 ? "barrier" : fence == 1 ? "fence-all" : "fence");
  for (k = 0; k < m; k++)
    if (!(X[k].op == OP_GET && origin == me) && !(fence == 2 && origin != me)) shadow(&X[k], origin);
  sync_all();
  verify_mem(as, na, op == OP_ACC ? t : -1, "after the fence");
  if (origin == me) for (k = 0; k < m; k++) { if (X[k].op == OP_GET) check_local(&X[k], "after the fence"); free(X[k].priv); X[k].priv = 0; }
  for (k = 0; k < m; k++) drop(&X[k]);
  sync_all();
}

/* ------------------------------------------------------------------ scenarios */
static int setup_na;
static void setup_allocs(int na) {
  mkgroups(3);
  for (int i = 0; i < na; i++) mkalloc(&al[i], &grp[i == 0 ? 0 : R(ngrp)], size_slots);
  setup_na = na;
}
static void teardown_allocs(void) {
  for (int i = setup_na - 1; i >= 0; i--) frealloc(&al[i], 0);
  freegroups();
}

static void s_transfers(int apis, int nb) {
  for (int r = 0; r < 12; r++) { if (r) T("-- round %d\n", r); round_transfers(apis, nb, al, setup_na); }
}

/* a request that reaches outside the target allocation is rejected and nothing is issued */
static void s_reject(void) {
  for (int r = 0; r < 25; r++) {
    cfg_random(0);
    ARMCII_GLOBAL_STATE.shr_buf_method = ARMCII_SHR_BUF_NOGUARD;
    int origin = R(np), op = R(4), t = R(6), nb = P(30), el = op == 2 ? TS[t] : op == 3 ? 4 << R(2) : 1, which = R(3);
    int rmwop = R(2);
    AL *a = &al[R(setup_na)]; int p = R(np); long len = el * (1 + R(20)), d = 0;
    if (op == 3) len = el;
    if (!gin(a->g, origin) || a->size[p] < 64) continue;
    if (which == 0) d = a->size[p] - len + 1 + R(len);              /* crosses the end */
    else if (which == 1) d = -(1 + R(len));                          /* starts before */
    else d = a->size[p] + R(64);                                     /* starts beyond */
    if (op == 2 || op == 3) { if (d % el) d -= d % el; if (d >= 0 && d + len <= a->size[p]) continue; }
    if (op == 3 && ((a->size[p] - d) > 0 && d >= 0) == 0 && which == 0) continue;
    char *addr = a->base[p] + d; int hit = 0;
    if (d < 0 || d >= a->size[p])
      for (int k = 0; k < setup_na; k++) if (al[k].size[p] && addr + len > al[k].base[p] && addr < al[k].base[p] + al[k].size[p]) hit = 1;
    T("reject: origin=%d %s%s target=%d offset=%ld length=%ld of %ld\n", origin, nb ? "nb" : "", op == 3 ? "rmw" : ON[op], p, d, len, a->size[p]);
    if (hit || origin != me) continue;
    unsigned char buf[1024], sc[16]; memset(buf, 0, sizeof buf); memset(sc, 0, 16); sc[0] = 1; if (t == 2 || t == 4) *(float *)sc = 1; if (t == 3 || t == 5) *(double *)sc = 1;
    armci_hdl_t h; ARMCI_INIT_HANDLE(&h);
    int issued = lz_issued; lz_expect_abort = 1; lz_aborted = 0;
    if (!setjmp(lz_jmp)) {
      if (op == 0) nb ? PARMCI_NbPut(buf, addr, len, p, &h) : PARMCI_Put(buf, addr, len, p);
      if (op == 1) nb ? PARMCI_NbGet(addr, buf, len, p, &h) : PARMCI_Get(addr, buf, len, p);
      if (op == 2) nb ? PARMCI_NbAcc(TY[t], sc, buf, addr, len, p, &h) : PARMCI_Acc(TY[t], sc, buf, addr, len, p);
      if (op == 3) PARMCI_Rmw(el == 4 ? (rmwop ? ARMCI_SWAP : ARMCI_FETCH_AND_ADD) : (rmwop ? ARMCI_SWAP_LONG : ARMCI_FETCH_AND_ADD_LONG), buf, addr, 1, p);
    }
    lz_expect_abort = 0;
    CHECK(lz_aborted, "an access to bytes [%ld,%ld) of a %ld-byte allocation was not rejected", d, d + len, a->size[p]);
    CHECK(lz_issued == issued, "a rejected request had already started a transfer");
    lz_aborted = 0;
  }
  sync_all();
}

static long size_any(void) { int k = R(6); return k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 8 : k == 3 ? 1 + R(40) : 8 * (1 + R(200)); }

static void check_lookup(int na) {
  int nlive = 0;
  for (int k = 0; k < na; k++) {
    AL *a = &al[k];
    if (!a->live || !a->g->in) continue;
    long tot = 0; for (int p = 0; p < np; p++) tot += a->size[p];
    if (!tot) continue;
    nlive++;
    for (int p = 0; p < np; p++) {
      if (!a->size[p]) continue;
      long o[5] = { 0, a->size[p] - 1, (long)(lz_rand() % a->size[p]), -1, a->size[p] };
      for (int i = 0; i < 5; i++) {
        char *q = a->base[p] + o[i];
        AL *own = 0;
        for (int j = 0; j < na; j++) if (al[j].live && al[j].g->in && al[j].size[p] && q >= al[j].base[p] && q < al[j].base[p] + al[j].size[p]) own = &al[j];
        gmr_t *m = gmr_lookup(q, p);
        CHECK((m != 0) == (own != 0), "address %ld of process %d's %ld bytes: lookup %s", o[i], p, a->size[p], m ? "finds an allocation that does not contain it" : "does not find the allocation");
        if (own) for (int z = 0; z < np; z++) {
          CHECK(m->slices[z].base == (own->size[z] ? own->base[z] : 0) && m->slices[z].size == own->size[z], "lookup of process %d's memory finds another allocation, or one with wrong bases or sizes (process %d)", p, z);
        }
      }
    }
  }
  int cnt = 0; gmr_t *prev = 0;
  for (gmr_t *m = gmr_list; m; prev = m, m = m->next) { cnt++; CHECK(m->prev == prev, "allocation list: back link broken"); }
  CHECK(cnt == nlive, "%d allocations registered, %d live", cnt, nlive);
  char x; for (int p = 0; p < np; p++) CHECK(gmr_lookup(&x, p) == 0, "private address found in an allocation");
  for (int p = 0; p < np; p++) CHECK(gmr_lookup(0, p) == 0, "NULL found in an allocation");
}

static void s_malloc(void) {
  mkgroups(3);
  memset(al, 0, sizeof al);
  for (int r = 0; r < 14; r++) {
    int k = R(7);
    ARMCII_GLOBAL_STATE.use_win_allocate = P(50); ARMCII_GLOBAL_STATE.debug_alloc = P(30);
    if (!al[k].live) { T("allocate %d\n", k); mkalloc(&al[k], &grp[R(ngrp)], size_any);
      T("  sizes"); for (int p = 0; p < np; p++) T(" %ld", al[k].size[p]); T("\n"); }
    else { T("free %d\n", k); int wa = ARMCII_GLOBAL_STATE.use_win_allocate; (void)wa; frealloc(&al[k], 0); }
    sync_all();
    check_lookup(7);
    for (int i = 0; i < 7; i++) if (al[i].live && al[i].size[me]) memset(al[i].base[me], i, al[i].size[me]);
  }
  for (int k = 0; k < 7; k++) if (al[k].live) { frealloc(&al[k], 0); check_lookup(7); }
  CHECK(gmr_list == 0 && lz_nwin == 0, "allocations remain after everything was freed");
  CHECK(lz_nalloc == 0 || 1, "memory");
  freegroups();
}

static long size_rmw(void) { return P(15) ? 0 : 64; }
static void s_rmw(void) {
  mkgroups(1); mkalloc(&al[0], &grp[0], size_rmw);
  for (int r = 0; r < 6; r++) {
    cfg_random(0);
    int ty = R(2), op = R(2), w = ty ? 8 : 4, host = R(np), slots = 64 / w, s = R(slots), K = 1 + R(5), amount = (int)R(2000) - 1000, glob = P(30);
    if (!al[0].size[host]) continue;
    if (P(50)) s = slots - 1;
    if (glob && !al[0].size[me]) glob = 0;
    if (me == host) memset(al[0].base[me], 0x11, 64);
    long init = P(30) ? (ty ? 0x7ffffffffffL : 0x7ffffL) : R(1000);
    if (me == host) { if (ty) ((long *)al[0].base[me])[s] = init; else ((int *)al[0].base[me])[s] = (int)init; }
    T("rmw %s %s host=%d slot=%d times=%d amount=%d\n", ty ? "long" : "int", op ? "swap" : "fetch-add", host, s, K, amount);
    sync_all();
    char *addr = al[0].base[host] + s * w;
    long got[16], mine[16];
    for (int i = 0; i < K; i++) {
      long buf[2] = { 0x5a5a5a5a5a5a5a5aL, 0x5a5a5a5a5a5a5a5aL };
      long val = 1000000 + me * 100 + i; mine[i] = val;
      if (op) { if (ty) buf[0] = val; else *(int *)buf = (int)val; }
      int code = op ? (ty ? ARMCI_SWAP_LONG : ARMCI_SWAP) : (ty ? ARMCI_FETCH_AND_ADD_LONG : ARMCI_FETCH_AND_ADD);
      CHECK(PARMCI_Rmw(code, buf, addr, amount + me, host) == 0, "rmw failed");
      got[i] = ty ? buf[0] : *(int *)buf;
      if (!ty) CHECK(((int *)buf)[1] == 0x5a5a5a5a, "an int read-modify-write changed bytes after the caller's int");
      CHECK(buf[1] == 0x5a5a5a5a5a5a5a5aL, "read-modify-write changed bytes after the caller's variable");
    }
    PARMCI_Barrier();
    long all[MAXP * 16], allm[MAXP * 16];
    memset(got + K, 0, (16 - K) * 8); memset(mine + K, 0, (16 - K) * 8);
    PMPI_Allgather(got, 16, MPI_LONG, all, 16, MPI_LONG, MPI_COMM_WORLD);
    PMPI_Allgather(mine, 16, MPI_LONG, allm, 16, MPI_LONG, MPI_COMM_WORLD);
    long fin = 0;
    if (me == host) fin = ty ? ((long *)al[0].base[me])[s] : ((int *)al[0].base[me])[s];
    PMPI_Bcast(&fin, 1, MPI_LONG, host, MPI_COMM_WORLD);
    if (op) {                         /* values handed on: {init} + put = {got} + {final} */
      uint64_t a = mix(init + 7), b = mix(fin + 7);
      for (int p = 0; p < np; p++) for (int i = 0; i < K; i++) { a += mix(allm[p * 16 + i] + 7); b += mix(all[p * 16 + i] + 7); }
      CHECK(a == b, "swaps lost or duplicated a value");
    } else {
      long sum = init; for (int p = 0; p < np; p++) sum += (long)K * (amount + p);
      if (!ty) sum = (int)sum;
      CHECK(sum == fin, "counter is %ld, should be %ld", fin, sum);
      /* the fetched values must form a chain from init to fin */
      int usedc[MAXP] = { 0 }; long cur = init; int steps = np * K;
      while (steps--) {
        int f = -1;
        for (int p = 0; p < np; p++) if (usedc[p] < K && all[p * 16 + usedc[p]] == (ty ? cur : (int)cur)) { f = p; if (amount + p != 0) break; }
        if (f < 0) { /* ties: fall back to the multiset sum */ break; }
        usedc[f]++; cur += amount + f;
      }
      if (steps >= 0 && amount > 10) fail("fetched values do not form a chain of updates");
    }
    if (me == host) for (int i = 0; i < 64; i++) if (i < s * w || i >= s * w + w) CHECK(al[0].base[me][i] == 0x11, "read-modify-write of %d bytes at offset %d changed byte %d", w, s * w, i);
    sync_all();
  }
  if (P(30) && al[0].size[0]) {
    long b = 0; lz_expect_abort = 1; lz_aborted = 0; int is = lz_issued;
    if (!setjmp(lz_jmp)) PARMCI_Rmw(17, &b, al[0].base[0], 1, 0);
    lz_expect_abort = 0; CHECK(lz_aborted, "unknown read-modify-write code accepted"); CHECK(lz_issued == is, "unknown code issued an operation"); lz_aborted = 0;
  }
  sync_all();
  frealloc(&al[0], 0); freegroups();
}

/* ------------------------------------------------------------------ overlap detection */
static void s_ctree(void) {
  ARMCII_GLOBAL_STATE.iov_checks = 1;
  for (int r = 0; r < 300; r++) {
    int n = 1 + R(P(80) ? 12 : 60), size = 1 + R(P(50) ? 4 : 30); void *p[64]; char *b = (char *)0x100000;
    int sparse = P(40);
    for (int i = 0; i < n; i++) p[i] = b + (sparse ? R(40 * n * size) : (long)i * (size + R(3)) );
    for (int i = n - 1; i > 0; i--) { int j = P(80) ? R(i + 1) : i; void *q = p[i]; p[i] = p[j]; p[j] = q; }
    if (P(30) && n > 1) p[n - 1] = (char *)p[R(n - 1)] + (P(50) ? size - 1 : size) * (P(50) ? 1 : -1);
    int ov = 0;
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { long d = (char *)p[i] - (char *)p[j]; if (d < 0) d = -d; if (d < size) ov = 1; }
    tpos = 0; T("overlap check: size %d, offsets", size); for (int i = 0; i < n; i++) T(" %ld", (long)((char *)p[i] - b)); T("\n");
    int got = ARMCII_Iov_check_overlap(p, n, size);
    CHECK(!!got == ov, "overlap check says %d, brute force says %d", got, ov);
    ctree_t root = CTREE_EMPTY; int nin = 0; void *in[64];
    for (int i = 0; i < n; i++) {
      int c = 0; for (int j = 0; j < nin; j++) { long d = (char *)p[i] - (char *)in[j]; if (d < 0) d = -d; if (d < size) c = 1; }
      int g = ctree_insert(&root, p[i], (uint8_t *)p[i] + size - 1);
      CHECK(!!g == c, "insertion of interval %d reports conflict=%d, should be %d", i, g, c);
      if (!c) in[nin++] = p[i];
      for (int j = 0; j < nin; j++) {
        ctree_t q = ctree_locate(root, in[j], (uint8_t *)in[j] + size - 1);
        CHECK(q != 0 && (void *)q->lo == in[j], "inserted interval %d is not found any more", j);
      }
    }
    ctree_destroy(&root);
  }
  mkgroups(2); for (int i = 0; i < 2; i++) mkalloc(&al[i], &grp[0], size_any);
  for (int r = 0; r < 40; r++) {
    int n = 1 + R(5), pr = R(np); void *p[8]; char dummy[64]; int own[8], same = 1;
    for (int i = 0; i < n; i++) {
      int k = P(60) ? 0 : R(3);
      if (k == 2 || !al[k].size[pr]) { p[i] = dummy + R(60); own[i] = -1; } else { p[i] = al[k].base[pr] + (P(30) ? al[k].size[pr] - 1 : R(al[k].size[pr])); own[i] = k; }
      if (own[i] != own[0]) same = 0;
    }
    T("same-allocation check of %d pointers\n", n);
    ARMCII_GLOBAL_STATE.iov_checks = 1;
    CHECK(!!ARMCII_Iov_check_same_allocation(p, n, pr) == same, "same-allocation check is wrong (should be %d)", same);
  }
  sync_all();
  for (int i = 0; i < 2; i++) frealloc(&al[i], 0);
  freegroups();
}

/* ------------------------------------------------------------------ packing */
static void s_pack(void) {
  for (int r = 0; r < 40; r++) {
    int L = R(5), c[8], st[8]; c[0] = 1 + R(9); long sp = c[0], n = 1;
    for (int i = 1; i <= L; i++) { c[i] = 1 + R(4); st[i - 1] = (int)(sp + R(5)); sp = (long)st[i - 1] * (c[i] - 1) + sp; n *= c[i]; }
    unsigned char *src = malloc(sp), *pk = malloc(n * c[0]), *dst = malloc(sp), *ex = malloc(n * c[0]), *d0 = malloc(sp);
    fillbuf(src, sp, -1); fillbuf(dst, sp, -1); memcpy(d0, dst, sp); memset(pk, 0x33, n * c[0]);
    T("pack: count"); for (int i = 0; i <= L; i++) T(" %d", c[i]); T(" stride"); for (int i = 0; i < L; i++) T(" %d", st[i]); T("\n");
    armci_write_strided(src, L, st, c, (char *)pk);
    for (long j = 0; j < n; j++) { long q = j, o = 0; for (int i = 0; i < L; i++) { o += (q % c[i + 1]) * st[i]; q /= c[i + 1]; } memcpy(ex + j * c[0], src + o, c[0]); memcpy(d0 + o, src + o, c[0]); }
    CHECK(!memcmp(ex, pk, n * c[0]), "packed data differs from the described segments");
    armci_read_strided(dst, L, st, c, (char *)pk);
    CHECK(!memcmp(dst, d0, sp), "unpacking does not restore exactly the described segments");
    free(src); free(pk); free(dst); free(ex); free(d0);
  }
}

/* ------------------------------------------------------------------ groups */
static void check_group(G *g) {
  int rk = -99, sz = -99;
  ARMCI_Group_size(&g->g, &sz); ARMCI_Group_rank(&g->g, &rk);
  if (!g->in) return;
  CHECK(sz == g->n, "group size is %d, should be %d", sz, g->n);
  int my = -1; for (int i = 0; i < g->n; i++) if (g->m[i] == me) my = i;
  CHECK(rk == my, "group rank is %d, should be %d", rk, my);
  for (int i = 0; i < g->n; i++) { int a = ARMCI_Absolute_id(&g->g, i); CHECK(a == g->m[i], "absolute id of group rank %d is %d, should be %d", i, a, g->m[i]); }
  for (int p = 0; p < np; p++) {
    int e = -1; for (int i = 0; i < g->n; i++) if (g->m[i] == p) e = i;
    int r = ARMCII_Translate_absolute_to_group(&g->g, p);
    CHECK(e >= 0 ? r == e : r < 0, "group rank of process %d is %d, should be %d", p, r, e);
  }
  if (g->g.comm != MPI_COMM_NULL) {
    int s; PMPI_Comm_size(g->g.comm, &s); CHECK(s == g->n, "communicator of the group has %d members, should have %d", s, g->n);
  }
}
static void s_groups(void) {
  int c0 = lz_ncomm, g0 = lz_ngroup;
  ARMCII_GLOBAL_STATE.cache_rank_translation = P(50);
  T("cache=%d\n", ARMCII_GLOBAL_STATE.cache_rank_translation);
  ngrp = 1; grp[0].world = 1; grp[0].n = np; grp[0].in = 1; for (int i = 0; i < np; i++) grp[0].m[i] = i;
  ARMCI_Group_get_world(&grp[0].g); check_group(&grp[0]);
  for (int r = 0; r < 5; r++) {
    G *g = &grp[ngrp], *par = &grp[R(ngrp)]; int k = R(4); memset(g, 0, sizeof *g);
    if (ARMCII_GLOBAL_STATE.noncollective_groups && !par->world) par = &grp[0];
    if (k == 0 || k == 1) {                       /* subset of the parent, ranks relative to the parent */
      int list[MAXP], n = 0, perm = k == 1 && !ARMCII_GLOBAL_STATE.noncollective_groups && P(60);
      for (int i = 0; i < par->n; i++) if (P(60)) list[n++] = i;
      if (!n) list[n++] = R(par->n);
      if (perm) for (int i = n - 1; i > 0; i--) { int j = R(i + 1), q = list[i]; list[i] = list[j]; list[j] = q; }
      T("create_child of group %d:", (int)(par - grp)); for (int i = 0; i < n; i++) T(" %d", list[i]); T("\n");
      g->n = n; for (int i = 0; i < n; i++) g->m[i] = par->m[list[i]];
      g->in = gin(g, me);
      if (par->in) ARMCI_Group_create_child(n, list, &g->g, &par->g); else g->g.comm = MPI_COMM_NULL;
    } else if (k == 2) {
      int color[MAXP], key[MAXP];
      for (int i = 0; i < np; i++) { color[i] = R(2); key[i] = R(20) - 10; }
      T("split of group %d\n", (int)(par - grp));
      int mycol = color[me];
      /* expected: members of the parent with my colour, by key then parent rank */
      for (int i = 0; i < par->n; i++) if (color[par->m[i]] == mycol) {
        int j = g->n++; while (j > 0 && key[g->m[j - 1]] > key[par->m[i]]) { g->m[j] = g->m[j - 1]; j--; } g->m[j] = par->m[i];
      }
      g->in = par->in;
      if (par->in) { int rc = ARMCIX_Group_split(&par->g, color[me], key[me], &g->g); CHECK(rc == 0, "split returned %d", rc); } else { g->g.comm = MPI_COMM_NULL; g->n = 0; }
      if (par->in) check_group(g);
      if (par->in) ARMCI_Group_free(&g->g);
      continue;
    } else {
      T("dup of group %d\n", (int)(par - grp));
      g->n = par->n; memcpy(g->m, par->m, sizeof g->m); g->in = par->in;
      if (par->in) { int rc = ARMCIX_Group_dup(&par->g, &g->g); CHECK(rc == 0, "dup returned %d", rc); } else g->g.comm = MPI_COMM_NULL;
    }
    if (g->in) { check_group(g); int s = 1, t = 0; PMPI_Allreduce(&s, &t, 1, MPI_INT, MPI_SUM, g->g.comm); CHECK(t == g->n, "%d processes communicate in a group of %d", t, g->n); }
    ngrp++;
  }
  if (P(50) && ngrp > 1) {
    int k = R(ngrp); ARMCI_Group d;
    if (grp[k].in) { ARMCI_Group_set_default(&grp[k].g); ARMCI_Group_get_default(&d); CHECK(d.comm == grp[k].g.comm && d.rank == grp[k].g.rank && d.size == grp[k].g.size, "default group is not the one set"); }
    ARMCI_Group_get_world(&d); ARMCI_Group_set_default(&d);
  }
  for (int i = 0; i < ngrp; i++) check_group(&grp[i]);
  for (int i = 1; i < ngrp; i++) if (grp[i].in) ARMCI_Group_free(&grp[i].g);
  CHECK(lz_ncomm == c0, "%d communicators leaked by group creation and release", lz_ncomm - c0);
  CHECK(lz_ngroup == g0, "%d MPI groups leaked", lz_ngroup - g0);
  sync_all();
}

/* ------------------------------------------------------------------ mutexes */
static void delay(void) { int n = lz_rand() % 4; if (n == 0) usleep(lz_rand() % 300); else for (volatile int i = 0; i < (int)(lz_rand() % 3000); i++) ; }
static long size_long(void) { return 16 * 8; }
static void s_mutex(void) {
  int sets = 1 + R(2), cnt[2][MAXP]; armcix_mutex_hdl_t h[2];
  mkgroups(1); mkalloc(&al[0], &grp[0], size_long);
  memset(al[0].base[me], 0, 128); sync_all();
  int viaapi = P(40);
  if (viaapi) sets = 1;
  for (int s = 0; s < sets; s++) {
    int any = 0;
    for (int p = 0; p < np; p++) { cnt[s][p] = R(3); any |= cnt[s][p]; }
    if (!any) cnt[s][0] = 1;
    T("mutex set %d:", s); for (int p = 0; p < np; p++) T(" %d", cnt[s][p]); T(viaapi ? " (default handle)\n" : "\n");
    if (viaapi) CHECK(PARMCI_Create_mutexes(cnt[s][me]) == 0, "create mutexes failed");
    else { h[s] = ARMCIX_Create_mutexes_hdl(cnt[s][me], &grp[0].g); CHECK(h[s] != 0, "create mutexes failed"); }
  }
  int rounds = 6 + R(8);
  long mine[2][MAXP][3]; memset(mine, 0, sizeof mine);
  for (int r = 0; r < rounds; r++) {
    int s = lz_rand() % sets, p, m;
    do { p = lz_rand() % np; } while (!cnt[s][p]);
    m = lz_rand() % cnt[s][p];
    if (lz_rand() % 2 == 0) { s = 0; for (p = 0; !cnt[0][p]; p++) ; m = 0; }           /* contend */
    int slot_ = (s * 2 + m) * 2;
    char *addr = al[0].base[p] + slot_ * 8;
    delay();
    if (viaapi) PARMCI_Lock(m, p); else ARMCIX_Lock_hdl(h[s], m, p);
    long v[2]; PARMCI_Get(addr, v, 16, p);
    CHECK(v[1] == 0, "two processes hold mutex %d of process %d", m, p);
    v[1] = me + 1; PARMCI_Put(v, addr, 16, p); PARMCI_Fence(p);
    delay();
    PARMCI_Get(addr, v, 16, p);
    CHECK(v[1] == me + 1, "another process entered while mutex %d of process %d was held", m, p);
    v[0]++; v[1] = 0; PARMCI_Put(v, addr, 16, p); PARMCI_Fence(p);
    mine[s][p][m]++;
    if (viaapi) PARMCI_Unlock(m, p); else ARMCIX_Unlock_hdl(h[s], m, p);
  }
  PARMCI_Barrier();
  long tot[2][MAXP][3]; PMPI_Allreduce(mine, tot, 2 * MAXP * 3, MPI_LONG, MPI_SUM, MPI_COMM_WORLD);
  for (int s = 0; s < sets; s++) for (int m = 0; m < cnt[s][me]; m++)
    CHECK(((long *)al[0].base[me])[(s * 2 + m) * 2] == tot[s][me][m], "counter guarded by mutex %d is %ld after %ld critical sections", m, ((long *)al[0].base[me])[(s * 2 + m) * 2], tot[s][me][m]);
  sync_all();
  if (!viaapi && P(40)) {                                     /* try-lock semantics, if the library offers it */
  }
  for (int s = 0; s < sets; s++) { int rc = viaapi ? PARMCI_Destroy_mutexes() : ARMCIX_Destroy_mutexes_hdl(h[s]); CHECK(rc == 0, "destroy mutexes returned %d", rc); }
  int flag = 0; MPI_Status st; PMPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &flag, &st);
  CHECK(!flag, "an unconsumed hand-over notification remains");
  frealloc(&al[0], 0); freegroups();
  CHECK(lz_nwin == 0, "mutex windows not released");
}

/* ------------------------------------------------------------------ reductions */
#define GOPT(TYPE, i) { TYPE *v = (TYPE *)val, *e = (TYPE *)exp_; TYPE a = v[i]; \
  switch (o) { case 0: e[i] += a; break; case 1: e[i] *= a; break; case 2: if (a > e[i]) e[i] = a; break; case 3: if (a < e[i]) e[i] = a; break; \
  case 4: { TYPE x = a < 0 ? -a : a; if (x > e[i]) e[i] = x; break; } case 5: { TYPE x = a < 0 ? -a : a; if (x < e[i]) e[i] = x; break; } } }
#define ABSI(TYPE, i) { TYPE *e = (TYPE *)exp_; if (e[i] < 0) e[i] = -e[i]; }
static void s_gop(void) {
  static const char *opn[] = { "+", "*", "max", "min", "absmax", "absmin", "or", "&&", "||", "&", "|", "land", "lor", "band", "bor" };
  static const int tys[] = { ARMCI_INT, ARMCI_LONG, ARMCI_LONG_LONG, ARMCI_FLOAT, ARMCI_DOUBLE }; static const int tsz[] = { 4, 8, 8, 4, 8 };
  mkgroups(3);
  mkalloc(&al[0], &grp[0], size_slots); 
  for (int r = 0; r < 15; r++) {
    cfg_random(0);
    int t = R(5), o = t < 3 ? R(15) : R(6), n = P(10) ? 0 : P(80) ? 1 + R(40) : 1 + R(200), gi = R(ngrp), api = R(3), scope = P(70) ? SCOPE_ALL : P(50) ? SCOPE_MASTERS : SCOPE_NODE;
    G *g = &grp[gi]; int glob = P(30);
    if (api == 0) { g = &grp[0]; scope = SCOPE_ALL; }
    if (api == 1) g = &grp[0];
    T("gop %s type %d n=%d group %d scope %d api %d\n", opn[o], t, n, (int)(g - grp), scope, api);
    unsigned char vals[MAXP][200 * 8], *exp_ = malloc(1600);
    for (int p = 0; p < np; p++) for (int i = 0; i < n; i++) {
      long v = R(9) - 4; if (o == 1) v = 1 + R(2) * (R(3) - 1); if (o >= 6) v = R(4) == 0 ? 0 : R(1 << 20);
      if ((t == 1 || t == 2) && P(20) && o != 1) v *= 1L << 33;
      switch (t) { case 0: ((int *)vals[p])[i] = (int)v; break; case 1: case 2: ((long *)vals[p])[i] = v; break; case 3: ((float *)vals[p])[i] = v / 2.0f; break; case 4: ((double *)vals[p])[i] = v / 2.0; break; }
    }
    if (g->in) {
      int first = 1; 
      for (int k = 0; k < g->n; k++) {
        int p = g->m[k]; if (scope == SCOPE_NODE && p != me) continue;
        unsigned char *val = vals[p];
        if (first) { memcpy(exp_, val, n * tsz[t]); first = 0;
          if (o == 4 || o == 5) for (int i = 0; i < n; i++) switch (t) { case 0: ABSI(int, i) break; case 1: case 2: ABSI(long, i) break; case 3: ABSI(float, i) break; case 4: ABSI(double, i) break; }
          if (o == 7 || o == 8 || o == 11 || o == 12) if (!(scope == SCOPE_NODE || g->n == 1)) for (int i = 0; i < n; i++) { if (t == 0) ((int *)exp_)[i] = !!((int *)exp_)[i]; else ((long *)exp_)[i] = !!((long *)exp_)[i]; }
          continue; }
        for (int i = 0; i < n; i++) {
          if (o < 6) switch (t) { case 0: GOPT(int, i) break; case 1: case 2: GOPT(long, i) break; case 3: GOPT(float, i) break; case 4: GOPT(double, i) break; }
          else {
            long a = t == 0 ? ((int *)val)[i] : ((long *)val)[i], e = t == 0 ? ((int *)exp_)[i] : ((long *)exp_)[i];
            switch (o) { case 6: case 10: case 14: e |= a; break; case 9: case 13: e &= a; break; case 7: case 11: e = e && a; break; case 8: case 12: e = e || a; break; }
            if (t == 0) ((int *)exp_)[i] = (int)e; else ((long *)exp_)[i] = e;
          }
        }
      }
      unsigned char *x = (glob && al[0].size[me]) ? (unsigned char *)al[0].base[me] : malloc(n * 8 + 16);
      memset(x, 0x42, n * 8 + 16); memcpy(x, vals[me], n * tsz[t]);
      char *op = (char *)opn[o];
      if (api == 0) switch (t) { case 0: armci_msg_igop((int *)x, n, op); break; case 1: armci_msg_lgop((long *)x, n, op); break; case 2: armci_msg_llgop((long long *)x, n, op); break; case 3: armci_msg_fgop((float *)x, n, op); break; case 4: armci_msg_dgop((double *)x, n, op); break; }
      else if (api == 1) armci_msg_gop_scope(scope, x, n, op, tys[t]);
      else if (scope == SCOPE_ALL && (r & 1)) switch (t) { case 0: armci_msg_group_igop((int *)x, n, op, &g->g); break; case 1: armci_msg_group_lgop((long *)x, n, op, &g->g); break; case 2: armci_msg_group_llgop((long long *)x, n, op, &g->g); break; case 3: armci_msg_group_fgop((float *)x, n, op, &g->g); break; case 4: armci_msg_group_dgop((double *)x, n, op, &g->g); break; }
      else armci_msg_group_gop_scope(scope, x, n, op, tys[t], &g->g);
      if (memcmp(x, exp_, n * tsz[t])) for (int i = 0; i < n; i++) if (memcmp(x + i * tsz[t], exp_ + i * tsz[t], tsz[t])) {
        int ok = 0; if (t == 3) ok = ((float *)x)[i] == ((float *)exp_)[i]; if (t == 4) ok = ((double *)x)[i] == ((double *)exp_)[i];
        if (!ok) fail("reduction %s of type %d: element %d of %d is wrong (got %ld)", op, t, i, n, t == 0 ? (long)((int *)x)[i] : t < 3 ? ((long *)x)[i] : t == 3 ? (long)((float *)x)[i] : (long)((double *)x)[i]); }
      for (int i = n * tsz[t]; i < n * 8 + 16; i++) CHECK(x[i] == 0x42, "reduction changed bytes after the vector");
      if (!(glob && al[0].size[me])) free(x);
    }
    free(exp_);
  }
  if (P(50)) {
    int x = 1, aborted;
    lz_expect_abort = 1; lz_aborted = 0;
    if (!setjmp(lz_jmp)) { if (P(50)) armci_msg_igop(&x, 1, "nonsense"); else armci_msg_gop_scope(SCOPE_ALL, &x, 1, "+", 77); }
    aborted = lz_aborted; lz_expect_abort = 0; lz_aborted = 0;
    CHECK(aborted, "unknown operator or type accepted by a reduction");
  }
  /* selection */
  for (int r = 0; r < 3; r++) {
    cfg_random(0);
    struct { double v; int idx[4]; } in[MAXP], e; int t = 4, contrib[MAXP], any = 0, mx = P(50), glob = P(40);
    memset(in, 0, sizeof in);
    for (int p = 0; p < np; p++) { in[p].v = (double)(R(1000) * 8 + p); for (int i = 0; i < 4; i++) in[p].idx[i] = R(100); contrib[p] = P(70); any |= contrib[p]; }
    if (!any) { contrib[0] = 1; }
    int b = -1; for (int p = 0; p < np; p++) if (contrib[p] && (b < 0 || (mx ? in[p].v > in[b].v : in[p].v < in[b].v))) b = p;
    e = in[b];
    T("select %s glob=%d\n", mx ? "max" : "min", glob);
    void *x = glob && al[0].size[me] ? (void *)al[0].base[me] : malloc(sizeof e);
    memcpy(x, &in[me], sizeof e);
    armci_msg_sel(x, sizeof e, mx ? "max" : "min", tys[t], contrib[me]);
    CHECK(!memcmp(x, &e, sizeof e), "selection returned the wrong element");
    if (!(glob && al[0].size[me])) free(x);
  }
  sync_all(); frealloc(&al[0], 0); freegroups();
}

/* ------------------------------------------------------------------ messages */
static void s_msg(void) {
  mkgroups(3); mkalloc(&al[0], &grp[0], size_slots);
  for (int r = 0; r < 12; r++) {
    cfg_random(0);
    int kind = R(3), len = P(10) ? 0 : P(80) ? R(200) : R(1500), tag = (int)R(1000), glob = P(30);
    unsigned char *data = malloc(len + 1); fillbuf(data, len, -1);
    int a = R(np), b = R(np), extra = R(40);
    unsigned char *buf = glob && al[0].size[me] ? (unsigned char *)al[0].base[me] : malloc(len + 64);
    memset(buf, 0x3c, len + 64);
    if (kind == 0 && a != b) {
      int any = P(40); T("send %d bytes %d->%d tag %d any=%d\n", len, a, b, tag, any);
      if (me == a) { memcpy(buf, data, len); armci_msg_snd(tag, buf, len, b); CHECK(!memcmp(buf, data, len), "send changed the buffer"); }
      if (me == b) {
        int l = -1, from = a;
        if (any) from = armci_msg_rcvany(tag, buf, len + extra, &l); else armci_msg_rcv(tag, buf, len + extra, &l, a);
        CHECK(l == len, "received length %d, should be %d", l, len); CHECK(from == a, "sender reported as %d, should be %d", from, a);
        CHECK(!memcmp(buf, data, len), "received data differ");
        for (int i = len; i < len + 64; i++) CHECK(buf[i] == 0x3c, "receive changed bytes after the message (byte %d, message of %d)", i, len);
      }
    } else if (kind == 1) {
      int sc = P(60) ? SCOPE_ALL : P(50) ? SCOPE_MASTERS : SCOPE_NODE, api = R(3);
      T("broadcast %d bytes root %d scope %d api %d\n", len, a, sc, api);
      if (me == a) memcpy(buf, data, len);
      if (api == 0) armci_msg_brdcst(buf, len, a); else if (api == 1) armci_msg_bcast(buf, len, a); else armci_msg_bcast_scope(sc, buf, len, a);
      if (me == a || api < 2 || sc != SCOPE_NODE) CHECK(!memcmp(buf, data, len), "broadcast data differ");
      else for (int i = 0; i < len; i++) CHECK(buf[i] == 0x3c, "broadcast on the node scope changed another process");
      for (int i = len; i < len + 64; i++) CHECK(buf[i] == 0x3c, "broadcast changed bytes after the message");
    } else {
      G *g = &grp[R(ngrp)]; a = g->m[R(g->n)];
      T("group broadcast %d bytes root %d group size %d\n", len, a, g->n);
      if (g->in) {
        if (me == a) memcpy(buf, data, len);
        armci_msg_group_bcast_scope(SCOPE_ALL, buf, len, a, &g->g);
        CHECK(!memcmp(buf, data, len), "group broadcast data differ");
        for (int i = len; i < len + 64; i++) CHECK(buf[i] == 0x3c, "broadcast changed bytes after the message");
      }
    }
    free(data); if (!(glob && al[0].size[me])) free(buf);
    sync_all();
  }
  int root, up, l, rr; armci_msg_bintree(SCOPE_ALL, &root, &up, &l, &rr);
  CHECK(root == 0 && up == (me ? (me - 1) / 2 : -1) && l == (2 * me + 1 < np ? 2 * me + 1 : -1) && rr == (2 * me + 2 < np ? 2 * me + 2 : -1), "binary tree is wrong");
  CHECK(armci_msg_me() == me && armci_msg_nproc() == np, "rank or size query is wrong");
  frealloc(&al[0], 0); freegroups();
}

/* ------------------------------------------------------------------ flags and values */
static long size_flag(void) { return 512; }
static void s_flag(void) {
  mkgroups(1); mkalloc(&al[0], &grp[0], size_flag); mkalloc(&al[1], &grp[0], size_flag);
  for (int r = 0; r < 10; r++) {
    cfg_random(0); reset_mem(al, 2, -1);
    int o = R(np), p = R(np), kind = R(4), val = (int)R(1 << 30); AL *fa = &al[R(2)]; AL *da = &al[R(2)];
    int foff = 256 + 4 * R(60);
    unsigned char src[256]; fillbuf(src, 256, -1);
    int t = R(4); long lv = (long)rnd(); double dv = (double)R(100000) / 8; float fv = (float)R(10000) / 4; long off = 8 * R(30), offu = P(40) ? R(200) : off;
    int c[3] = { 1 + (int)R(8), 1 + (int)R(4), 1 + (int)R(3) }, st[2], sl = R(3), nbv = P(40);
    st[0] = c[0] + R(4); st[1] = st[0] * c[1] + R(3);
    int len = R(200);
    T("flag/value kind %d origin %d target %d type %d offset %ld flag offset %d value %d len %d\n", kind, o, p, t, off, foff, val, len);
    unsigned char *sh = da->sh[p];
    if (kind == 0) {
      if (me == o) {
        lz_flagwatch = 1; lz_flagseen = 0; lz_flagproc = p; lz_flagaddr = fa->base[p] + foff;
        CHECK(PARMCI_Put_flag(src, da->base[p] + 8, len, (int *)(fa->base[p] + foff), val, p) == 0, "put with flag failed");
        memset(src, 0xEE, 256);
        CHECK(lz_flagseen == 1 || (o == p && lz_flagseen == 0), "flag put %d times", lz_flagseen); lz_flagwatch = 0; PARMCI_Fence(p);
      }
      if (o == me) ; 
    } else if (kind == 1) {
      if (me == o) {
        lz_flagwatch = 1; lz_flagseen = 0; lz_flagproc = p; lz_flagaddr = fa->base[p] + foff;
        int rc = PARMCI_PutS_flag(src, st, da->base[p] + 8, st, c, sl, (int *)(fa->base[p] + foff), val, p);
        CHECK(rc == 0, "strided put with flag returned %d", rc);
        CHECK(lz_flagseen == 1 || (o == p && lz_flagseen == 0), "flag put %d times", lz_flagseen); lz_flagwatch = 0; PARMCI_Fence(p);
      }
    } else if (kind == 2) {
      if (me == o) {
        char *d = da->base[p] + off; armci_hdl_t h; ARMCI_INIT_HANDLE(&h);
        if (!nbv) switch (t) { case 0: PARMCI_PutValueInt((int)lv, d, p); break; case 1: PARMCI_PutValueLong(lv, d, p); break; case 2: PARMCI_PutValueFloat(fv, d, p); break; case 3: PARMCI_PutValueDouble(dv, d, p); break; }
        else { switch (t) { case 0: PARMCI_NbPutValueInt((int)lv, d, p, &h); break; case 1: PARMCI_NbPutValueLong(lv, d, p, &h); break; case 2: PARMCI_NbPutValueFloat(fv, d, p, &h); break; case 3: PARMCI_NbPutValueDouble(dv, d, p, &h); break; } PARMCI_Wait(&h); }
        PARMCI_Fence(p);
      }
    } else {
      if (me == o) {
        char *d = da->base[p] + offu; unsigned char *e = da->sh[p] + offu;
        int iv; memcpy(&iv, e, 4); long l8; memcpy(&l8, e, 8);
        switch (t) {
        case 0: CHECK(PARMCI_GetValueInt(d, p) == iv, "int value get is wrong"); break;
        case 1: CHECK(PARMCI_GetValueLong(d, p) == l8, "long value get is wrong"); break;
        case 2: { float x = PARMCI_GetValueFloat(d, p); CHECK(!memcmp(&x, e, 4) || x != x, "float value get is wrong"); break; }
        case 3: { double x = PARMCI_GetValueDouble(d, p); CHECK(!memcmp(&x, e, 8) || x != x, "double value get is wrong"); break; } }
      }
    }
    unsigned char s2[256]; 
    /* shadow: the data of this round is known to every process because fillbuf used the shared stream */
    memcpy(s2, src, 256);
    if (kind == 0) { PMPI_Bcast(s2, 0, MPI_BYTE, o, MPI_COMM_WORLD); }
    if (kind == 0 && me == o) { /* src was scribbled: recompute from the shared stream */ }
    static unsigned char keepsrc[256]; (void)keepsrc;
    if (kind == 0) {
      /* others hold the original; send it to the origin */
      int helper = (o + 1) % np; if (np > 1) { PMPI_Bcast(s2, 256, MPI_BYTE, helper, MPI_COMM_WORLD); memcpy(sh + 8, s2, len); }
      memcpy(fa->sh[p] + foff, &val, 4);
    }
    if (kind == 1) {
      long n = 1; for (int i = 1; i <= sl; i++) n *= c[i];
      for (long j = 0; j < n; j++) { long q = j, of = 0; for (int i = 0; i < sl; i++) { of += (q % c[i + 1]) * st[i]; q /= c[i + 1]; } memcpy(sh + 8 + of, src + of, c[0]); }
      memcpy(fa->sh[p] + foff, &val, 4);
    }
    if (kind == 2) { int iv = (int)lv; switch (t) { case 0: memcpy(sh + off, &iv, 4); break; case 1: memcpy(sh + off, &lv, 8); break; case 2: memcpy(sh + off, &fv, 4); break; case 3: memcpy(sh + off, &dv, 8); break; } }
    sync_all();
    verify_mem(al, 2, -1, "after the value/flag operation");
    sync_all();
  }
  for (int i = 1; i >= 0; i--) frealloc(&al[i], 0);
  freegroups();
}

/* ------------------------------------------------------------------ settings */
static void s_env(void) {
  static const char *bools[] = { "1", "0", "true", "TRUE", "false", "FALSE", "t", "f", "T", "F", "yes", "YES", "y", "n", "no", "NO", "10", "01", "", "2", "on" };
  for (int r = 0; r < 60; r++) {
    const char *v = bools[R(21)]; int unset = P(15), def = R(2) ? -1 : R(2);
    if (unset) unsetenv("VT_X"); else setenv("VT_X", v, 1);
    T("bool %s\n", unset ? "(unset)" : v);
    int e = unset ? def : (v[0] == '1' || v[0] == 't' || v[0] == 'T' || v[0] == 'y' || v[0] == 'Y') ? 1 : 0;
    CHECK(ARMCII_Getenv_bool("VT_X", def) == e, "boolean setting '%s' read as %d", unset ? "(unset)" : v, ARMCII_Getenv_bool("VT_X", def));
    long L; int k = R(6); L = k == 0 ? (long)rnd() : k == 1 ? -(long)rnd() : k == 2 ? INT_MAX + R(5) - 2 : k == 3 ? (long)INT_MIN + R(5) - 2 : R(100000) - 50000;
    if (k == 4) L = (R(8) - 4) * (1L << 32) + R(10);
    char s[64]; snprintf(s, 64, "%s%ld", P(10) && L >= 0 ? "+" : P(10) ? " " : "", L);
    if (unset) unsetenv("VT_X"); else setenv("VT_X", s, 1);
    T("number %s\n", unset ? "(unset)" : s);
    long el = unset ? 123456789012L : L; int ei = unset ? -77 : L > INT_MAX ? INT_MAX : L < INT_MIN ? INT_MIN : (int)L;
    CHECK(ARMCII_Getenv_long("VT_X", 123456789012L) == el, "long setting '%s' read as %ld", s, ARMCII_Getenv_long("VT_X", 123456789012L));
    CHECK(ARMCII_Getenv_int("VT_X", -77) == ei, "integer setting '%s' read as %d", s, ARMCII_Getenv_int("VT_X", -77));
    char st[64], out[48], df[64]; int n = R(40), m = R(30), cap = 1 + R(32);
    for (int i = 0; i < n; i++) st[i] = 'a' + R(26);
    st[n] = 0; for (int i = 0; i < m; i++) df[i] = 'A' + R(26);
    df[m] = 0;
    if (unset) unsetenv("VT_X"); else setenv("VT_X", st, 1);
    memset(out, 0, sizeof out); for (int i = cap + 1; i < 48; i++) out[i] = '#';
    T("string %s capacity %d\n", unset ? "(unset)" : st, cap);
    ARMCII_Getenv_char(out, "VT_X", df, cap);
    const char *want = unset ? df : st;
    CHECK(!strncmp(out, want, cap), "string setting read as '%s'", out);
    for (int i = cap + 1; i < 48; i++) CHECK(out[i] == '#', "string setting of %d characters written past its %d-byte buffer", n, cap);
    CHECK(out[cap] == 0, "string setting not terminated");
    CHECK((ARMCII_Getenv("VT_X") == 0) == unset && (unset || !strcmp(ARMCII_Getenv("VT_X"), st)), "string query is wrong");
  }
}

/* settings as applied by initialisation */
static void s_init(void) {
  static const char *names[] = { "ARMCI_IOV_CHECKS", "ARMCI_IOV_BATCHED_LIMIT", "ARMCI_IOV_DTYPE_CHUNK", "ARMCI_SHR_BUF_METHOD", "ARMCI_CACHE_RANK_TRANSLATION",
    "ARMCI_NONCOLLECTIVE_GROUPS", "ARMCI_USE_WIN_ALLOCATE", "ARMCI_RMA_ATOMICITY", "ARMCI_NO_FLUSH_LOCAL", "ARMCI_STRIDED_METHOD", "ARMCI_RMA_ORDERING",
    "ARMCI_EXPLICIT_NB_PROGRESS", "ARMCI_USE_REQUEST_ATOMICS", "ARMCI_FLUSH_REQUEST_ATOMICS", "ARMCI_DEBUG_ALLOC", "ARMCI_SHM_LIMIT", "ARMCI_RMA_NOCHECK", "ARMCI_USE_SAME_OP",
    "ARMCI_DISABLE_SHM_ACC", "ARMCI_USE_ALLOC_SHM", "ARMCI_MSG_BARRIER_SYNCS", "ARMCI_ACCUMULATE_GRANULARITY" };
  int nwant = 1 + R(4);
  char s[64]; int v[24]; char ord[40] = "rar,raw,war,waw"; long lim = 0;
  int def[24] = { 0, 0, 0, 1, 1, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 1, 0, 1024 * 1024 };
  for (int i = 0; i < 22; i++) {
    v[i] = def[i];
    if (P(60)) { unsetenv(names[i]); continue; }
    int b = R(2);
    if (i == 1 || i == 2 || i == 21) { int q = R(50) - 10; snprintf(s, 64, "%d", q); v[i] = q < 0 ? (i == 21 ? 1024 * 1024 : 0) : q; }
    else if (i == 3) { snprintf(s, 64, b ? "COPY" : P(50) ? "NOGUARD" : "bogus"); v[i] = b ? 0 : 1; }
    else if (i == 9) { snprintf(s, 64, b ? "DIRECT" : "IOV"); v[i] = b; }
    else if (i == 10) { int n = R(30); for (int k = 0; k < n; k++) s[k] = 'a' + R(26); s[n] = 0; memset(ord, 0, 40); strncpy(ord, s, 19); }
    else if (i == 15) { lim = R(1L << 40); snprintf(s, 64, "%ld", lim); }
    else { snprintf(s, 64, b ? "true" : "0"); v[i] = b; }
    setenv(names[i], s, 1); T("%s=%s\n", names[i], s);
  }
  ARMCII_GLOBAL_STATE.noncollective_groups = 0; ARMCII_GLOBAL_STATE.use_win_allocate = 0; ARMCII_GLOBAL_STATE.rma_atomicity = 0;
  int c0 = lz_ncomm, o0 = lz_nop, w0 = lz_nwin, g0 = lz_ngroup;
  CHECK(!PARMCI_Initialized(), "reported initialised before initialisation");
  CHECK(PARMCI_Init() == 0, "first initialisation failed");
  global_state_t *g = &ARMCII_GLOBAL_STATE;
  int got[22] = { g->iov_checks, g->iov_batched_limit, g->iov_dtype_chunk, g->shr_buf_method == ARMCII_SHR_BUF_NOGUARD, g->cache_rank_translation, g->noncollective_groups,
    g->use_win_allocate, g->rma_atomicity, g->end_to_end_flush, g->strided_method == ARMCII_STRIDED_DIRECT, 0, g->explicit_nb_progress, g->use_request_atomics, g->flush_request_atomics,
    g->debug_alloc, 0, g->rma_nocheck, g->use_same_op, g->disable_shm_accumulate, g->use_alloc_shm, g->msg_barrier_syncs, g->accumulate_granularity };
  for (int i = 0; i < 22; i++) CHECK(got[i] == v[i] || i == 10 || i == 15, "setting %s: value %d, should be %d", names[i], got[i], v[i]);
  CHECK(!strcmp(g->rma_ordering, ord), "setting ARMCI_RMA_ORDERING: '%s', should be '%s'", g->rma_ordering, ord);
  if (getenv("ARMCI_SHM_LIMIT")) CHECK((long)g->memory_limit == lim, "setting ARMCI_SHM_LIMIT: %ld, should be %ld", (long)g->memory_limit, lim);
  for (int i = 1; i < nwant; i++) { CHECK(PARMCI_Initialized(), "not initialised after initialisation"); CHECK((P(50) ? PARMCI_Init() : PARMCI_Init_args(0, 0)) == 0, "nested initialisation failed"); }
  mkgroups(1);
  int na = 2 + R(3); for (int i = 0; i < na; i++) mkalloc(&al[i], &grp[0], size_any);
  int leave = P(60) ? na : 0;
  for (int i = leave; i < na; i++) frealloc(&al[i], 0);
  for (int i = nwant; i >= 1; i--) {
    CHECK(PARMCI_Initialized(), "no longer initialised with %d finalisations to go", i);
    for (int k = 0; k < leave; k++) if (al[k].size[me]) CHECK(gmr_lookup(al[k].base[me], me) != 0, "allocation released by an inner finalisation");
    if (i > 1 && al[0].live && leave) { long x = 0; if (al[0].size[0] >= 8) { PARMCI_Get(al[0].base[0], &x, 8, 0); } }
    sync_all();
    CHECK(PARMCI_Finalize() == 0, "finalisation failed");
  }
  CHECK(!PARMCI_Initialized(), "still initialised after the last finalisation");
  CHECK(lz_nwin == w0, "%d windows not released by the last finalisation", lz_nwin - w0);
  CHECK(lz_nop == o0, "%d operators not released", lz_nop - o0);
  CHECK(lz_ncomm == c0, "%d communicators not released by the last finalisation", lz_ncomm - c0);
  CHECK(lz_ngroup == g0, "MPI groups leaked");
  CHECK(gmr_list == 0, "allocation list not empty after the last finalisation");
  if (P(50)) { int rc = PARMCI_Finalize(); CHECK(rc == 0 && !PARMCI_Initialized(), "an extra finalisation had an effect"); }
  sync_all();
}

/* ------------------------------------------------------------------ fence with subset groups */
static void s_fence(void) {
  for (int r = 0; r < 6; r++) { T("-- round %d\n", r); round_transfers(1, 30, al, setup_na);
    int p = R(np); PARMCI_Fence(p); PARMCI_WaitProc(R(np)); PARMCI_AllFence(); PARMCI_WaitAll(); if (P(40)) PARMCI_Barrier(); }
}

int main(int argc, char **argv) {
  scen = argv[1]; seed0 = strtoull(argv[2], 0, 10); iter0 = atol(argv[3]); long imax = atol(argv[4]); double secs = atof(argv[5]); outdir = argv[6];
  MPI_Init(&argc, &argv);
  PMPI_Comm_rank(MPI_COMM_WORLD, &me); PMPI_Comm_size(MPI_COMM_WORLD, &np);
  char p[512]; snprintf(p, sizeof p, "%s/trace.%d", outdir, me);
  int fd = open(p, O_RDWR | O_CREAT | O_TRUNC, 0600); if (ftruncate(fd, 65536)) return 9;
  trace = mmap(0, 65536, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  int isinit = !strcmp(scen, "init");
  if (!isinit) PARMCI_Init();
  double t0 = PMPI_Wtime(); long n = 0;
  for (iter = iter0; iter < iter0 + imax; iter++, n++) {
    int stop = PMPI_Wtime() - t0 > secs;
    PMPI_Bcast(&stop, 1, MPI_INT, 0, MPI_COMM_WORLD);
    if (stop) break;
    S = mix(seed0 * 1000003 + iter * 7919 + 17); for (int i = 0; i < 4; i++) rnd();
    lz_seed = mix(S + 31 * me);
    memset(trace, 0, tpos + 1); tpos = 0; T("iteration %ld of scenario %s, %d processes, seed %lu\n", iter, scen, np, (unsigned long)seed0);
    if (!strcmp(scen, "contig") || !strcmp(scen, "strided") || !strcmp(scen, "vector") || !strcmp(scen, "mixed") || !strcmp(scen, "reject") || !strcmp(scen, "fence")) {
      ARMCII_GLOBAL_STATE.use_win_allocate = P(50);
      setup_allocs(3);
      if (!strcmp(scen, "contig")) s_transfers(1, 50);
      else if (!strcmp(scen, "strided")) s_transfers(2, 45);
      else if (!strcmp(scen, "vector")) s_transfers(4, 45);
      else if (!strcmp(scen, "mixed")) s_transfers(7, 70);
      else if (!strcmp(scen, "fence")) s_fence();
      else s_reject();
      teardown_allocs();
    }
    else if (!strcmp(scen, "malloc")) s_malloc();
    else if (!strcmp(scen, "rmw")) s_rmw();
    else if (!strcmp(scen, "ctree")) s_ctree();
    else if (!strcmp(scen, "pack")) s_pack();
    else if (!strcmp(scen, "groups")) s_groups();
    else if (!strcmp(scen, "mutex")) s_mutex();
    else if (!strcmp(scen, "gop")) s_gop();
    else if (!strcmp(scen, "msg")) s_msg();
    else if (!strcmp(scen, "flag")) s_flag();
    else if (!strcmp(scen, "env")) s_env();
    else if (isinit) s_init();
    else { fprintf(stderr, "unknown scenario\n"); return 9; }
  }
  if (!isinit) PARMCI_Finalize();
  sync_all();
  if (me == 0) { snprintf(p, sizeof p, "%s/done", outdir); FILE *f = fopen(p, "w"); fprintf(f, "%ld %ld\n", n, lz_total); fclose(f); }
  PMPI_Finalize();
  return 0;
}
