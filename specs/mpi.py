"""Models of the MPI functions the library calls: what the MPI standard
guarantees, as effects on ghost state.  Trusted (listed in the evidence)."""
import z3
from z3 import And, Or, Not, If, IntVal, Implies
from engine.vc import V, fresh, TRUE, FALSE, select, Unsupported, DATA_KEYS, wrap_int
from engine.cparse import INT, PTR, VOID
from engine import lib
from engine.lib import model, LIB, ret
from . import world as w
from .world import PUT, GET, ACC, GETACC, FOP

MUTE = TRUE


def out(eng, st, v, key, val):
    """*v = val for an out-parameter of C type class `key`."""
    if z3.is_int_value(v.e) and v.e.as_long() == 0:
        return
    st.store(v.tag or key, v.e, val)


def entry_ln(eng):
    return eng.entry.gh['Ln']


# ------------------------------------------------------------ pending operations
def check_pending(eng, st, lo, n, mode, node, what):
    """Memory [lo, lo+n) is about to be written ('w'), read ('r') or released:
    it must not belong to an operation that is still outstanding."""
    if 'Ln' not in st.gh:
        return
    l0 = eng.entry.gh['Ln']
    if st.gh['Ln'].eq(l0):
        return
    sub = st.copy()
    j = fresh('sk_pend')
    sub.assume(And(j >= l0, j < sub.gh['Ln']))
    rd = sub.load
    kind = w.L(rd, 'kind', j)
    o, z, r = w.L(rd, 'org', j), w.L(rd, 'len', j), w.L(rd, 'res', j)
    y = w.L(rd, 'rlen', j)
    pend = w.L(rd, 'done', j) == 0
    ovl = And(z > 0, o < lo + n, lo < o + z)
    if mode == 'r':
        ovl = And(kind == GET, ovl)
    ovl2 = And(kind == GETACC, y > 0, r < lo + n, lo < r + y)
    eng.prove(sub, Not(And(pend, n > 0, Or(ovl, ovl2))), what, node)


def free_hook(eng, st, p, node):
    con = eng.unit_contract
    if not getattr(con, 'lists_only', False):
        check_pending(eng, st, p, st.load('G:bsz', p), 'w', node, 'no-release-of-buffer-in-flight')
    if hasattr(con, 'on_free'):
        con.on_free(eng, st, p, node, eng.unit_ctx)


# ------------------------------------------------------------ RMA
def issue(eng, st, n, kind, org, oc, ot, rank, disp, tc, tt, win, op=None, res=None, req=None,
          resc=None, rest=None):
    j = st.gh['Ln']
    eng.prove(st, And(win != w.WIN_NULL(eng), win > 0), 'rma-window-valid', n)
    size = oc * w.TSIZE(ot)
    if eng.opts.get('rma_bounds', True):
        tl = tc * w.TEXT(tt)
        eng.prove(st, And(rank >= 0, tc >= 0, disp + w.TLB(tt) >= 0,
                          disp + w.TLB(tt) + tl <= w.WINSZ(win, rank)), 'rma-inside-target-memory', n)
    if kind in (PUT, ACC, GET):
        eng.prove(st, oc * w.TSIZE(ot) == tc * w.TSIZE(tt), 'rma-same-length-both-ends', n)
    eng.prove(st, Or(org != 0, oc == 0), 'rma-local-buffer', n)
    st.assume(And(w.contig_facts(ot), w.contig_facts(tt)))
    # for scattered local data the buffer is protected by completion before release (see callers)
    ln = If(w.contig(ot), oc * w.TEXT(ot), IntVal(0))
    vals = dict(kind=IntVal(kind), win=win, rank=rank, disp=disp, org=org, oc=oc, ot=ot, tc=tc, tt=tt,
                op=IntVal(0) if op is None else op, res=IntVal(0) if res is None else res,
                len=ln, rlen=IntVal(0), done=IntVal(0), req=IntVal(0))
    if kind == GETACC:
        vals['rlen'] = (oc if resc is None else resc) * w.TEXT(ot if rest is None else rest)
    if req is not None:
        rq = w.REQ(j)
        st.assume(And(rq > 0, rq != w.REQUEST_NULL(eng), w.RJ(rq) == j))
        vals['req'] = rq
    snap = {}
    if kind != GET:
        for f in w.WATCH:
            k, a = w.watch_addr(f, org)
            snap[f] = st.load(k, a)
    else:
        check_pending(eng, st, org, ln, 'w', n, 'no-overlap-with-operation-in-flight')
    for f, v in vals.items():
        st.store('G:L.' + f, j, v)
    for f, v in snap.items():
        st.store('G:L.' + f, j, v)
    dests = []
    if kind == GET:
        dests.append((org, oc, ot))
    if kind in (GETACC, FOP):
        dests.append((res, oc if resc is None else resc, ot if rest is None else rest))
    for d, c, t in dests:
        contig = w.contig(t)
        st.assume(w.contig_facts(t))
        lo, hi = d + w.TLB(t), d + w.TLB(t) + c * w.TEXT(t)
        for key in sorted(DATA_KEYS):
            f = w.RB[key]
            st.havoc(key, (lambda a, lo=lo, hi=hi: And(a >= lo, a < hi)),
                     [lambda a, v, s, f=f, d=d, contig=contig: [Implies(contig, v == f(j, a - d))]])
    st.gh['Ln'] = j + 1
    st.event('rma', kind=kind, j=j, **{k: vals[k] for k in ('win', 'rank', 'disp', 'org', 'oc', 'ot', 'tc', 'tt', 'op', 'res')})
    if req is not None:
        st.store(req.tag or 'ptr', req.e, vals['req'])
    return ret(st)


def flush(eng, st, n, win, rank, level):
    mem0 = st.mem
    lnow = st.gh['Ln']

    def fn(j, old, sink):
        m = And(j < lnow, select(mem0, 'G:L.win', j, sink) == win)
        if rank is not None:
            m = And(m, select(mem0, 'G:L.rank', j, sink) == rank)
        return If(And(m, old < level), IntVal(level), old)
    eng.prove(st, And(win != w.WIN_NULL(eng), win > 0), 'flush-window-valid', n)
    if rank is not None:
        eng.prove(st, rank >= 0, 'flush-rank-valid', n)
    st.mapop('G:L.done', fn)
    st.event('flush', win=win, rank=rank, level=level)
    return ret(st)


def A(args, i):
    return args[i].i()


@model('MPI_Put')
def mpi_put(eng, st, a, n):
    return issue(eng, st, n, PUT, *[A(a, i) for i in range(8)])


@model('MPI_Rput')
def mpi_rput(eng, st, a, n):
    return issue(eng, st, n, PUT, *[A(a, i) for i in range(8)], req=a[8])


@model('MPI_Get')
def mpi_get(eng, st, a, n):
    return issue(eng, st, n, GET, *[A(a, i) for i in range(8)])


@model('MPI_Rget')
def mpi_rget(eng, st, a, n):
    return issue(eng, st, n, GET, *[A(a, i) for i in range(8)], req=a[8])


def _acc(eng, st, a, n, req):
    x = [A(a, i) for i in range(9)]
    op, win = x[7], x[8]
    res = []
    for s, repl in eng.split(st, op == eng.ga('ompi_mpi_op_replace')):
        res += issue(eng, s, n, PUT if repl else ACC, *x[:7], win, op=op, req=req)
    return res


@model('MPI_Accumulate')
def mpi_acc(eng, st, a, n):
    return _acc(eng, st, a, n, None)


@model('MPI_Raccumulate')
def mpi_racc(eng, st, a, n):
    return _acc(eng, st, a, n, a[9])


def _gacc(eng, st, a, n, req):
    x = [A(a, i) for i in range(12)]
    org, oc, ot, res, rc, rt, rank, disp, tc, tt, op, win = x
    o = []
    for s, nop in eng.split(st, op == eng.ga('ompi_mpi_op_no_op')):
        if nop:
            o += issue(eng, s, n, GET, res, rc, rt, rank, disp, tc, tt, win, op=None, req=req)
        else:
            o += issue(eng, s, n, GETACC, org, oc, ot, rank, disp, tc, tt, win, op=op, res=res, req=req,
                       resc=rc, rest=rt)
    return o


@model('MPI_Get_accumulate')
def mpi_gacc(eng, st, a, n):
    return _gacc(eng, st, a, n, None)


@model('MPI_Rget_accumulate')
def mpi_rgacc(eng, st, a, n):
    return _gacc(eng, st, a, n, a[12])


@model('MPI_Fetch_and_op')
def mpi_fop(eng, st, a, n):
    org, res, t, rank, disp, op, win = [A(a, i) for i in range(7)]
    one = IntVal(1)
    return issue(eng, st, n, GETACC, org, one, t, rank, disp, one, t, win, op=op, res=res)


@model('MPI_Win_flush')
def mpi_flush(eng, st, a, n):
    return flush(eng, st, n, A(a, 1), A(a, 0), 2)


@model('MPI_Win_flush_local')
def mpi_flushl(eng, st, a, n):
    return flush(eng, st, n, A(a, 1), A(a, 0), 1)


@model('MPI_Win_flush_all')
def mpi_flusha(eng, st, a, n):
    return flush(eng, st, n, A(a, 0), None, 2)


@model('MPI_Win_flush_local_all')
def mpi_flushla(eng, st, a, n):
    return flush(eng, st, n, A(a, 0), None, 1)


@model('MPI_Win_lock')
def mpi_lock(eng, st, a, n):
    st.event('lock', type=A(a, 0), rank=A(a, 1), win=A(a, 3))
    return ret(st)


@model('MPI_Win_unlock')
def mpi_unlock(eng, st, a, n):
    r = flush(eng, st, n, A(a, 1), A(a, 0), 2)
    st.events = st.events[:-1] if st.events else st.events
    st.event('unlock', rank=A(a, 0), win=A(a, 1))
    return r


@model('MPI_Win_lock_all')
def mpi_locka(eng, st, a, n):
    eng.prove(st, A(a, 1) != w.WIN_NULL(eng), 'lock-window-valid', n)
    st.event('lock_all', win=A(a, 1))
    return ret(st)


@model('MPI_Win_unlock_all')
def mpi_unlocka(eng, st, a, n):
    r = flush(eng, st, n, A(a, 0), None, 2)
    st.event('unlock_all', win=A(a, 0))
    return r


@model('MPI_Win_sync')
def mpi_sync(eng, st, a, n):
    eng.prove(st, A(a, 0) != w.WIN_NULL(eng), 'sync-window-valid', n)
    st.event('win_sync', win=A(a, 0))
    return ret(st)


# ------------------------------------------------------------ requests
def complete(eng, st, pred):
    def fn(j, old, sink):
        return If(And(pred(j, sink), old < 1), IntVal(1), old)
    st.mapop('G:L.done', fn)


@model('MPI_Wait')
def mpi_wait(eng, st, a, n):
    rq = st.load(a[0].tag or 'ptr', a[0].e)
    complete(eng, st, lambda j, s: And(rq != w.REQUEST_NULL(eng), j == w.RJ(rq)))
    st.store(a[0].tag or 'ptr', a[0].e, w.REQUEST_NULL(eng))
    st.event('wait', req=rq)
    return ret(st)


def _waitall(eng, st, cnt, arr, key):
    """Every request k<cnt of the array completes and becomes null."""
    mem0 = st.mem
    hp = z3.Function('HPOS', w.ISORT, w.ISORT)    # log entry -> slot of its request (witness)

    def pred(j, s):
        k = hp(j)
        return And(k >= 0, k < cnt, select(mem0, key, arr + 8 * k, s) == w.REQ(j))
    complete(eng, st, pred)
    st.mapop(key, lambda x, old, s: If(And(x >= arr, x < arr + 8 * cnt), w.REQUEST_NULL(eng), old))


@model('MPI_Waitall')
def mpi_waitall(eng, st, a, n):
    cnt, arr = A(a, 0), A(a, 1)
    _waitall(eng, st, cnt, arr, a[1].tag or 'ptr')
    st.event('waitall', count=cnt, arr=arr)
    return ret(st)


@model('MPI_Test')
def mpi_test(eng, st, a, n):
    rq = st.load(a[0].tag or 'ptr', a[0].e)
    fl = fresh('flag')
    st.assume(Or(fl == 0, fl == 1))
    st.assume(Implies(rq == w.REQUEST_NULL(eng), fl == 1))
    out(eng, st, a[1], 'i4', fl)
    res = []
    for s, t in eng.split(st, fl == 1):
        if t:
            complete(eng, s, lambda j, k: And(rq != w.REQUEST_NULL(eng), j == w.RJ(rq)))
            s.store(a[0].tag or 'ptr', a[0].e, w.REQUEST_NULL(eng))
        s.event('test', req=rq, flag=fl)
        res += ret(s)
    return res


@model('MPI_Testall')
def mpi_testall(eng, st, a, n):
    cnt, arr = A(a, 0), A(a, 1)
    fl = fresh('flag')
    st.assume(Or(fl == 0, fl == 1))
    out(eng, st, a[2], 'i4', fl)
    res = []
    for s, t in eng.split(st, fl == 1):
        if t:
            _waitall(eng, s, cnt, arr, a[1].tag or 'ptr')
        s.event('testall', count=cnt, arr=arr, flag=fl)
        res += ret(s)
    return res


# ------------------------------------------------------------ memory
@model('MPI_Alloc_mem')
def mpi_alloc(eng, st, a, n):
    b = lib.do_malloc(eng, st, A(a, 0), 'mpimem')
    out(eng, st, a[2], 'ptr', b)
    return ret(st)


@model('MPI_Free_mem')
def mpi_free(eng, st, a, n):
    res = []
    for s in lib.do_free(eng, st, A(a, 0), n, 'free'):
        res += ret(s)
    return res


# ------------------------------------------------------------ communicators, groups
@model('MPI_Comm_rank')
def mpi_rank(eng, st, a, n):
    c = A(a, 0)
    r = w.GR(c, w.ME)
    st.assume(r >= 0)
    st.assume(w.group_facts(w.GRPOF(c), w.ME))
    out(eng, st, a[1], 'i4', r)
    return ret(st)


@model('MPI_Comm_size')
def mpi_size(eng, st, a, n):
    c = A(a, 0)
    st.assume(And(w.GSZ(c) >= 1, w.GSZ(c) <= w.NP))
    out(eng, st, a[1], 'i4', w.GSZ(c))
    return ret(st)


@model('MPI_Comm_group')
def mpi_cgroup(eng, st, a, n):
    out(eng, st, a[1], 'ptr', w.GRPOF(A(a, 0)))
    return ret(st)


@model('MPI_Group_free', 'MPI_Info_free', 'MPI_Info_create', 'MPI_Info_set', 'MPI_Iprobe')
def mpi_nop(eng, st, a, n):
    return ret(st)


def trans(g1, x, g2):
    """Rank in g2 of rank x of g1."""
    return w.GRg(g2, w.GABSg(g1, x))


@model('MPI_Group_translate_ranks')
def mpi_trans(eng, st, a, n):
    g1, cnt, src, g2, dst = [A(a, i) for i in range(5)]
    kin, kout = a[2].tag or 'i4', a[4].tag or 'i4'
    if z3.is_int_value(cnt) and cnt.as_long() == 1:
        x = st.load(kin, src)
        eng.prove(st, And(x >= 0, x < w.COMMSZ(g1)), 'translated-rank-exists', n)
        st.assume(w.rank_facts(g1, x))
        st.assume(w.group_facts(g2, w.GABSg(g1, x)))
        st.assume(w.wcomm_facts(w.GABSg(g1, x)))
        out(eng, st, a[4], 'i4', trans(g1, x, g2))
        return ret(st)
    sub = st.copy()
    k = fresh('sk_tr')
    sub.assume(And(k >= 0, k < cnt))
    x = sub.load(kin, src + 4 * k)
    eng.prove(sub, And(x >= 0, x < w.COMMSZ(g1)), 'translated-rank-exists', n)
    mem0 = st.mem

    def hook(addr, v, s):
        x = select(mem0, kin, src + (addr - dst), s)
        inr = And(addr >= dst, addr < dst + 4 * cnt)
        return [Implies(inr, And(v == trans(g1, x, g2), w.rank_facts(g1, x), w.group_facts(g2, w.GABSg(g1, x)), w.wcomm_facts(w.GABSg(g1, x))))]
    st.havoc(kout, lambda addr: And(addr >= dst, addr < dst + 4 * cnt), [hook])
    return ret(st)


# ------------------------------------------------------------ datatypes
@model('MPI_Type_size')
def mpi_tsize(eng, st, a, n):
    out(eng, st, a[1], 'i4', w.tsize(eng, A(a, 0)))
    return ret(st)


@model('MPI_Get_address')
def mpi_addr(eng, st, a, n):
    out(eng, st, a[1], 'i8', A(a, 0))
    return ret(st)


@model('MPI_Type_create_indexed_block')
def mpi_indexed_block(eng, st, a, n):
    """Segments of equal length at the displacements listed, in that order."""
    cnt, bl, disps, old = [A(a, i) for i in range(4)]
    eng.prove(st, And(cnt >= 0, bl >= 0), 'datatype-counts', n)
    t = fresh('dtype')
    ts = w.tsize(eng, old)
    eng.prove(st, w.contig(old), 'datatype-of-basic-elements', n)
    at = lambda k: st.load('i4', disps + 4 * k)
    lo, hi = fresh('klo'), fresh('khi')
    st.assume(And(t > 0, w.DERIV(t) == 1, w.TSIZE(t) == cnt * bl * ts, w.NSEG(t) == cnt, w.SEGL(t) == bl * ts, w.TEXT(t) >= 0))
    st.assume(Implies(And(cnt >= 1, bl >= 1), And(
        lo >= 0, lo < cnt, hi >= 0, hi < cnt, w.TLB(t) == at(lo) * ts, w.TLB(t) + w.TEXT(t) == at(hi) * ts + bl * ts)))
    con = eng.unit_contract
    for k in (con.seg_positions(eng.unit_ctx, st) if hasattr(con, 'seg_positions') else ()):
        st.assume(Implies(And(k >= 0, k < cnt), w.SEGO(t, k) == at(k) * ts))
    out(eng, st, a[4], 'ptr', t)
    return ret(st)


@model('MPI_Type_commit')
def mpi_tcommit(eng, st, a, n):
    return ret(st)


@model('MPI_Type_free')
def mpi_tfree(eng, st, a, n):
    out(eng, st, a[0], 'ptr', eng.ga('ompi_mpi_datatype_null'))
    return ret(st)


@model('MPI_Type_get_true_extent')
def mpi_text(eng, st, a, n):
    t = A(a, 0)
    out(eng, st, a[1], 'i8', w.TLB(t))
    out(eng, st, a[2], 'i8', w.TEXT(t))
    return ret(st)


# ------------------------------------------------------------ collectives (trace events)
@model('MPI_Barrier')
def mpi_barrier(eng, st, a, n):
    st.event('barrier', comm=A(a, 0))
    return ret(st)


@model('MPI_Wtime')
def mpi_wtime(eng, st, a, n):
    from engine import cparse
    return [(st, V(fresh('time', w.F64), cparse.DBL))]


lib.FREE_HOOK = free_hook
lib.PENDING = check_pending
