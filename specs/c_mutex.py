"""Contracts on mutexes (src/mutex_hdl_queue.c, src/mutex.c).

A mutex is one byte per group member in a window: 1 while that member holds or
awaits it.  The models below give the meaning of an exclusive epoch on such a
window: everything the epoch reads is one snapshot SNAP(offset) of the bytes
the epoch does not itself write, available once the epoch is closed, and what
it writes is in place when it is closed; no other epoch falls in between."""
import z3
from z3 import And, Or, Not, If, IntVal, Implies, Int, Function
from engine.vc import Contract, LoopSpec, fresh, TRUE, FALSE, KEYSORT, select, Unsupported, STACK0
from engine.lib import ret
from . import world as w
from .world import *
from .reg import contract
from .mpi import A, out
from .coll import nm, comm_self
from .c_gmr import cache_hooks
from .c_groups import ev, gf, group_ok, G, parent_ok

I = IntVal
H = 'armcix_mutex_hdl_s'
TAG = 100                  # ARMCI_MUTEX_TAG
EXCL = 1                   # MPI_LOCK_EXCLUSIVE of this MPI


def hf(rd, h, f):
    return fld(rd, H + '.' + f, h)


def hgrp(h):
    return h + off(H + '.grp')


def hcomm(rd, h):
    return gf(rd, hgrp(h), 'comm')


def hwin(rd, h, m):
    return rd('ptr', hf(rd, h, 'windows') + 8 * m)


def hbase(rd, h, k):
    return rd('ptr', hf(rd, h, 'bases') + 8 * k)


# ---------------------------------------------------------------- models (trusted)
def epoch(st):
    """Index in the trace of the epoch that is open, or None."""
    for i in range(len(st.events) - 1, -1, -1):
        if st.events[i][0] == 'mlock':
            return i
        if st.events[i][0] == 'epoch':
            return None
    return None


def m_lock(eng, st, a, n):
    eng.prove(st, z3.BoolVal(epoch(st) is None), 'one-epoch-at-a-time', n)
    st.event('mlock', type=A(a, 0), rank=A(a, 1), win=A(a, 3))
    return ret(st)


def access(kind):
    def f(eng, st, a, n):
        org, oc, ot, rank, disp, tc, tt, win = [A(a, i) for i in range(8)]
        o = epoch(st)
        eng.prove(st, z3.BoolVal(o is not None), 'access-inside-an-epoch', n)
        if o is None:
            return ret(st)
        e = st.events[o][1]
        size = oc * w.tsize(eng, ot)
        eng.prove(st, And(e['rank'] == rank, e['win'] == win), 'access-in-the-open-epoch', n)
        eng.prove(st, And(oc >= 0, disp >= 0, size == tc * w.tsize(eng, tt), disp + size <= w.WINSZ(win, rank)), 'access-inside-the-mutex', n)
        st.event(kind, org=org, size=size, disp=disp)
        if kind == 'mget':
            st.havoc('i1', lambda x: And(x >= org, x < org + size))      # undefined until the epoch closes
        return ret(st)
    return f


def m_unlock(eng, st, a, n):
    rank, win = A(a, 0), A(a, 1)
    o = epoch(st)
    eng.prove(st, z3.BoolVal(o is not None), 'unlock-of-an-open-epoch', n)
    if o is None:
        return ret(st)
    e = st.events[o][1]
    eng.prove(st, And(e['rank'] == rank, e['win'] == win), 'unlock-of-that-epoch', n)
    puts = [x[1] for x in st.events[o:] if x[0] == 'mput']
    gets = [x[1] for x in st.events[o:] if x[0] == 'mget']
    mem0 = st.mem
    name = nm('SNAP')
    S = Function(name, ISORT, ISORT)
    for g in gets:
        def hook(x, v, s, g=g):
            q = x - g['org'] + g['disp']
            own = Or(*[And(q >= p['disp'], q < p['disp'] + p['size']) for p in puts])
            return [Implies(Not(own), And(v == S(q), Or(v == 0, v == 1)))]
        st.havoc('i1', lambda x, g=g: And(x >= g['org'], x < g['org'] + g['size']), [hook])
    st.event('epoch', type=e['type'], rank=rank, win=win, puts=puts, gets=gets, mem=mem0, snap=name)
    return ret(st)


MODELS = {'MPI_Win_lock': m_lock, 'MPI_Put': access('mput'), 'MPI_Get': access('mget'), 'MPI_Win_unlock': m_unlock}


# ---------------------------------------------------------------- lock, unlock
def handle_ok(c, h):
    rd = c.old
    cm = hcomm(rd, h)
    k = hf(rd, h, 'max_count')
    wp = hf(rd, h, 'windows')
    yield 'handle', And(h > 0, h + SZ(H) <= c.pre_brk, cm > 0, cm != w.COMM_NULL(c.eng), GR(cm, ME) >= 0, GSZ(cm) >= 1, GSZ(cm) <= NP, NP < (1 << 27))
    yield 'windows', And(k >= 0, k < (1 << 27), wp > 0, wp + 8 * k <= c.pre_brk)


def valid_mutex(c, h, m):
    return And(m >= 0, m < hf(c.old, h, 'max_count'))


def mutex_ok(c, h, m, p):
    yield from handle_ok(c, h)
    cm = hcomm(c.old, h)
    wn = hwin(c.old, h, m)
    r = GR(cm, p)
    yield 'process id', isproc(p)
    yield 'mutex-exists', Implies(And(valid_mutex(c, h, m), r >= 0), And(wn > 0, wn != w.WIN_NULL(c.eng), WINCOMM(wn) == cm, WINSZ(wn, r) == GSZ(cm)))


class Queue(Contract):
    file, params = 'mutex_hdl_queue.c', 'hdl mutex world_proc'
    models = MODELS

    def setup(self, eng, st, c):
        cm = hcomm(st.load, c.hdl)
        st.assume(And(group_facts(GRPOF(cm), ME), group_facts(GRPOF(cm), c.world_proc), wcomm_facts(c.world_proc)))
        cache_hooks(eng, hgrp(c.hdl))
        c.w = fresh('watchrank')

    def requires(self, c):
        yield from mutex_ok(c, c.hdl, c.mutex, c.world_proc)

    def valid(self, c):
        return valid_mutex(c, c.hdl, c.mutex)

    def aborts(self, c):
        return Not(And(self.valid(c), GR(hcomm(c.old, c.hdl), c.world_proc) >= 0))

    def modifies(self, c):
        return ['nlive']

    def one_epoch(self, c, val):
        """One exclusive epoch on the mutex, which writes `val` in the caller's place and nothing else."""
        cm = hcomm(c.old, c.hdl)
        es = ev(c, 'epoch')
        yield 'exactly-one-epoch', z3.BoolVal(len(es) == 1 and epoch_closed(c))
        yield 'requested-mutex-exists', self.valid(c)
        if len(es) != 1:
            return
        e = es[0]
        yield 'exclusive', e['type'] == EXCL
        yield 'on-that-mutex-of-that-process', And(e['win'] == hwin(c.old, c.hdl, c.mutex), e['rank'] == GR(cm, c.world_proc))
        yield 'writes-once', z3.BoolVal(len(e['puts']) == 1)
        for p in e['puts']:
            yield 'writes-only-the-callers-place', And(p['disp'] == GR(cm, ME), p['size'] == 1)
            yield 'writes-the-right-mark', select(e['mem'], 'i1', p['org'], c._sink) == val
        yield 'temporaries-released', c.g1('nlive') == c.g0('nlive')


def epoch_closed(c):
    o = [n for n, _ in c.events or () if n in ('mlock', 'epoch')]
    return o == ['mlock', 'epoch']


def snap(events):
    for n, kw in reversed(events or ()):
        if n == 'epoch':
            return Function(kw['snap'], ISORT, ISORT)
    return None


def held(events):
    """HELD(i): some place below i other than the caller's is marked in the snapshot (recursively defined)."""
    for n, kw in reversed(events or ()):
        if n == 'epoch':
            return Function('HELD_' + kw['snap'], ISORT, z3.BoolSort())
    return None


def held_facts(events, n, me, i):
    Hd, S = held(events), snap(events)
    return And(Not(Hd(I(0))), Implies(And(i >= 0, i < n), Hd(i + 1) == Or(Hd(i), And(S(i) != 0, i != me))),
               Implies(And(i >= 0, i <= n, Hd(i)), Hd(n)))


class Scan(LoopSpec):
    """already_locked says whether some other place is marked."""

    def facts(self, L):
        cm = hcomm(L.ctx.old, L.ctx.hdl)
        return held_facts(L.cur.events, GSZ(cm), GR(cm, ME), L.idx())

    def lemmas(self, L):
        return [self.facts(L)]

    def inv(self, L):
        i = L.idx()
        n = GSZ(hcomm(L.ctx.old, L.ctx.hdl))
        Hd = held(L.cur.events)
        if Hd is None:
            yield 'epoch-before-the-scan', FALSE
            return
        L.cur.assume(self.facts(L))
        yield 'range', And(i >= 0, i <= n)
        yield 'flag', (L.v('already_locked') != 0) == Hd(i)


@contract('C13')
class Lock(Queue):
    name = 'ARMCIX_Lock_hdl'
    loops = {0: Scan()}

    def effects(self, c):
        return [('acquire', dict(hdl=c.hdl, mutex=c.mutex, proc=c.world_proc))]

    def ensures(self, c):
        if hasattr(c, 'caller'):
            return
        yield from self.one_epoch(c, 1)
        cm = hcomm(c.old, c.hdl)
        rs = ev(c, 'recv')
        Hd = held(c.events)
        if Hd is None:
            return
        n, me = GSZ(cm), GR(cm, ME)
        yield 'sends-nothing', z3.BoolVal(not ev(c, 'send'))
        yield 'at-most-one-notification-consumed', z3.BoolVal(len(rs) <= 1)
        if not rs:
            c.fact(held_facts(c.events, n, me, c.w))
            yield 'nobody-holds-or-awaits-it', Not(Hd(n))
        else:
            names = [x for x, _ in c.events]
            yield 'waits-after-queueing', z3.BoolVal(names.index('recv') > names.index('epoch'))
            yield 'waits-only-if-somebody-does', Hd(n)
            yield 'for-the-hand-over-of-this-mutex', And(rs[0]['comm'] == cm, rs[0]['tag'] == TAG + c.mutex, rs[0]['src'] == -1)


@contract('C13')
class Trylock(Queue):
    name = 'ARMCIX_Trylock_hdl'
    emits = ('acquire',)

    def ensures(self, c):
        if hasattr(c, 'caller'):
            return
        es = ev(c, 'acquire')
        yield 'acquired-once', z3.BoolVal(len(es) == 1 and len(c.events) == 1)
        for e in es:
            yield 'that-mutex', And(e['hdl'] == c.hdl, e['mutex'] == c.mutex, e['proc'] == c.world_proc)
        yield 'success-reported', c.ret == 0


def place(c, d):
    """The place d steps to the right of the caller, cyclically."""
    cm = hcomm(c.old, c.hdl)
    r, n = GR(cm, ME), GSZ(cm)
    return If(r + d < n, r + d, r + d - n)


class Search(LoopSpec):
    """No place between the caller and the current one is marked."""

    def inv(self, L):
        i = L.idx()
        c = L.ctx
        S = snap(L.cur.events)
        if S is None:
            yield 'epoch-before-the-search', FALSE
            return
        n = GSZ(hcomm(c.old, c.hdl))
        yield 'range', And(i >= 1, Or(i <= n))
        yield 'none-skipped', Implies(And(c.w >= 1, c.w < i), S(place(c, c.w)) == 0)


@contract('C13')
class Unlock(Queue):
    name = 'ARMCIX_Unlock_hdl'
    loops = {0: Search()}

    def effects(self, c):
        return [('release', dict(hdl=c.hdl, mutex=c.mutex, proc=c.world_proc))]

    def ensures(self, c):
        if hasattr(c, 'caller'):
            return
        yield from self.one_epoch(c, 0)
        cm = hcomm(c.old, c.hdl)
        S = snap(c.events)
        if S is None:
            return
        n, me = GSZ(cm), GR(cm, ME)
        ss = ev(c, 'send')
        yield 'waits-for-nobody', z3.BoolVal(not ev(c, 'recv'))
        yield 'at-most-one-waiter-notified', z3.BoolVal(len(ss) <= 1)
        if not ss:
            yield 'nobody-waits', Implies(And(c.w >= 1, c.w < n), S(place(c, c.w)) == 0)
        else:
            e = ss[0]
            names = [x for x, _ in c.events]
            d = e['dest']
            yield 'notifies-after-dequeueing', z3.BoolVal(names.index('send') > names.index('epoch'))
            yield 'on-that-mutexs-channel', And(e['comm'] == cm, e['tag'] == TAG + c.mutex)
            yield 'a-process-that-waits', And(d != me, d >= 0, d < n, S(d) == 1)
            D = If(d > me, d - me, d - me + n)
            yield 'the-next-in-cyclic-order', Implies(And(c.w >= 1, c.w < D), S(place(c, c.w)) == 0)


# ---------------------------------------------------------------- creation, destruction
WID = Function('WID', ISORT, ISORT)        # window -> running number of its creation
BIX = Function('BIX', ISORT, ISORT)        # queue memory -> number of the mutex it serves


def win_create(eng, st, a, n):
    """MPI_Win_create, numbering the windows as they are created."""
    from .coll import win_create as base
    r = base(eng, st, a, n)
    for s, _ in r:
        wn = s.events[-1][1]['win'] if s.events else s.load('ptr', a[5].e)
        s.assume(WID(wn) == s.gh['nwin'])
        s.gh['nwin'] = s.gh['nwin'] + 1
    return r


class MakeLoop(LoopSpec):
    """One window per mutex; the queue of every mutex hosted here starts empty."""
    events = True

    def h(self, L):
        return L.v('hdl')

    def modifies(self, L):
        h = self.h(L)
        rd = L.mem
        wp, bp = hf(rd, h, 'windows'), hf(rd, h, 'bases')
        k = hf(rd, h, 'max_count')
        mc = L.ctx.my_count
        return [('ptr', lambda a: Or(And(a >= wp, a < wp + 8 * k), And(mc > 0, a >= bp, a < bp + 8 * mc), *self.own_cells(L, a))),
                'nlive', 'nwin'] + self.byte_mods(L) + L.counter_mods()

    def own_cells(self, L, a):
        """Address-taken locals of the loop body."""
        return []

    def byte_mods(self, L):
        return []

    def inv(self, L):
        c = L.ctx
        i = L.idx()
        h = self.h(L)
        rd = L.mem
        cm = hcomm(rd, h)
        n = GSZ(cm)
        k = hf(rd, h, 'max_count')
        mc = c.my_count
        yield 'range', And(i >= 0, i <= k)
        K = c.K
        wn = hwin(rd, h, K)
        yield 'window-of-its-own', Implies(And(K >= 0, K < i), And(
            wn > 0, wn != w.WIN_NULL(c.eng), WINCOMM(wn) == cm, WID(wn) == c.g0('nwin') + K,
            WINSZ(wn, GR(cm, ME)) == If(K < mc, n, I(0)), Implies(K < mc, WINBASE(wn, GR(cm, ME)) == hbase(rd, h, K))))
        b = hbase(rd, h, K)
        yield 'empty-queue', Implies(And(K >= 0, K < i, K < mc), And(
            b > 0, b + n <= STACK0, b + n <= L.cur.brk if L._mem is None else TRUE, rd('G:live', b) == 1, rd('G:bsz', b) >= n,
            Implies(And(c.J >= 0, c.J < n), rd('i1', b + c.J) == 0)))
        yield 'blocks-counted', L.g('nlive') == L.eg('nlive') + If(i < mc, i, If(mc > 0, mc, I(0)))
        yield 'windows-counted', L.g('nwin') == c.g0('nwin') + i


@contract('C13')
class Create(Contract):
    name, params, file = 'ARMCIX_Create_mutexes_hdl', 'my_count pgroup', 'mutex_hdl_queue.c'
    allocates = True
    models = {'MPI_Win_create': win_create}
    loops = {0: MakeLoop()}

    def setup(self, eng, st, c):
        st.gh['nwin'] = fresh('nwin0')
        cm = gf(st.load, c.pgroup, 'comm')
        c.K, c.J = fresh('watchmutex'), fresh('watchplace')
        st.assume(And(group_facts(GRPOF(cm), ME)))

    def requires(self, c):
        for x in parent_ok(c, c.pgroup):
            if x[1] is not True:
                yield x
        yield 'few', And(c.my_count < (1 << 27), NP < (1 << 27))

    def aborts(self, c):
        return c.my_count <= 0

    def modifies(self, c):
        return ['nlive', 'nwin'] if not hasattr(c, 'caller') else ['nlive']

    def effects(self, c):
        return None

    def ensures(self, c):
        h = c.ret
        nw = c.new
        cm = hcomm(nw, h)
        k = hf(nw, h, 'max_count')
        yield 'handle', And(h > 0, h >= c.pre_brk, h + SZ(H) <= c.post_brk)
        yield 'private-communicator-same-members', And(cm > 0, cm != w.COMM_NULL(c.eng), GRPOF(cm) == GRPOF(gf(c.old, c.pgroup, 'comm')))
        yield 'counts', And(hf(nw, h, 'my_count') == c.my_count, k >= c.my_count, k > 0)
        if hasattr(c, 'caller'):
            return
        K = c.K
        n = GSZ(cm)
        wn, b = hwin(nw, h, K), hbase(nw, h, K)
        yield 'one-window-per-mutex', Implies(And(K >= 0, K < k), And(
            wn > 0, wn != w.WIN_NULL(c.eng), WINCOMM(wn) == cm, WID(wn) == c.g0('nwin') + K, WINSZ(wn, GR(cm, ME)) == If(K < c.my_count, n, I(0))))
        yield 'queue-memory-behind-it', Implies(And(K >= 0, K < c.my_count), And(WINBASE(wn, GR(cm, ME)) == b, nw('G:live', b) == 1, nw('G:bsz', b) >= n))
        yield 'initially-free', Implies(And(K >= 0, K < c.my_count, c.J >= 0, c.J < n), nw('i1', b + c.J) == 0)


def owned(c, h):
    """Everything the handle owns: memory blocks (all different), windows, the group."""
    rd = c.old
    my, k = hf(rd, h, 'my_count'), hf(rd, h, 'max_count')
    wp, bp = hf(rd, h, 'windows'), hf(rd, h, 'bases')
    cm, nc = hcomm(rd, h), gf(rd, hgrp(h), 'noncoll_pgroup_comm')
    null, s = w.COMM_NULL(c.eng), comm_self(c.eng)
    yield from handle_ok(c, h)
    yield 'counts', And(my >= 0, k >= my)
    yield 'blocks', And(rd('G:live', h) == 1, rd('G:live', wp) == 1, h != wp, BIX(h) == -1, BIX(wp) == -1,
                        Implies(my > 0, bp > 0), Implies(bp != 0, And(bp > 0, bp + 8 * my <= c.pre_brk, rd('G:live', bp) == 1, BIX(bp) == -1, bp != h, bp != wp)))
    yield 'apart', And(disjoint(wp, 8 * k, h, SZ(H)), Implies(bp != 0, And(disjoint(bp, 8 * my, h, SZ(H)), disjoint(bp, 8 * my, wp, 8 * k))))
    a, b = gf(rd, hgrp(h), 'abs_to_grp'), gf(rd, hgrp(h), 'grp_to_abs')
    yield 'group', And(cm != s, nc > 0, nc != s, Implies(cfg(c, 'noncollective_groups') != 0, And(nc != null, nc != cm)))
    for x in (a, b):
        yield 'caches', And(x >= 0, Implies(x != 0, And(x > 0, rd('G:live', x) == 1, BIX(x) == -1, x != h, x != wp, Implies(bp != 0, x != bp))))
    yield 'two caches', Implies(a != 0, a != b)

    def cell(x):
        v = rd('ptr', x)
        i = (x - wp) / 8
        j = (x - bp) / 8
        return And(Implies(And(i >= 0, i < k, x == wp + 8 * i), And(v > 0, v != w.WIN_NULL(c.eng))),
                   Implies(And(bp != 0, j >= 0, j < my, x == bp + 8 * j), And(v > 0, rd('G:live', v) == 1, BIX(v) == j)))
    yield 'windows-and-queues', 'ptr', cell


class FreeWins(LoopSpec):
    """Every window is released, once."""
    events = True

    def modifies(self, L):
        c = L.ctx
        wp, k = hf(c.old, c.hdl, 'windows'), hf(c.old, c.hdl, 'max_count')
        return [('ptr', lambda a: And(a >= wp, a < wp + 8 * k)), 'nfreed']

    def inv(self, L):
        c = L.ctx
        i = L.idx()
        wp, k = hf(c.old, c.hdl, 'windows'), hf(c.old, c.hdl, 'max_count')
        yield 'range', And(i >= 0, i <= k)
        yield 'counted', L.g('nfreed') == L.eg('nfreed') + i

        def rest(a):
            j = (a - wp) / 8
            return Implies(And(j >= i, j < k, a == wp + 8 * j), L.mem('ptr', a) == c.old('ptr', a))
        yield 'rest-untouched', 'ptr', rest


class FreeBases(LoopSpec):
    """Every queue is released, once."""

    def modifies(self, L):
        c = L.ctx
        bp, my = hf(c.old, c.hdl, 'bases'), hf(c.old, c.hdl, 'my_count')
        return [('G:live', lambda a: And(BIX(a) >= 0, BIX(a) < my, a == c.old('ptr', bp + 8 * BIX(a)))), 'nlive']

    def inv(self, L):
        c = L.ctx
        i = L.idx()
        bp, my = hf(c.old, c.hdl, 'bases'), hf(c.old, c.hdl, 'my_count')
        yield 'range', And(i >= 0, i <= my)
        yield 'counted', L.g('nlive') == L.eg('nlive') - i

        def live(a):
            j = BIX(a)
            return Implies(And(j >= 0, j < my, a == c.old('ptr', bp + 8 * j)), L.mem('G:live', a) == If(j < i, I(0), I(1)))
        yield 'released-so-far', 'G:live', live


def win_free(eng, st, a, n):
    from .coll import win_free as base
    st.gh['nfreed'] = st.gh['nfreed'] + 1
    return base(eng, st, a, n)


@contract('C13', 'C16')
class Destroy(Contract):
    name, params, file = 'ARMCIX_Destroy_mutexes_hdl', 'hdl', 'mutex_hdl_queue.c'
    models = {'MPI_Win_free': win_free}
    loops = {0: FreeWins(), 1: FreeBases()}

    def setup(self, eng, st, c):
        st.gh['nfreed'] = fresh('nfreed0')
        c.K = fresh('watchmutex')

    def requires(self, c):
        yield from owned(c, c.hdl)

    def modifies(self, c):
        rd, h = c.old, c.hdl
        return ['nlive', 'nfreed', ('G:live', None), ('ptr', None)] + [(rec(G) + '.' + f, None) for f in
                ('comm', 'noncoll_pgroup_comm', 'rank', 'size', 'abs_to_grp', 'grp_to_abs')] if not hasattr(c, 'caller') else \
               ['nlive', ('G:live', None), ('ptr', None)] + [(rec(G) + '.' + f, (lambda a, f=f: a == hgrp(h) + off(G + '.' + f))) for f in
                ('comm', 'noncoll_pgroup_comm', 'rank', 'size', 'abs_to_grp', 'grp_to_abs')]

    def effects(self, c):
        return None

    def ensures(self, c):
        yield 'success', c.ret == 0
        if hasattr(c, 'caller'):
            return
        rd, h, nw = c.old, c.hdl, c.new
        my, k = hf(rd, h, 'my_count'), hf(rd, h, 'max_count')
        bp = hf(rd, h, 'bases')
        yield 'every-window-released-once', c.g1('nfreed') == c.g0('nfreed') + k
        b = hbase(rd, h, c.K)
        yield 'every-queue-released', Implies(And(bp != 0, c.K >= 0, c.K < my), nw('G:live', b) == 0)
        yield 'handle-released', And(nw('G:live', h) == 0, nw('G:live', hf(rd, h, 'windows')) == 0, Implies(bp != 0, nw('G:live', bp) == 0))
        yield 'group-released', gf(nw, hgrp(h), 'size') == 0


# ---------------------------------------------------------------- the default set
def HDL(c, rd=None):
    nm = hdl_name(c.eng)
    return (rd or c.old)('g:' + nm, c.eng.ga(nm))


def hdl_name(eng):
    return 'mutex.c:armci_mutex_hdl:'


class Std(Contract):
    file = 'mutex.c'

    def ok(self, c):
        return []

    def requires(self, c):
        h = HDL(c)
        for cl in self.ok(c):
            if len(cl) == 2:
                yield cl[0], Implies(h != 0, cl[1])
            else:
                yield cl[0], cl[1], (lambda a, f=cl[2]: Implies(h != 0, f(a)))


@contract('C13')
class StdCreate(Std):
    name, params = 'PARMCI_Create_mutexes', 'count'

    def effects(self, c):
        return None


    def setup(self, eng, st, c):
        st.assume(group_facts(GRPOF(WCOMM), ME))

    def requires(self, c):
        yield 'few', And(c.count < (1 << 27), NP < (1 << 27))

    def aborts(self, c):
        return Or(HDL(c) != 0, c.count <= 0)

    def modifies(self, c):
        return ['nlive', ('g:' + hdl_name(c.eng), lambda a: a == c.glob(hdl_name(c.eng)))]

    def ensures(self, c):
        yield 'only-one-default-set', HDL(c) == 0
        h = HDL(c, c.new)
        yield 'success', And(c.ret == 0, h > 0)
        yield 'on-all-processes', GRPOF(hcomm(c.new, h)) == GRPOF(WCOMM)
        yield 'as-many-as-asked', hf(c.new, h, 'my_count') == c.count


@contract('C13', 'C16')
class StdDestroy(Std):
    name, params = 'PARMCI_Destroy_mutexes', ''

    def effects(self, c):
        return None


    def ok(self, c):
        return owned(c, HDL(c))

    def aborts(self, c):
        return HDL(c) == 0

    def modifies(self, c):
        return Destroy.modifies(Destroy(), FakeCtx(c)) + [('g:' + hdl_name(c.eng), lambda a: a == c.glob(hdl_name(c.eng)))]

    def ensures(self, c):
        yield 'something-to-destroy', HDL(c) != 0
        yield 'gone', HDL(c, c.new) == 0
        yield 'success', c.ret == 0


class FakeCtx:
    def __init__(self, c):
        self.old, self.hdl, self.caller, self.eng = c.old, HDL(c), None, c.eng


class StdLock(Std):
    def setup(self, eng, st, c):
        h = HDL(c)
        cm = hcomm(st.load, h)
        st.assume(And(group_facts(GRPOF(cm), ME), group_facts(GRPOF(cm), c.proc), wcomm_facts(c.proc)))

    def ok(self, c):
        return mutex_ok(c, HDL(c), c.mutex, c.proc)

    def aborts(self, c):
        return Or(HDL(c) == 0, Not(And(valid_mutex(c, HDL(c), c.mutex), GR(hcomm(c.old, HDL(c)), c.proc) >= 0)))

    def modifies(self, c):
        return ['nlive']

    def ensures(self, c):
        es = ev(c, self.what)
        yield 'exactly-once', z3.BoolVal(len(es) == 1 and len(c.events) == 1)
        yield 'rejected-before-creation', HDL(c) != 0
        for e in es:
            yield 'that-mutex-of-that-process', And(e['hdl'] == HDL(c), e['mutex'] == c.mutex, e['proc'] == c.proc)


@contract('C13')
class PLock(StdLock):
    name, params, what = 'PARMCI_Lock', 'mutex proc', 'acquire'

    def effects(self, c):
        return None



@contract('C13')
class PUnlock(StdLock):
    name, params, what = 'PARMCI_Unlock', 'mutex proc', 'release'

    def effects(self, c):
        return None



# ---------------------------------------------------------------- mutual exclusion
@contract('C13')
class MutualExclusion(Contract):
    """What the contracts of lock and unlock add up to, for any number of processes
    and any interleaving of their (atomic) epochs: an inductive invariant.

    ST[p]: 0 idle, 1 queued and waiting, 2 holding, 3 queued and being notified;
    B[p]: the byte of p in the window; O: the one process that holds or is being
    handed the mutex (-1: none).  Each step below is exactly what the contract of
    the function guarantees about one epoch and the message that follows it."""
    name, file = 'lemma:mutual-exclusion', 'mutex_hdl_queue.c'

    def lemma(self, eng):
        Z = z3.IntSort()
        ST, B, ST2, B2 = [z3.Array(x, Z, Z) for x in ('ST', 'B', 'ST2', 'B2')]
        O, O2, n, p, q, w_, j = z3.Ints('O O2 n p q w_ j')

        def inv(st, b, o):
            x = z3.Int('x')
            inr = And(x >= 0, x < n)
            return And(o >= -1, o < n, z3.ForAll([x], Implies(inr, And(
                b[x] == If(st[x] == 0, I(0), I(1)), st[x] >= 0, st[x] <= 3,
                Or(st[x] == 2, st[x] == 3) == (x == o),          # at most one holds or is being notified
                Implies(st[x] == 1, o != -1)))))                 # whoever waits has somebody to hand over to
        x = z3.Int('x')
        base = [n >= 1, inv(ST, B, O), p >= 0, p < n]
        others = z3.Exists([x], And(x >= 0, x < n, x != p, B[x] != 0))
        yield 'initially', [n >= 1, z3.ForAll([x], And(B[x] == 0, ST[x] == 0)), O == -1], inv(ST, B, O)
        lock = base + [ST[p] == 0, B2 == z3.Store(B, p, 1)]
        yield 'request-granted', lock + [Not(others), ST2 == z3.Store(ST, p, 2), O2 == p], inv(ST2, B2, O2)
        yield 'request-queued', lock + [others, ST2 == z3.Store(ST, p, 1), O2 == O], inv(ST2, B2, O2)
        yield 'hand-over-received', base + [ST[p] == 3, ST2 == z3.Store(ST, p, 2), B2 == B, O2 == O], inv(ST2, B2, O2)
        rel = base + [ST[p] == 2, B2 == z3.Store(B, p, 0)]
        yield 'released-to-the-next', rel + [q >= 0, q < n, q != p, B[q] != 0, ST2 == z3.Store(z3.Store(ST, p, 0), q, 3), O2 == q], inv(ST2, B2, O2)
        yield 'released-to-nobody', rel + [Not(others), ST2 == z3.Store(ST, p, 0), O2 == -1], inv(ST2, B2, O2)
        yield 'at-most-one-holder', base + [q >= 0, q < n, ST[p] == 2, ST[q] == 2], p == q
        # cyclic order serves everybody: the distance from the releaser to a waiter shrinks with every hand-over
        D = lambda a, b: If(b > a, b - a, b - a + n)
        yield 'waiters-come-closer', [n >= 1, p >= 0, p < n, q >= 0, q < n, w_ >= 0, w_ < n, p != q, p != w_, q != w_, B[w_] != 0,
                                      z3.ForAll([j], Implies(And(j >= 0, j < n, j != p, D(p, j) < D(p, q)), B[j] == 0))], \
            D(q, w_) < D(p, w_)
