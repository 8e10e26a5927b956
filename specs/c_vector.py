"""Contracts on vector (I/O vector) transfers (src/vector.c, src/vector_nb.c)."""
import z3
from z3 import And, Or, Not, If, IntVal, Implies, Int, Function
from engine.vc import Contract, LoopSpec, fresh, TRUE, FALSE, STACK0, add_base_hook, select
from . import world as w
from .world import *
from .reg import contract
from .c_gmr import h_fields, hdl_ok, hdl_disjoint
from .c_buffer import acc_valid, acc_unit, acc, ACCT, ACC_MPI
from .c_bufvec import SEPARATE, same_at, guard

VALID = Function('VALID', ISORT, ISORT, ISORT, ISORT, ISORT, z3.BoolSort())
# (remote list, count, bytes, proc, mode): every remote segment is acceptable; mode 0: each in some allocation,
# 1: all in the allocation of the first, 2 + t: and at element offsets of type t representable in 32 bits
LOCFIT = Function('LOCFIT', ISORT, ISORT, ISORT, z3.BoolSort())
# (local list, count, type): the local segments lie at 32-bit element offsets from the lowest
BR = z3.BoolSort()


def IF(c, a, b):
    c = z3.simplify(c)
    return a if z3.is_true(c) else b if z3.is_false(c) else If(c, a, b)


def enum(c, n):
    return IntVal(enumv(c.eng, n))


def is_op(c):
    return Or(*[c.op == enum(c, 'ARMCII_OP_' + x) for x in ('PUT', 'GET', 'ACC')])


def slot(rd, h, q):
    n, s, a = h_fields(rd, h)
    return If(n == 1, s, rd('ptr', a + 8 * q))


class IovOp(Contract):
    """One vector of equally sized segments: local list, remote list, n bytes each."""
    file = 'vector.c'
    allocates = True
    unit_opts = dict(budget=400)

    def cases(self, eng):
        return [dict(op=IntVal(enumv(eng, 'ARMCII_OP_' + x))) for x in ('PUT', 'GET', 'ACC')]

    def get(self, c):
        return c.op == enum(c, 'ARMCII_OP_GET')

    def acc(self, c):
        return c.op == enum(c, 'ARMCII_OP_ACC')

    def loc(self, c):
        return IF(self.get(c), c.dst, c.src)

    def rem(self, c):
        return IF(self.get(c), c.src, c.dst)

    def n(self, c):
        return c.elem_count * w.tsize(c.eng, c.type)

    def etype(self, c):
        return c.type

    def ecount(self, c):
        return c.elem_count

    def single(self, c):
        """All segments are taken to lie in the allocation of the first."""
        return c.consrv == 0

    def kind(self, c):
        return IF(self.get(c), IntVal(GET), IF(self.acc(c), IntVal(ACC), IntVal(PUT)))

    def valid(self, c):
        return VALID(self.rem(c), c.count, self.n(c), c.proc, If(self.single(c), IntVal(1), IntVal(0)))

    def home(self, c, rd, k):
        """The allocation segment k is addressed in."""
        r = self.rem(c)
        return If(self.single(c), OWN(rd('ptr', r), c.proc), OWN(rd('ptr', r + 8 * k), c.proc))

    def seg_ok(self, c, rd, k):
        m = self.home(c, rd, k)
        return And(m != 0, in_range(rd, m, c.proc, rd('ptr', self.rem(c) + 8 * k), self.n(c)))

    def setup(self, eng, st, c):
        c.K, c.Q = fresh('watchK'), fresh('watchQ')
        st.assume(wcomm_facts(c.proc))
        base = eng.unit_base
        rl = self.rem(c)

        def h(a, v, sink):
            k = (a - rl) / 8
            rd = lambda kk, x: select(base, kk, x, sink)
            f = [Implies(And(k >= 0, k < c.count, a == rl + 8 * k),
                         And(own_facts(rd, v, c.proc), Implies(self.valid(c), self.seg_ok_at(c, rd, v)),
                             *[gmr_facts(rd, OWN(v, c.proc), p) for p in (c.proc, ME)]))]
            return f
        add_base_hook(base, 'ptr', h)
        st.load('ptr', rl)
        st.load('ptr', rl + 8 * c.K)

    def seg_ok_at(self, c, rd, v):
        m = If(self.single(c), OWN(rd('ptr', self.rem(c)), c.proc), OWN(v, c.proc))
        return And(m != 0, in_range(rd, m, c.proc, v, self.n(c)))

    def shape(self, c):
        yield 'sizes', And(c.count >= 1, c.count < (1 << 27), c.elem_count >= 0)
        yield 'element-type', And(contig(c.type), TSIZE(c.type) == TEXT(c.type), TLB(c.type) == 0, TSIZE(c.type) >= 1, TSIZE(c.type) <= 8,
                                  Implies(Not(self.acc(c)), c.type == T(c.eng, 'byte')))

    def requires(self, c):
        yield 'process id', isproc(c.proc)
        for x in self.shape(c):
            yield x
        yield 'lists', And(c.src > 0, c.dst > 0, buf_ok(c, c.src, 8 * c.count), buf_ok(c, c.dst, 8 * c.count))
        ll = self.loc(c)

        def f(a):
            k = (a - ll) / 8
            v = c.old('ptr', a)
            return Implies(And(k >= 0, k < c.count, a == ll + 8 * k),
                           And(v > 0, buf_ok(c, v, self.n(c)), hdl_disjoint(c, c.handle, v, self.n(c))))
        yield 'local-segments', 'ptr', f
        nb, s, arr = h_fields(c.old, c.handle)
        yield 'handle-usable', Or(c.handle == 0, And(c.handle > 0, hdl_ok(c, c.handle), nb + c.count < (1 << 30)))
        yield 'lists-not-the-handle', Or(c.handle == 0, nb <= 1, And(disjoint(arr, 8 * nb, c.src, 8 * c.count), disjoint(arr, 8 * nb, c.dst, 8 * c.count)))

    def aborts(self, c):
        return Or(Not(is_op(c)), Not(self.valid(c)))

    def hmods(self, c, live_from=None):
        h = c.handle
        r = w.rec('armci_hdl_t')
        o = []
        for f in ('batch_size', 'single_request', 'request_array'):
            of = off('armci_hdl_t.' + f)
            o.append((r + '.' + f, (lambda a, of=of: And(h != 0, a == h + of))))
        n, s, arr = h_fields(c.old, c.handle)
        o.append(('G:live', lambda a: And(h != 0, n > 1, a == arr)))
        o.append(('ptr', lambda a: And(h != 0, a >= c.pre_brk, a < STACK0)))
        return o + ['nlive']

    def modifies(self, c):
        j = c.g0('Ln')
        m = ['Ln'] + [('G:L.' + f, lambda a: a >= j) for f in LOGF if f != 'done'] + [('G:L.done', None)]
        m += [(k, lambda a: self.get(c)) for k in sorted(DATA_KEYS)]
        return m + self.hmods(c)

    def effects(self, c):
        return None

    # --- what one segment's transfer is
    def transferred(self, c, new, k, j, s=None):
        """Operation j (segment s of it, when it is a derived datatype) moves segment k."""
        rd = c.old
        m = self.home(c, rd, k)
        lo, re = rd('ptr', self.loc(c) + 8 * k), rd('ptr', self.rem(c) + 8 * k)
        out = [L(new, 'kind', j) == self.kind(c), L(new, 'win', j) == gwin(rd, m), L(new, 'rank', j) == GR(gcomm(rd, m), c.proc),
               Implies(self.acc(c), L(new, 'op', j) == c.glob('ompi_mpi_op_sum'))]
        ot, tt = L(new, 'ot', j), L(new, 'tt', j)
        if s is None:
            out += [ot == self.etype(c), tt == self.etype(c), L(new, 'oc', j) == self.ecount(c), L(new, 'tc', j) == self.ecount(c),
                    L(new, 'org', j) == lo, L(new, 'disp', j) == re - sbase(rd, m, c.proc)]
        else:
            out += [L(new, 'oc', j) == 1, L(new, 'tc', j) == 1, SEGL(ot) == self.n(c), SEGL(tt) == self.n(c),
                    s >= 0, s < NSEG(ot), NSEG(ot) == NSEG(tt),
                    L(new, 'org', j) + SEGO(ot, s) == lo, L(new, 'disp', j) + SEGO(tt, s) == re - sbase(rd, m, c.proc)]
        return And(*out)

    def carried(self, c, new, k, j):
        """The data that operation j carried / delivered for segment k, at the watched byte or element."""
        rd = c.old
        lo = rd('ptr', self.loc(c) + 8 * k)
        out = []
        for f in WATCH:
            key, a = watch_addr(f, lo)
            out.append(Implies(And(Not(self.get(c)), watched_inside(f, self.n(c))), L(new, f, j) == rd(key, a)))
        return And(*out)

    def delivered(self, c, new, k, j):
        lo = c.old('ptr', self.loc(c) + 8 * k)
        out = []
        for f in WATCH:
            key, a = watch_addr(f, lo)
            out.append(Implies(And(self.get(c), SEPARATE(self.loc(c), c.count, self.n(c)), watched_inside(f, self.n(c))), new(key, a) == RB[key](j, a - lo)))
        return And(*out)

    def h_state(self, c, rd, i, q, brk):
        """The handle after i further requests."""
        h = c.handle
        n0, s0, a0 = h_fields(c.old, h)
        n, s, a = h_fields(rd, h)
        return Implies(h != 0, And(
            n == n0 + i, hdl_like(c, rd, h),
            Implies(i == 0, And(s == s0, a == a0)),
            Implies(And(i > 0, n > 1), And(a >= c.pre_brk, a + 8 * n <= brk)),
            Implies(And(q >= 0, q < n), slot(rd, h, q) == If(q < n0, slot(c.old, h, q), REQ(c.g0('Ln') + q - n0)))))

    def watch(self, c):
        if hasattr(c, 'caller'):
            return getattr(c.eng.unit_ctx, 'watch_seg', [])
        return [c.K]

    def ensures(self, c):
        j = c.g0('Ln')
        yield 'returns-zero', c.ret == 0
        yield 'known-operation', is_op(c)
        for x in self.per_segment(c, j):
            yield x
        if not hasattr(c, 'caller'):
            yield 'handle-records-every-request', Implies(self.nreq(c) >= 0, self.h_state(c, c.new, self.nreq(c), c.Q, c.post_brk))
        else:
            n0, s0, a0 = h_fields(c.old, c.handle)
            n, s, a = h_fields(c.new, c.handle)
            yield 'handle', Implies(c.handle != 0, And(n == n0 + self.nreq(c), hdl_like(c, c.new, c.handle)))
            yield 'handle-storage-new', Implies(And(c.handle != 0, n > 1, self.nreq(c) > 0), And(a >= c.pre_brk, a + 8 * n <= c.post_brk))
            for Q in getattr(c.eng.unit_ctx, 'watch_q', []):
                yield 'handle-records-every-request', Implies(self.nreq(c) >= 0, self.h_state(c, c.new, self.nreq(c), Q, c.post_brk))
            yield 'handle-storage-kept', Implies(And(c.handle != 0, self.nreq(c) == 0), And(a == a0, s == s0))
        n0 = h_fields(c.old, c.handle)[0]
        n1 = h_fields(c.new, c.handle)[0]
        yield 'temporaries-released', c.g1('nlive') == c.g0('nlive') + If(And(c.handle != 0, n0 <= 1, n1 > 1), IntVal(1), IntVal(0))
        yield 'earlier-operations-keep-progress', 'G:L.done', lambda i: Implies(i < j, L(c.new, 'done', i) >= L(c.old, 'done', i))
        yield 'all-complete', 'G:L.done', lambda i: Implies(And(c.blocking != 0, i >= j, i < c.g1('Ln')), L(c.new, 'done', i) >= 1)


def hdl_like(c, rd, h):
    """hdl_ok, without the upper bound on addresses (used inside loops)."""
    n, s, a = h_fields(rd, h)
    null = REQUEST_NULL(c.eng)
    return And(n >= 0, n < (1 << 30), Implies(n != 1, s == null), Implies(n == 1, And(s != null, s > 0)),
               Implies(n > 1, And(a > 0, rd('G:live', a) == 1, rd('G:bsz', a) == 8 * n, a + 8 * n < STACK0)))


class BatchLoop(LoopSpec):
    events = True

    def modifies(self, L_):
        c = L_.ctx
        con = L_.eng.unit_contract
        j = c.g0('Ln')
        m = ['Ln'] + [('G:L.' + f, lambda a: a >= j) for f in LOGF if f != 'done'] + [('G:L.done', None)]
        m += [(k, lambda a: con.get(c)) for k in sorted(DATA_KEYS)]
        return m + con.hmods(c) + L_.counter_mods()

    def lemmas(self, L_):
        c = L_.ctx
        con = L_.eng.unit_contract
        i, K = L_.idx(), c.K
        l = con.loc(c)
        o = lambda x: c.old('ptr', l + 8 * x)
        n = con.n(c)
        yield Implies(And(con.get(c), K >= 0, K < c.count, i >= 0, i < c.count, K != i, SEPARATE(l, c.count, n)), disjoint(o(K), n, o(i), n))

    def inv(self, L_):
        c = L_.ctx
        con = L_.eng.unit_contract
        i, j = L_.idx(), c.g0('Ln')
        rd = c.old
        m = L_.v(L_.ptr_name('gmr'))
        r = con.rem(c)
        yield 'counter', And(i >= 0, i <= c.count)
        yield 'known-operation', is_op(c)
        yield 'one-operation-per-segment', L_.g('Ln') == j + i
        yield 'allocation', m == If(Or(con.single(c), i <= 0), OWN(rd('ptr', r), c.proc), OWN(rd('ptr', r + 8 * (i - 1)), c.proc))
        yield 'allocation-live', And(m > 0, isg(rd, m))
        K = c.K
        had = And(K >= 0, K < i)
        yield 'segment-transferred', Implies(had, con.transferred(c, L_.mem, K, j + K))
        yield 'segment-valid', Implies(had, con.seg_ok(c, rd, K))
        yield 'data-carried', Implies(had, con.carried(c, L_.mem, K, j + K))
        yield 'data-delivered', Implies(had, con.delivered(c, L_.mem, K, j + K))
        yield 'handle', con.h_state(c, L_.mem, i, c.Q, L_.cur.brk)
        n0 = h_fields(rd, c.handle)[0]
        yield 'handle-block-counted', L_.g('nlive') == c.g0('nlive') + If(And(c.handle != 0, n0 <= 1, n0 + i > 1, i > 0), IntVal(1), IntVal(0))

        def done(x):
            d0, d1 = L(rd, 'done', x), L_.mem('G:L.done', x)
            wn, rk = L(L_.mem, 'win', x), L(L_.mem, 'rank', x)
            mine = And(x >= j, x < j + i)
            return And(Implies(x < j, d1 >= d0), Implies(mine, And(Or(
                d1 >= 1, c.blocking == 0, And(Or(con.single(c), x == j + i - 1), wn == gwin(rd, m), rk == GR(gcomm(rd, m), c.proc))),
                Implies(And(c.blocking != 0, Not(con.single(c)), x < j + i - 1), d1 >= 1))))
        yield 'pending', 'G:L.done', done


@contract('C06', 'C08')
class Batched(IovOp):
    name = 'ARMCII_Iov_op_batched'
    params = 'op src dst count elem_count type proc consrv blocking handle'
    loops = {0: BatchLoop()}

    def nreq(self, c):
        return c.count

    def per_segment(self, c, j):
        yield 'one-operation-per-segment', c.g1('Ln') == j + c.count
        for K in self.watch(c):
            inr = And(K >= 0, K < c.count)
            yield 'segment-inside-target', Implies(inr, self.seg_ok(c, c.old, K))
            yield 'segment-transferred', Implies(inr, self.transferred(c, c.new, K, j + K))
            yield 'data-carried', Implies(inr, self.carried(c, c.new, K, j + K))
            yield 'data-delivered', Implies(inr, self.delivered(c, c.new, K, j + K))


# ---------------------------------------------------------------- through derived datatypes
LMIN = Function('LMIN', ISORT, ISORT)     # list -> lowest address in it
KMIN = Function('KMIN', ISORT, ISORT)     # list -> a position that address stands at
TYPES = ('int', 'long', 'float', 'double')


def cells(a, lo, n, z):
    """(index of cell a, is it one of n cells of size z from lo)"""
    k = (a - lo) / z
    return k, And(k >= 0, k < n, a == lo + z * k)


class MinLoop(LoopSpec):
    def modifies(self, L_):
        la, bl, n = L_.addr('loc_addr'), L_.addr('base_loc'), L_.ctx.count
        return [('i8', lambda a: Or(a == bl, And(a >= la, a < la + 8 * n)))] + L_.counter_mods()

    def inv(self, L_):
        c = L_.ctx
        con = L_.eng.unit_contract
        l = con.loc(c)
        i = L_.idx()
        b = L_.mem('i8', L_.addr('base_loc'))
        yield 'counter', And(i >= 0, i <= c.count)
        yield 'base-is-an-address-listed', b == L_.v('base_loc_ptr')
        yield 'lowest-so-far', And(b >= LMIN(l), Implies(i > KMIN(l), b <= LMIN(l)))

        def f(a):
            k, inr = cells(a, L_.addr('loc_addr'), i, 8)
            return Implies(inr, L_.mem('i8', a) == c.old('ptr', l + 8 * k))
        yield 'local-addresses', 'i8', f


class DispLoop(LoopSpec):
    def modifies(self, L_):
        n = L_.ctx.count
        rng = lambda nm: (lambda a, lo=L_.addr(nm): And(a >= lo, a < lo + 4 * n))
        return [('i4', rng(x)) for x in ('disp_loc', 'disp_rem', 'block_len')] + L_.counter_mods()

    def inv(self, L_):
        c = L_.ctx
        i = L_.idx()
        con = L_.eng.unit_contract
        yield 'counter', And(i >= 0, i <= c.count)
        for x in disp_inv(L_, i):
            yield x
        yield 'segment-valid', Implies(And(c.K >= 0, c.K < i), con.seg_ok(c, c.old, c.K))


def disp_inv(L_, i):
    c = L_.ctx
    con = L_.eng.unit_contract
    l, r = con.loc(c), con.rem(c)
    ts, n = TSIZE(c.type), con.n(c)
    m = con.home(c, c.old, IntVal(0))

    def f(a):
        k, inr = cells(a, L_.addr('disp_loc'), i, 4)
        v = L_.mem('i4', a)
        return Implies(inr, And(v * ts == c.old('ptr', l + 8 * k) - LMIN(l), v >= 0))
    yield 'local-displacements', 'i4', f

    def g(a):
        k, inr = cells(a, L_.addr('disp_rem'), i, 4)
        v = L_.mem('i4', a)
        return Implies(inr, And(v * ts == c.old('ptr', r + 8 * k) - sbase(c.old, m, c.proc), v >= 0, v * ts + n <= ssize(c.old, m, c.proc)))
    yield 'remote-displacements', 'i4', g


class ChunkLoop(LoopSpec):
    events = True

    def modifies(self, L_):
        c = L_.ctx
        con = L_.eng.unit_contract
        j = c.g0('Ln')
        m = ['Ln', 'segs', 'EK', 'SK'] + [('G:L.' + f, lambda a: a >= j) for f in LOGF if f != 'done'] + [('G:L.done', None)]
        m += [(k, lambda a: And(con.get(c), a < STACK0)) for k in sorted(DATA_KEYS)]
        cells_ = [('ptr', lambda a, x=L_.addr(nm): a == x) for nm in ('type_loc', 'type_rem')]
        return m + con.hmods(c) + cells_ + [('G:live', lambda a: And(a >= c.pre_brk, a < STACK0))] + L_.counter_mods()

    def inv(self, L_):
        c = L_.ctx
        con = L_.eng.unit_contract
        j = c.g0('Ln')
        i = L_.idx()
        ch = L_.v('chunk')
        rd = c.old
        m = con.home(c, rd, IntVal(0))
        Ln, segs, EK, SK = [L_.g(x) for x in ('Ln', 'segs', 'EK', 'SK')]
        yield 'counter', And(i >= 0, i < c.count + ch)
        yield 'segments-so-far', segs == If(i < c.count, i, c.count)
        yield 'operations-so-far', And(Ln >= j, Ln - j <= segs, Implies(i > 0, Ln > j))
        had = And(c.K >= 0, c.K < segs)
        yield 'segment-transferred', Implies(had, And(EK >= j, EK < Ln, con.transferred(c, L_.mem, c.K, EK, SK)))
        yield 'handle', con.h_state(c, L_.mem, Ln - j, c.Q, L_.cur.brk)
        n0 = h_fields(rd, c.handle)[0]
        yield 'handle-block-counted', L_.g('nlive') == c.g0('nlive') + If(And(c.handle != 0, n0 <= 1, n0 + Ln - j > 1, Ln > j), IntVal(1), IntVal(0))

        def done(x):
            d0, d1 = L(rd, 'done', x), L_.mem('G:L.done', x)
            return And(Implies(x < j, d1 >= d0), Implies(And(x >= j, x < Ln), And(
                L(L_.mem, 'win', x) == gwin(rd, m), L(L_.mem, 'rank', x) == GR(gcomm(rd, m), c.proc))))
        yield 'one-target', 'G:L.done', done


@contract('C06')
class Datatype(IovOp):
    name = 'ARMCII_Iov_op_datatype'
    params = 'op src dst count elem_count type proc blocking handle'
    loops = {0: MinLoop(), 1: DispLoop(), 2: ChunkLoop()}
    unit_opts = dict(budget=600)
    cost = 30

    def cases(self, eng):
        o = lambda x: IntVal(enumv(eng, 'ARMCII_OP_' + x))
        return [dict(op=o('PUT'), type=T(eng, 'byte')), dict(op=o('GET'), type=T(eng, 'byte'))] + \
            [dict(op=o('ACC'), type=T(eng, x)) for x in TYPES]

    def single(self, c):
        return TRUE

    def valid(self, c):
        return VALID(self.rem(c), c.count, self.n(c), c.proc, 2 + c.type)

    def aborts(self, c):
        return Or(IovOp.aborts(self, c), Not(LOCFIT(self.loc(c), c.count, c.type)))

    def nreq(self, c):
        return c.g1('Ln') - c.g0('Ln')

    def requires(self, c):
        for x in IovOp.requires(self, c):
            yield x
        yield 'something-to-transfer', c.elem_count >= 1
        yield 'element-kind', Implies(self.acc(c), Or(*[c.type == T(c.eng, x) for x in TYPES]))

    def seg_ok_at(self, c, rd, v):
        m = OWN(rd('ptr', self.rem(c)), c.proc)
        ts = TSIZE(c.type)
        o = v - sbase(rd, m, c.proc)
        return And(m != 0, in_range(rd, m, c.proc, v, self.n(c)), o % ts == 0, o / ts <= 2147483647)

    def setup(self, eng, st, c):
        IovOp.setup(self, eng, st, c)
        base = eng.unit_base
        ll = self.loc(c)
        ts = w.tsize(eng, c.type)

        def h(a, v, sink):
            k, inr = cells(a, ll, c.count, 8)
            o = v - LMIN(ll)
            return [Implies(inr, And(o >= 0, Implies(LOCFIT(ll, c.count, c.type), And(o % ts == 0, o / ts <= 2147483647))))]
        add_base_hook(base, 'ptr', h)
        km = KMIN(ll)
        st.assume(And(km >= 0, km < c.count, st.load('ptr', ll + 8 * km) == LMIN(ll), LMIN(ll) > 0))
        st.load('ptr', ll + 8 * c.K)
        for g in ('segs', 'EK', 'SK'):
            st.gh[g] = IntVal(0)

    def seg_positions(self, c, st):
        return [c.K - st.gh['segs']]

    def on_call(self, eng, st, name, args, n, c):
        if name in ('gmr_put_typed', 'gmr_get_typed', 'gmr_accumulate_typed'):
            t = args[3].i()
            s = c.K - st.gh['segs']
            hit = And(s >= 0, s < NSEG(t))
            st.gh['EK'] = If(hit, st.gh['Ln'], st.gh['EK'])
            st.gh['SK'] = If(hit, s, st.gh['SK'])
            st.gh['segs'] = st.gh['segs'] + NSEG(t)

    def modifies(self, c):
        return IovOp.modifies(self, c) + ['segs', 'EK', 'SK']

    def per_segment(self, c, j):
        yield 'every-segment-issued', c.g1('segs') == c.count
        yield 'operations-bounded', And(c.g1('Ln') > j, c.g1('Ln') <= j + c.count)
        for K in self.watch(c):
            inr = And(K >= 0, K < c.count)
            yield 'segment-inside-target', Implies(inr, self.seg_ok(c, c.old, K))
            EK, SK = c.g1('EK'), c.g1('SK')
            yield 'segment-transferred', Implies(inr, And(EK >= j, EK < c.g1('Ln'), self.transferred(c, c.new, K, EK, SK)))


# ---------------------------------------------------------------- choice of the method
def method(c, *names):
    return Or(*[cfg(c, 'iov_method') == enum(c, 'ARMCII_IOV_' + x) for x in names])


@contract('C06', 'C08')
class Dispatch(IovOp):
    name = 'ARMCII_Iov_op_dispatch'
    params = 'op src dst count size datatype overlapping same_alloc proc blocking handle'

    def cases(self, eng):
        o = lambda x: IntVal(enumv(eng, 'ARMCII_OP_' + x))
        return [dict(op=o('PUT')), dict(op=o('GET'))] + [dict(op=o('ACC'), datatype=IntVal(enumv(eng, 'ARMCI_ACC_' + x))) for x in ACCT]

    def etype(self, c):
        e = T(c.eng, 'byte')
        for x in ACCT:
            e = IF(And(self.acc(c), c.datatype == acc(c, x)), T(c.eng, ACC_MPI[x]), e)
        return e

    def unit(self, c):
        return IF(self.acc(c), acc_unit(c, c.datatype), IntVal(1))

    def n(self, c):
        return c.size

    def ecount(self, c):
        return c.size / self.unit(c)

    def safe(self, c):
        return Or(c.overlapping != 0, c.same_alloc == 0, method(c, 'CONSRV'))

    def single(self, c):
        return Not(self.safe(c))

    def direct(self, c):
        return And(Not(self.safe(c)), method(c, 'DIRECT', 'AUTO'))

    def valid(self, c):
        v = lambda m: VALID(self.rem(c), c.count, c.size, c.proc, m)
        return If(self.safe(c), v(IntVal(0)), If(self.direct(c), v(2 + self.etype(c)), v(IntVal(1))))

    def aborts(self, c):
        return Or(Not(is_op(c)), And(self.acc(c), Not(acc_valid(c, c.datatype))), c.size % self.unit(c) != 0,
                  And(Not(self.safe(c)), Not(method(c, 'DIRECT', 'AUTO', 'BATCHED'))), Not(self.valid(c)),
                  And(self.direct(c), Not(LOCFIT(self.loc(c), c.count, self.etype(c)))))

    def shape(self, c):
        yield 'sizes', And(c.count >= 1, c.count < (1 << 27), c.size >= 1)

    def setup(self, eng, st, c):
        IovOp.setup(self, eng, st, c)
        c.watch_seg = [c.K]
        c.watch_q = [c.Q]
        for g in ('segs', 'EK', 'SK'):
            st.gh[g] = IntVal(0)

    def modifies(self, c):
        return IovOp.modifies(self, c) + ['segs', 'EK', 'SK']

    def nreq(self, c):
        return c.g1('Ln') - c.g0('Ln')

    def ensures(self, c):
        for x in IovOp.ensures(self, c):
            if x[0] == 'all-complete':
                x = (x[0], x[1], lambda i: Implies(And(Or(c.blocking != 0, self.safe(c)), i >= c.g0('Ln'), i < c.g1('Ln')), L(c.new, 'done', i) >= 1))
            yield x

    def per_segment(self, c, j):
        d = self.direct(c)
        yield 'every-segment-issued', If(d, c.g1('segs') == c.count, c.g1('Ln') == j + c.count)
        yield 'operations-bounded', And(c.g1('Ln') > j, c.g1('Ln') <= j + c.count)
        for K in self.watch(c):
            inr = And(K >= 0, K < c.count)
            EK, SK = c.g1('EK'), c.g1('SK')
            yield 'segment-inside-target', Implies(inr, self.seg_ok(c, c.old, K))
            yield 'segment-transferred', Implies(And(inr, Not(d)), self.transferred(c, c.new, K, j + K))
            yield 'segment-transferred-by-type', Implies(And(inr, d), And(EK >= j, EK < c.g1('Ln'), self.transferred(c, c.new, K, EK, SK)))
            yield 'data-carried', Implies(And(inr, Not(d)), self.carried(c, c.new, K, j + K))
            yield 'data-delivered', Implies(And(inr, Not(d)), self.delivered(c, c.new, K, j + K))
