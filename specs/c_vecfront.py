"""Contracts on the vector front ends and their checks (src/vector.c, src/vector_nb.c)."""
import z3
from z3 import And, Or, Not, If, IntVal, Implies, Int, Function
from engine.vc import Contract, LoopSpec, fresh, TRUE, FALSE, STACK0, add_base_hook, select
from . import world as w
from .world import *
from .reg import contract
from .c_gmr import h_fields, hdl_ok, hdl_disjoint
from .c_buffer import acc_valid, acc_unit, acc, identity_scale, scaled_at, ACCT, ACC_MPI
from .c_bufvec import SEPARATE, same_at, guard, owner, FRESHFROM
from .c_vector import IovOp, VALID, LOCFIT, enum, method, IF, hdl_like

BR = z3.BoolSort()
SAMEALL = Function('SAMEALL', ISORT, ISORT, ISORT, BR)   # (list, count, process): one allocation, or all private
OVLP = Function('OVLP', ISORT, ISORT, ISORT, BR)         # (list, count, size): two segments share a byte


# ---------------------------------------------------------------- same allocation?
class SameLoop(LoopSpec):
    def modifies(self, L_):
        return L_.counter_mods()

    def inv(self, L_):
        c = L_.ctx
        con = L_.eng.unit_contract
        i = L_.idx()
        yield 'counter', And(i >= 1, Or(i <= c.count, i == 1))
        yield 'same-so-far', Implies(And(c.K >= 0, c.K < i), con.same(c, c.old, c.old('ptr', c.ptrs + 8 * c.K)))


@contract('C07', 'C06')
class SameAllocation(Contract):
    name = 'ARMCII_Iov_check_same_allocation'
    file = 'vector.c'
    params = 'ptrs count proc'
    loops = {0: SameLoop(), 1: SameLoop()}

    def same(self, c, rd, v):
        m = OWN(rd('ptr', c.ptrs), c.proc)
        b, z = sbase(rd, m, c.proc), ssize(rd, m, c.proc)
        return If(m == 0, OWN(v, c.proc) == 0, And(v >= b, v < b + z))

    def setup(self, eng, st, c):
        c.K = fresh('watchK')
        st.assume(And(c.K >= 0, c.K < c.count))
        st.assume(wcomm_facts(c.proc))
        base = eng.unit_base
        rl = c.ptrs
        allsame = SAMEALL(c.ptrs, c.count, c.proc)

        def h(a, v, sink):
            k = (a - rl) / 8
            rd = lambda kk, x: select(base, kk, x, sink)
            return [Implies(And(k >= 0, k < c.count, a == rl + 8 * k),
                            And(own_facts(rd, v, c.proc), *[gmr_facts(rd, OWN(v, c.proc), p) for p in (c.proc, ME)]))] + \
                   [Implies(And(k >= 0, k < c.count, a == rl + 8 * k, allsame), self.same(c, rd, v))]
        add_base_hook(base, 'ptr', h)
        st.load('ptr', rl)
        v = st.load('ptr', rl + 8 * c.K)
        st.assume(Implies(Not(allsame), Not(self.same(c, st.load, v))))

    def requires(self, c):
        yield 'process id', isproc(c.proc)
        yield 'list', And(c.ptrs > 0, c.count >= 1, c.count < (1 << 27), buf_ok(c, c.ptrs, 8 * c.count))

    def modifies(self, c):
        return []

    def ensures(self, c):
        on = cfg(c, 'iov_checks') != 0
        yield 'not-asked-means-yes', Implies(Not(on), c.ret == 1)
        yield 'exactly-when-one-allocation', Implies(on, c.ret == If(SAMEALL(c.ptrs, c.count, c.proc), IntVal(1), IntVal(0)))


# ---------------------------------------------------------------- the set of intervals
CTB = Int('CTB')          # the nodes of the set lie at or above this address
for _k in ('G:ctlo', 'G:cthi'):
    KEYSORT[_k] = ISORT


def const_init(eng, st, nm):
    """A constant global is NULL when its definition says so."""
    for tu in eng.tus.values():
        for d in tu.globals.values():
            if d.get('name') == nm and d.get('init') and 'const' in d.get('type', {}).get('qualType', ''):
                def null(n):
                    return any(x.get('castKind') == 'NullToPointer' or null(x) for x in n.get('inner', []) if isinstance(x, dict))
                if null(d):
                    return st.load('g:' + nm, eng.ga(nm)) == 0
    return TRUE


def share(x, y):
    """Two closed intervals share a byte."""
    return And(x[0] <= y[1], y[0] <= x[1])


def node_mods():
    r = rec('ctree_node_s')
    return [('%s.%s' % (r, f), lambda a: And(a >= CTB, a < STACK0)) for f in ('lo', 'hi', 'left', 'right', 'parent', 'height')] + \
        [('G:live', lambda a: And(a >= CTB, a < STACK0))]


class CtInsert(Contract):
    """The set as the sequence of the intervals inserted so far: ghosts ctn, ctlo[], cthi[]."""
    name = 'ctree_insert'
    file = 'conflict_tree.c'
    params = 'root lo hi'
    allocates = True

    def requires(self, c):
        yield 'set', And(c.root > 0, (c.old('ptr', c.root) == 0) == (c.g0('ctn') == 0), c.g0('ctn') >= 0)
        yield 'interval', c.lo <= c.hi

    def modifies(self, c):
        n = c.g0('ctn')
        return node_mods() + ['ctn', 'nlive', ('ptr', lambda a: a == c.root), ('G:ctlo', lambda a: a == n), ('G:cthi', lambda a: a == n)]

    def effects(self, c):
        return None

    def ensures(self, c):
        n = c.g0('ctn')
        me = (c.lo, c.hi)
        at = lambda q: (c.old('G:ctlo', q), c.old('G:cthi', q))
        yield 'answer', Or(c.ret == 0, c.ret == 1)
        yield 'inserted', Implies(c.ret == 0, And(c.g1('ctn') == n + 1, c.new('G:ctlo', n) == c.lo, c.new('G:cthi', n) == c.hi, c.new('ptr', c.root) > 0))
        yield 'refused', Implies(c.ret != 0, And(c.g1('ctn') == n, c.new('ptr', c.root) == c.old('ptr', c.root), n > 0))
        yield 'owned', c.g1('nlive') == c.g0('nlive') + c.g1('ctn') - n
        q = fresh('ctq')
        c.eng.unit_ctx.ct_last = q
        yield 'conflict-is-real', Implies(c.ret != 0, And(q >= 0, q < n, share(at(q), me)))
        for a in c.eng.unit_ctx.ct_watch:
            yield 'no-conflict-missed', Implies(And(c.ret == 0, a >= 0, a < n), Not(share(at(a), me)))


class CtLocate(Contract):
    name = 'ctree_locate'
    file = 'conflict_tree.c'
    params = 'root lo hi'

    def requires(self, c):
        yield 'interval', c.lo <= c.hi

    def modifies(self, c):
        return []

    def effects(self, c):
        return []

    def ensures(self, c):
        q = c.eng.unit_ctx.ct_last
        at = (c.old('G:ctlo', q), c.old('G:cthi', q))
        yield 'found', Implies(And(q >= 0, q < c.g0('ctn'), share(at, (c.lo, c.hi))), c.ret > 0)


class CtDestroy(Contract):
    name = 'ctree_destroy'
    file = 'conflict_tree.c'
    params = 'root'

    def requires(self, c):
        yield 'set', c.root > 0

    def modifies(self, c):
        return node_mods() + ['ctn', 'nlive', ('ptr', lambda a: a == c.root)]

    def effects(self, c):
        return None

    def ensures(self, c):
        yield 'empty', And(c.g1('ctn') == 0, c.new('ptr', c.root) == 0)
        yield 'released', c.g1('nlive') == c.g0('nlive') - c.g0('ctn')


for _c in (CtInsert, CtLocate, CtDestroy):
    contract()(_c)


# ---------------------------------------------------------------- overlap?
class OverlapLoop(LoopSpec):
    events = True

    def modifies(self, L_):
        root = L_.addr('ctree')
        return node_mods() + ['ctn', 'nlive', ('ptr', lambda a: a == root), ('G:ctlo', lambda a: a >= 0), ('G:cthi', lambda a: a >= 0)] + L_.counter_mods()

    def inv(self, L_):
        c = L_.ctx
        i = L_.idx()
        yield 'counter', And(i >= 0, i <= c.count)
        yield 'one-interval-each', L_.g('ctn') == i
        yield 'root', (L_.mem('ptr', L_.addr('ctree')) == 0) == (i <= 0)
        yield 'set-owned', L_.g('nlive') == c.g0('nlive') + i
        yield 'separate-so-far', Implies(And(c.A >= 0, c.A < c.B, c.B < i), Not(share(seg(c, c.old, c.A), seg(c, c.old, c.B))))

        def lo(q):
            return Implies(And(q >= 0, q < i), L_.mem('G:ctlo', q) == seg(c, c.old, q)[0])

        def hi(q):
            return Implies(And(q >= 0, q < i), L_.mem('G:cthi', q) == seg(c, c.old, q)[1])
        yield 'lower-bounds', 'G:ctlo', lo
        yield 'upper-bounds', 'G:cthi', hi


def seg(c, rd, k):
    v = rd('ptr', c.ptrs + 8 * k)
    return v, v + c.size - 1


@contract('C07', 'C06')
class CheckOverlap(Contract):
    name = 'ARMCII_Iov_check_overlap'
    file = 'vector.c'
    params = 'ptrs count size'
    allocates = True
    loops = {0: OverlapLoop()}

    def setup(self, eng, st, c):
        c.A, c.B = fresh('watchA'), fresh('watchB')
        # definition of OVLP: some pair shares a byte; A, B is that pair when there is one
        c.ovlp = OVLP(c.ptrs, c.count, c.size)
        rd = st.load
        st.assume(Implies(c.ovlp, And(c.A >= 0, c.A < c.B, c.B < c.count, share(seg(c, rd, c.A), seg(c, rd, c.B)))))
        st.assume(CTB == Int('BRK0'))
        st.gh['ctn'] = IntVal(0)
        c.ct_watch = [c.A]
        st.assume(const_init(eng, st, 'CTREE_EMPTY'))

    def requires(self, c):
        yield 'list', And(c.ptrs > 0, c.count >= 1, c.count < (1 << 27), buf_ok(c, c.ptrs, 8 * c.count))
        yield 'segment-length', c.size >= 1

    def on_call(self, eng, st, name, args, n, c):
        if name == 'ctree_destroy' and hasattr(c, 'ct_last'):
            st.assume(self.pair(c, c.ct_last, st.gh['ctn']))

    def effects(self, c):
        return None if not hasattr(c, 'caller') else []

    def pair(self, c, p, q):
        """Instance of the definition of OVLP."""
        inr = And(p >= 0, p < q, q < c.count)
        return Implies(And(inr, Not(OVLP(c.ptrs, c.count, c.size))), Not(share(seg(c, c.old, p), seg(c, c.old, q))))

    def modifies(self, c):
        return [] if hasattr(c, 'caller') else ['ctn', ('G:ctlo', None), ('G:cthi', None), 'nlive']

    def ensures(self, c):
        on = cfg(c, 'iov_checks') != 0
        yield 'not-asked-means-no', Implies(Not(on), c.ret == 0)
        yield 'exactly-when-two-share-a-byte', Implies(on, c.ret == If(OVLP(c.ptrs, c.count, c.size), IntVal(1), IntVal(0)))
        if not hasattr(c, 'caller'):
            yield 'set-released', c.g1('nlive') == c.g0('nlive')


# ---------------------------------------------------------------- front ends
NE = Function('NE', ISORT, ISORT, ISORT)     # (descriptors, v): how many of the first v are not empty
CUR = Function('CUR', ISORT, ISORT, ISORT)   # (descriptors, q): position of the q-th that is not empty
TOT = Function('TOT', ISORT, ISORT, ISORT)   # (descriptors, v): segments in the first v
VECOK = Function('VECOK', ISORT, ISORT, ISORT, ISORT, BR)   # every descriptor can be carried out
LFIT = z3.Bool('LFIT')                       # the local lists handed to the datatype method fit 32-bit offsets


class Desc:
    def __init__(self, rd, iov, v):
        a = iov + SZ('armci_giov_t') * v
        f = lambda x: fld(rd, 'armci_giov_t.' + x, a)
        self.S, self.D, self.B, self.N = f('src_ptr_array'), f('dst_ptr_array'), f('bytes'), f('ptr_array_len')
        self.some = And(self.N != 0, self.B != 0)


def front_facts(con, eng, c, i):
    """Definitions of NE, CUR and TOT at descriptor i, and what the caller promises of it."""
    d = Desc(c.old, c.iov, i)
    inr = And(i >= 0, i < c.iov_len)
    return And(NE(c.iov, 0) == 0, TOT(c.iov, 0) == 0,
               NE(c.iov, i + 1) == NE(c.iov, i) + If(d.some, IntVal(1), IntVal(0)),
               TOT(c.iov, i + 1) == TOT(c.iov, i) + If(d.some, d.N, IntVal(0)),
               Implies(inr, TOT(c.iov, i + 1) <= TOT(c.iov, c.iov_len)),
               Implies(d.some, CUR(c.iov, NE(c.iov, i)) == i),
               Implies(con.vecok(c), Implies(And(inr, d.some), con.desc_ok(c, d))),
               Implies(inr, And(*[f for _, f in con.desc_pre(c, d)])), Implies(And(inr, d.some), con.lists_pre(c, d)))


class VecLoop(LoopSpec):
    events = True

    def modifies(self, L_):
        c = L_.ctx
        con = L_.eng.unit_contract
        j = c.g0('Ln')
        m = ['Ln', 'ND', 'NF', 'segs', 'EK', 'SK', 'JD', 'LCL'] + [('G:L.' + f, lambda a: a >= j) for f in LOGF if f != 'done'] + [('G:L.done', None)]
        m += con.data(c, c.pre_brk)
        return m + con.hmods(c) + [('G:live', lambda a: And(a >= c.pre_brk, a < STACK0))] + L_.counter_mods()

    def lemmas(self, L_):
        c = L_.ctx
        con = L_.eng.unit_contract
        i = L_.idx()
        yield front_facts(con, L_.eng, c, i)
        d = Desc(c.old, c.iov, i)
        con.list_hook(L_.eng, c, d, And(i >= 0, i < c.iov_len, d.some))

    def inv(self, L_):
        c = L_.ctx
        con = L_.eng.unit_contract
        i, j = L_.idx(), c.g0('Ln')
        yield 'counter', And(i >= 0, Or(i <= c.iov_len, i == 0))
        yield 'each-descriptor-once', And(L_.g('ND') == NE(c.iov, i), L_.g('NF') == L_.g('ND'))
        Ln = L_.g('Ln')
        yield 'operations-so-far', And(Ln >= j, Ln - j <= TOT(c.iov, i), L_.g('LCL') >= 0)
        for x in con.more_inv(c, L_, i, j):
            yield x

        def done(x):
            d0, d1 = L(c.old, 'done', x), L_.mem('G:L.done', x)
            return And(Implies(x < j, d1 >= d0), Implies(And(con.waits(c), x >= j, x < Ln), d1 >= 1))
        yield 'complete-so-far', 'G:L.done', done


class Front(IovOp):
    allocates = True
    loops = {0: VecLoop()}
    kind_name = None
    params = 'iov iov_len proc'
    unit_opts = dict(budget=600)
    cost = 20

    def cases(self, eng):
        return None

    # --- shape of the operation
    def is_get(self):
        return self.kind_name == 'GET'

    def lists(self, d):
        """(local, remote)"""
        return (d.D, d.S) if self.is_get() else (d.S, d.D)

    def hdl(self, c):
        return IntVal(0)

    def waits(self, c):
        return TRUE

    def data(self, c, brk):
        return [(k, None) for k in sorted(DATA_KEYS)] if self.is_get() else []

    def hmods(self, c):
        return ['nlive']

    def more_inv(self, c, L_, i, j):
        return []

    def mayfit(self, c):
        return Or(LFIT, Not(method(c, 'DIRECT', 'AUTO')))

    def vecok(self, c):
        return VECOK(c.iov, c.iov_len, c.proc, c.datatype if self.kind_name == 'ACC' else IntVal(-1))

    def bad_params(self, c):
        return FALSE

    def aborts(self, c):
        return Or(Not(self.vecok(c)), Not(self.mayfit(c)), self.bad_params(c))

    def desc_ok(self, c, d):
        """What VECOK says of one descriptor."""
        l, r = self.lists(d)
        ov, sa = OVLP(d.D, d.N, d.B), SAMEALL(r, d.N, c.proc)
        on = cfg(c, 'iov_checks') != 0
        safe = Or(And(on, ov), And(on, Not(sa)), method(c, 'CONSRV'))
        direct = And(Not(safe), method(c, 'DIRECT', 'AUTO'))
        v = lambda m: VALID(r, d.N, d.B, c.proc, m)
        return And(If(safe, v(IntVal(0)), If(direct, v(2 + self.mtype(c)), v(IntVal(1)))), d.B % self.munit(c) == 0)

    def mtype(self, c):
        return T(c.eng, 'byte')

    def munit(self, c):
        return IntVal(1)

    def list_hook(self, eng, c, d, cond):
        """The caller's promise about the local segments of a descriptor, for whichever cell is read."""
        l, r = self.lists(d)
        h = self.hdl(c)
        base = eng.unit_base

        def f(a, v, sink):
            k = (a - l) / 8
            out = And(v > 0, buf_ok(c, v, d.B))
            if not z3.is_int_value(h):
                rd = lambda kk, x: select(base, kk, x, sink)
                n, s, arr = h_fields(rd, h)
                out = And(out, Or(h == 0, And(disjoint(h, SZ('armci_hdl_t'), v, d.B), Or(n <= 1, disjoint(arr, 8 * n, v, d.B)))))
            return [Implies(And(cond, k >= 0, k < d.N, a == l + 8 * k), out)]
        add_base_hook(base, 'ptr', f)
        base.memo.clear()

    def setup(self, eng, st, c):
        c.K, c.Q = fresh('watchK'), fresh('watchQ')
        c.watch_idx = [c.K]
        c.watch_q = [c.Q]
        st.assume(wcomm_facts(c.proc))
        for g in ('ND', 'NF', 'segs', 'EK', 'SK', 'JD', 'LCL'):
            st.gh[g] = IntVal(0)
        st.assume(And(NE(c.iov, 0) == 0, TOT(c.iov, 0) == 0))
        from .c_gmr import slice_hooks
        slice_hooks(eng, ME)

    def requires(self, c):
        yield 'process id', isproc(c.proc)
        sz = SZ('armci_giov_t')
        yield 'vector', And(c.iov > 0, c.iov_len >= 0, c.iov_len < (1 << 27), buf_ok(c, c.iov, sz * c.iov_len))
        if hasattr(c, 'caller'):
            if not (z3.is_int_value(c.iov_len) and c.iov_len.as_long() == 1):
                from engine.vc import Unsupported
                raise Unsupported('call of a vector operation with more than one descriptor')
            d = Desc(c.old, c.iov, IntVal(0))
            for x in self.desc_pre(c, d):
                yield x
            yield 'lists', Implies(d.some, self.lists_pre(c, d))
            l, r = self.lists(d)
            h = self.hdl(c)

            def f(a):
                k = (a - l) / 8
                v = c.old('ptr', a)
                return Implies(And(d.some, k >= 0, k < d.N, a == l + 8 * k), And(v > 0, buf_ok(c, v, d.B), TRUE if z3.is_int_value(h) else hdl_disjoint(c, h, v, d.B)))
            yield 'local-segments', 'ptr', f
        for x in self.more_requires(c):
            yield x

    def desc_pre(self, c, d):
        yield 'lengths', And(d.N >= 0, d.N < (1 << 27), d.B >= 0)

    def lists_pre(self, c, d):
        return And(d.S > 0, d.D > 0, buf_ok(c, d.S, 8 * d.N), buf_ok(c, d.D, 8 * d.N), self.list_apart(c, d.S, d.N), self.list_apart(c, d.D, d.N))

    def list_apart(self, c, l, n):
        return TRUE

    def more_requires(self, c):
        return []

    def modifies(self, c):
        j = c.g0('Ln')
        m = ['Ln'] + [('G:L.' + f, lambda a: a >= j) for f in LOGF if f != 'done'] + [('G:L.done', None)]
        m += self.data(c, c.pre_brk) + self.hmods(c)
        return m + ([] if hasattr(c, 'caller') else ['ND', 'NF', 'segs', 'EK', 'SK', 'JD', 'LCL'])

    def effects(self, c):
        return None

    # --- one descriptor, at the calls that carry it out
    def on_call(self, eng, st, name, args, n, c):
        a = lambda i: args[i].i()
        if name == 'ARMCII_Iov_op_dispatch':
            v = CUR(c.iov, st.gh['ND'])
            d = Desc(c.old, c.iov, v)
            l, r = self.lists(d)
            la, ra = (a(2), a(1)) if self.is_get() else (a(1), a(2))
            P = lambda f, nm: eng.prove(st, f, 'dispatch:' + nm, n)
            st.assume(Implies(LFIT, LOCFIT(la, d.N, self.mtype(c))))
            P(a(0) == enum(c, 'ARMCII_OP_' + self.kind_name), 'operation')
            P(ra == r, 'remote-addresses-as-listed')
            P(And(a(3) == d.N, a(4) == d.B), 'every-segment-with-the-listed-length')
            P(a(8) == c.proc, 'given-process')
            P(a(10) == self.hdl(c), 'handle')
            if self.kind_name == 'ACC':
                P(a(5) == c.datatype, 'element-type')
            o, b = c.old('ptr', l + 8 * c.K), st.load('ptr', la + 8 * c.K)
            inr = And(c.K >= 0, c.K < d.N)
            P(Implies(inr, self.faithful(c, st, o, b, d.B)), 'local-data-as-listed')
            P(Or(a(9) != 0, Not(self.waits(c)), FALSE), 'waits-when-it-must')
            P(Implies(And(inr, b != o), a(9) != 0), 'private-copies-wait-for-completion')
            st.gh['ND'] = st.gh['ND'] + 1
            st.gh['JD'] = st.gh['Ln']
            st.gh['LCL'] = la
        if name == self.finish:
            v = CUR(c.iov, st.gh['ND'] - 1)
            d = Desc(c.old, c.iov, v)
            l, r = self.lists(d)
            P = lambda f, nm: eng.prove(st, f, 'finish:' + nm, n)
            P(st.gh['NF'] == st.gh['ND'] - 1, 'after-its-operation')
            P(And(a(0) == l, a(1) == st.gh['LCL'], a(2) == d.N, a(3) == d.B), 'the-same-lists')
            sub = st.copy()
            j = fresh('sk_op')
            sub.assume(And(j >= sub.gh['JD'], j < sub.gh['Ln']))
            o, b = c.old('ptr', l + 8 * c.K), sub.load('ptr', st.gh['LCL'] + 8 * c.K)
            dn = L(sub.load, 'done', j)
            eng.prove(sub, Implies(And(c.K >= 0, c.K < d.N, b != o), dn >= 1), 'finish:operations-complete-first', n)
            st.gh['NF'] = st.gh['NF'] + 1

    def faithful(self, c, st, o, b, n):
        """The local segment used stands for the user's."""
        if self.is_get():
            return If(And(guard(c), owner(o) != 0), TRUE, b == o)
        return If(And(guard(c), owner(o) != 0), same_at(st.load, c.old, b, o, n), b == o)

    def ensures(self, c):
        j = c.g0('Ln')
        yield 'returns-zero', c.ret == 0
        if not hasattr(c, 'caller'):
            yield 'every-descriptor-once', And(c.g1('ND') == NE(c.iov, c.iov_len), c.g1('NF') == c.g1('ND'))
        yield 'log-grows', c.g1('Ln') >= j
        yield 'all-complete', 'G:L.done', lambda i: And(Implies(i < j, L(c.new, 'done', i) >= L(c.old, 'done', i)),
                                                        Implies(And(self.waits(c), i >= j, i < c.g1('Ln')), L(c.new, 'done', i) >= 1))


@contract('C06')
class PutV(Front):
    name = 'PARMCI_PutV'
    kind_name = 'PUT'
    finish = 'ARMCII_Buf_finish_read_vec'


@contract('C06')
class GetV(Front):
    name = 'PARMCI_GetV'
    kind_name = 'GET'
    finish = 'ARMCII_Buf_finish_write_vec'


@contract('C06')
class AccV(Front):
    name = 'PARMCI_AccV'
    params = 'datatype scale iov iov_len proc'
    kind_name = 'ACC'
    finish = 'ARMCII_Buf_finish_acc_vec'

    def cases(self, eng):
        return [dict(datatype=IntVal(enumv(eng, 'ARMCI_ACC_' + x))) for x in ACCT]

    def mtype(self, c):
        e = T(c.eng, 'byte')
        for x in ACCT:
            e = IF(c.datatype == acc(c, x), T(c.eng, ACC_MPI[x]), e)
        return e

    def munit(self, c):
        return IF(TRUE, acc_unit(c, c.datatype), IntVal(1))

    def scaled(self, c):
        return Not(identity_scale(c, c.old, c.datatype, c.scale))

    def bad_params(self, c):
        return Not(acc_valid(c, c.datatype))

    def desc_pre(self, c, d):
        for x in Front.desc_pre(self, c, d):
            yield x
        yield 'whole-elements', Implies(Or(c.datatype == acc(c, 'CPL'), c.datatype == acc(c, 'DCP')), d.B % (2 * acc_unit(c, c.datatype)) == 0)

    def more_requires(self, c):
        for x in Front.more_requires(self, c):
            yield x
        yield 'scale', And(c.scale > 0, buf_ok(c, c.scale, 16))

    def faithful(self, c, st, o, b, n):
        return If(self.scaled(c), scaled_at(c, st.load, c.old, b, o, n), Front.faithful(self, c, st, o, b, n))


class NbFront:
    def hdl(self, c):
        return c.handle

    def waits(self, c):
        return guard(c)

    def hmods(self, c):
        return IovOp.hmods(self, c)

    def more_requires(self, c):
        n, s, a = h_fields(c.old, c.handle)
        yield 'handle-usable', Or(c.handle == 0, And(c.handle > 0, buf_ok(c, c.handle, SZ('armci_hdl_t')), hdl_ok(c, c.handle), n + TOT(c.iov, c.iov_len) < (1 << 30)))

    def list_apart(self, c, l, m):
        n, s, a = h_fields(c.old, c.handle)
        return Or(c.handle == 0, n <= 1, disjoint(a, 8 * n, l, 8 * m))

    def more_inv(self, c, L_, i, j):
        yield 'handle', self.h_state(c, L_.mem, L_.g('Ln') - j, c.Q, L_.cur.brk)
        yield 'guarded-transfers-wait', Implies(self.waits(c), L_.v('blocking') != 0) if self.kind_name != 'ACC' else Implies(guard(c), L_.v('blocking') != 0)

    def ensures(self, c):
        for x in Front.ensures(self, c):
            yield x
        j = c.g0('Ln')
        if not hasattr(c, 'caller'):
            yield 'handle-records-every-request', self.h_state(c, c.new, c.g1('Ln') - j, c.Q, c.post_brk)
        else:
            h_ = c.g1('Ln') - j
            for Q in getattr(c.eng.unit_ctx, 'watch_q', []):
                yield 'handle-records-every-request', self.h_state(c, c.new, h_, Q, c.post_brk)


@contract('C06', 'C08')
class NbPutV(NbFront, PutV):
    name = 'PARMCI_NbPutV'
    file = 'vector_nb.c'
    params = 'iov iov_len proc handle'


@contract('C06', 'C08')
class NbGetV(NbFront, GetV):
    name = 'PARMCI_NbGetV'
    file = 'vector_nb.c'
    params = 'iov iov_len proc handle'


@contract('C06')
class NbAccV(NbFront, AccV):
    name = 'PARMCI_NbAccV'
    file = 'vector_nb.c'
    params = 'datatype scale iov iov_len proc handle'

    def waits(self, c):
        return Or(guard(c), self.scaled(c))

    def more_requires(self, c):
        for x in NbFront.more_requires(self, c):
            yield x
        yield 'scale', And(c.scale > 0, buf_ok(c, c.scale, 16))
