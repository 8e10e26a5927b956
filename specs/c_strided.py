"""Contracts on strided transfers (src/strided.c, src/strided_nb.c)."""
import z3
from z3 import And, Or, Not, If, IntVal, Implies, Int, Function
from engine.vc import Contract, LoopSpec, fresh, TRUE, FALSE, STACK0, add_base_hook, select
from . import world as w
from .world import *
from .reg import contract
from .c_gmr import h_fields, hdl_ok, hdl_disjoint
from .c_buffer import acc_unit, acc
from .c_vector import IovOp
from .c_vecfront import Desc, TOT
from .c_bufvec import lem, mul_lemma, guard, SEPARATE, same_at

MAXL = 7      # eight-dimensional data
BR = z3.BoolSort()
SEGOF = Function('SEGOF', ISORT, ISORT, ISORT, ISORT, ISORT, BR)   # (base, strides, counts, levels, v): v is the address of a segment
_pl = []


def prod_bound(s, x):
    """|s| <= 2^31 and 0 <= x < 2^27  =>  |s*x| <= 2^58"""
    if not _pl:
        a, b = z3.Ints('pa pb')
        A, B = 1 << 31, 1 << 27
        lem(Implies(And(a <= A, a >= 0, b >= 0, b <= B), And(a * b >= 0, a * b <= A * B)),
            Implies(And(a >= -A, a <= 0, b >= 0, b <= B), And(a * b <= 0, a * b >= -A * B)))
        _pl.append(1)
    return Implies(And(s >= -(1 << 31), s <= (1 << 31), x >= 0, x <= (1 << 27)), And(s * x >= -(1 << 58), s * x <= (1 << 58)))


def same_prod(s, x, y):
    return Implies(x == y, s * x == s * y)


class Shape:
    """The description: counts c1.. and strides of one side; W[i] = c1*...*ci."""
    def __init__(self, rd, count, levels):
        self.n = levels
        self.bytes = rd('i4', count)
        self.c = [rd('i4', count + 4 * (i + 1)) for i in range(levels)]
        self.W = [IntVal(1)]
        p = None
        for x in self.c:
            p = x if p is None else p * x
            self.W.append(p)


def strides(rd, arr, levels):
    return [rd('i4', arr + 4 * i) for i in range(levels)]


def off(s, d):
    t = IntVal(0)
    for a, b in zip(s, d):
        t = t + a * b
    return t


PR = Function('PR', ISORT, ISORT, ISORT)     # the product of its arguments; only instances of the facts below are used
_pr = []


def pr_lemmas():
    if not _pr:
        a, b, x = z3.Ints('qa qb qx')
        p = lambda u, v: u * v
        lem(Implies(And(a < b, x >= 0), p(a, x) + x <= p(b, x)), Implies(And(a >= 0, x >= 0), p(a, x) >= 0), p(IntVal(0), x) == 0, p(a + 1, x) == p(a, x) + x)
        _pr.append(1)


def pr_less(a, b, x):
    pr_lemmas()
    return And(Implies(And(a < b, x >= 0), PR(a, x) + x <= PR(b, x)), Implies(And(a >= 0, x >= 0), PR(a, x) >= 0))


class Radix:
    """Mixed-radix positions: digits d with weights W (opaque names, defined by W[i+1] = W[i]*c[i])."""
    def __init__(self, sh, tag):
        self.sh = sh
        self.w = [IntVal(1)] + [fresh('W%d' % (i + 1)) for i in range(sh.n)]

    def defs(self):
        for i in range(self.sh.n):
            yield self.w[i + 1] == self.sh.W[i + 1]
            yield self.w[i + 1] == PR(self.sh.c[i], self.w[i])
            yield PR(IntVal(0), self.w[i]) == 0
            yield self.w[i + 1] >= 1

    def pos(self, d):
        t = IntVal(0)
        for i in range(self.sh.n):
            t = t + PR(d[i], self.w[i])
        return t

    def inr(self, d, top=0):
        n = self.sh.n
        return And(*[And(d[i] >= 0, (d[i] <= self.sh.c[i]) if top and i == n - 1 else (d[i] < self.sh.c[i])) for i in range(n)])

    def facts(self, d):
        """Instances: what adding one to a digit does, and where the position lies."""
        n = self.sh.n
        radix_lemmas(n)
        return [PR(d[i] + 1, self.w[i]) == PR(d[i], self.w[i]) + self.w[i] for i in range(n)] + \
               [Implies(self.inr(d), And(self.pos(d) >= 0, self.pos(d) < self.w[n]))]

    def distinct(self, d, e):
        """The position determines the digits, hence the displacement."""
        radix_lemmas(self.sh.n)
        return Implies(And(self.inr(d), self.inr(e), self.pos(d) == self.pos(e)), And(*[d[i] == e[i] for i in range(self.sh.n)]))


class _Any:
    pass


_rl = set()


def radix_lemmas(n):
    """The two facts above, from the instances of multiplication they rest on (proved once per depth)."""
    if n in _rl or n == 0:
        return
    _rl.add(n)
    sh = _Any()
    sh.n, sh.c, sh.W = n, [Int('rc%d' % i) for i in range(n)], None
    rx = Radix(sh, 'lemma')
    d, e = [Int('rd%d' % i) for i in range(n)], [Int('re%d' % i) for i in range(n)]
    base = [rx.w[i + 1] == PR(sh.c[i], rx.w[i]) for i in range(n)] + [rx.w[i + 1] >= 1 for i in range(n)]
    inst = lambda x, y: [pr_less(x[i], y[i], rx.w[i]) for i in range(n)]
    lem(Implies(And(*base, *inst(d, sh.c), rx.inr(d)), And(rx.pos(d) >= 0, rx.pos(d) < rx.w[n])))
    lem(Implies(And(*base, *inst(d, sh.c), *inst(e, sh.c), *inst(d, e), *inst(e, d), rx.inr(d), rx.inr(e), rx.pos(d) == rx.pos(e)),
                And(*[d[i] == e[i] for i in range(n)])))


class IovLoop(LoopSpec):
    def idx_at(self, L_):
        c = L_.ctx
        a = L_.addr('idx')
        return [L_.mem('i4', a + 4 * i) for i in range(c.sh.n)]

    def modifies(self, L_):
        c = L_.ctx
        a = L_.addr('idx')
        return [('i4', lambda x: And(x >= a, x < a + 4 * c.sh.n)),
                ('ptr', lambda x: Or(And(x >= self.sl(L_), x < self.sl(L_) + 8 * c.rx.w[-1]), And(x >= self.dl(L_), x < self.dl(L_) + 8 * c.rx.w[-1])))] + L_.counter_mods()

    def sl(self, L_):
        return L_.emem('armci_giov_t.src_ptr_array', L_.ctx.iov)

    def dl(self, L_):
        return L_.emem('armci_giov_t.dst_ptr_array', L_.ctx.iov + 8)

    def lemmas(self, L_):
        c = L_.ctx
        d = self.idx_at(L_)
        for f in c.rx.facts(d):
            yield f
        for s in (c.ss, c.ds):
            for i in range(c.sh.n):
                yield prod_bound(s[i], d[i])
            yield Implies(And(c.rx.inr(d), L_.idx() == c.J, L_.idx() == c.rx.pos(d)), off(s, d) == off(s, c.d))     # from `distinct`
        # definition of SEGOF
        for b, a, s in ((c.src_ptr, c.src_stride_ar, c.ss), (c.dst_ptr, c.dst_stride_ar, c.ds)):
            yield Implies(c.rx.inr(d), SEGOF(b, a, c.count, c.sh.n, b + off(s, d)))

    def inv(self, L_):
        c = L_.ctx
        d = self.idx_at(L_)
        n = c.sh.n
        x = L_.idx()
        sl, dl = self.sl(L_), self.dl(L_)
        yield 'digits-in-range', c.rx.inr(d, 1)
        if n > 1:
            yield 'last-carry', Implies(d[n - 1] >= c.sh.c[n - 1], And(*[d[i] == 0 for i in range(n - 1)]))
        yield 'position', x == c.rx.pos(d)
        done = x > c.J
        yield 'source-addresses', Implies(done, L_.mem('ptr', sl + 8 * c.J) == c.src_ptr + off(c.ss, c.d))
        yield 'target-addresses', Implies(done, L_.mem('ptr', dl + 8 * c.J) == c.dst_ptr + off(c.ds, c.d))
        for nm, l, b, a in (('sources', sl, c.src_ptr, c.src_stride_ar), ('targets', dl, c.dst_ptr, c.dst_stride_ar)):
            yield nm, 'ptr', lambda y, l=l, b=b, a=a: Implies(And(y >= l, y < l + 8 * x, (y - l) % 8 == 0), SEGOF(b, a, c.count, n, L_.mem('ptr', y)))


def shape_pre(c, sh):
    yield 'counts', And(sh.bytes >= 0, *[x >= 1 for x in sh.c])
    yield 'segments', And(*[x < (1 << 27) for x in sh.W[1:]])


@contract('C05')
class ToIov(Contract):
    name = 'ARMCII_Strided_to_iov'
    file = 'strided.c'
    params = 'iov src_ptr src_stride_ar dst_ptr dst_stride_ar count stride_levels'
    allocates = True
    loops = {2: IovLoop()}
    cases_total = True
    unit_opts = dict(budget=500, linear=True)
    cost = 20

    def cases(self, eng):
        return [dict(stride_levels=IntVal(i)) for i in range(MAXL + 1)]

    def levels(self, c):
        return c.stride_levels.as_long()

    def setup(self, eng, st, c):
        n = self.levels(c)
        rd = st.load
        c.sh = Shape(rd, c.count, n)
        c.ss, c.ds = strides(rd, c.src_stride_ar, n), strides(rd, c.dst_stride_ar, n)
        c.d = [fresh('digit%d' % i) for i in range(n)]
        c.rx = Radix(c.sh, 'u')
        for x in c.sh.c:
            st.assume(x >= 1)
        for f in c.rx.defs():
            st.assume(f)
        st.assume(c.rx.inr(c.d))
        c.J = c.rx.pos(c.d)
        for f in c.rx.facts(c.d):
            st.assume(f)
        if n == 0:
            for b, a in ((c.src_ptr, c.src_stride_ar), (c.dst_ptr, c.dst_stride_ar)):
                st.assume(SEGOF(b, a, c.count, 0, b))

    def requires(self, c):
        n = self.levels(c)
        sh = Shape(c.old, c.count, n)
        yield 'out', And(c.iov > 0, buf_ok(c, c.iov, SZ('armci_giov_t')))
        yield 'arrays', And(c.count > 0, buf_ok(c, c.count, 4 * (n + 1)))
        if n:
            yield 'stride-arrays', And(c.src_stride_ar > 0, c.dst_stride_ar > 0, buf_ok(c, c.src_stride_ar, 4 * n), buf_ok(c, c.dst_stride_ar, 4 * n))
        for x in shape_pre(c, sh):
            yield x
        yield 'addresses', And(c.src_ptr > 0, c.dst_ptr > 0, c.src_ptr < (1 << 62), c.dst_ptr < (1 << 62))

    def modifies(self, c):
        m = [('armci_giov_t.' + f, lambda a, o=o: a == c.iov + o) for f, o in (('src_ptr_array', 0), ('dst_ptr_array', 8), ('bytes', 16), ('ptr_array_len', 20))]
        return m + ['nlive']

    def effects(self, c):
        return []

    def ensures(self, c):
        n = self.levels(c)
        sh = Shape(c.old, c.count, n)
        f = lambda x, o: c.new('armci_giov_t.' + x, c.iov + o)
        sl, dl, N = f('src_ptr_array', 0), f('dst_ptr_array', 8), f('ptr_array_len', 20)
        yield 'segment-length', f('bytes', 16) == sh.bytes
        yield 'number-of-segments', N == sh.W[n]
        lists = And(*[And(l >= c.pre_brk, l + 8 * N <= c.post_brk, c.new('G:live', l) == 1) for l in (sl, dl)])
        yield 'own-lists', And(lists, Or(sl + 8 * N <= dl, dl + 8 * N <= sl), sl != dl)
        yield 'blocks-counted', c.g1('nlive') == c.g0('nlive') + 2
        if hasattr(c, 'caller'):
            for d in getattr(c.eng.unit_ctx, 'watch_digits', []):
                d = d[:n]
                rx = c.eng.unit_ctx.radix
                J = rx.pos(d)
                yield 'paired-by-position', Implies(rx.inr(d), And(
                    c.new('ptr', sl + 8 * J) == c.src_ptr + off(strides(c.old, c.src_stride_ar, n), d),
                    c.new('ptr', dl + 8 * J) == c.dst_ptr + off(strides(c.old, c.dst_stride_ar, n), d)))
        else:
            J = c.J
            yield 'source-of-each-tuple', c.new('ptr', sl + 8 * J) == c.src_ptr + off(c.ss, c.d)
            yield 'target-of-each-tuple', c.new('ptr', dl + 8 * J) == c.dst_ptr + off(c.ds, c.d)
        # the caller's promise about the segments described, for whichever cell is read
        pr = getattr(c.eng.unit_contract, 'promise', None) if hasattr(c, 'caller') else None
        more = (lambda side, v: pr(c.eng.unit_ctx, side, v)) if pr else (lambda side, v: TRUE)
        for nm, l, b, a in (('sources', sl, c.src_ptr, c.src_stride_ar), ('targets', dl, c.dst_ptr, c.dst_stride_ar)):
            yield nm, 'ptr', lambda y, l=l, b=b, a=a, nm=nm: Implies(And(y >= l, y < l + 8 * N, (y - l) % 8 == 0), And(SEGOF(b, a, c.count, n, c.new('ptr', y)), more(nm, c.new('ptr', y))))


# ---------------------------------------------------------------- pack and unpack
class CopyLoop(LoopSpec):
    def modifies(self, L_):
        c = L_.ctx
        return [(k, lambda a: self.con(L_).dest(c, a)) for k in sorted(DATA_KEYS)] + L_.counter_mods()

    def con(self, L_):
        return L_.eng.unit_contract

    def lemmas(self, L_):
        c = L_.ctx
        i, b, N = L_.idx(), c.sh.bytes, c.N
        for x, y in ((i, N), (i, c.J), (c.J, i), (c.J, N)):
            yield mul_lemma(x, y, b)
        yield same_prod(b, i, c.J)
        f = lambda x, o: L_.mem('armci_giov_t.' + x, L_.addr('iov') + o)
        l = f('src_ptr_array', 0) if self.con(L_).packs else f('dst_ptr_array', 8)
        v = L_.mem('ptr', l + 8 * i)
        yield Implies(SEGOF(c.user, c.arr, c.count, c.sh.n, v), self.con(L_).user_seg(c, v))
        if not self.con(L_).packs:
            yield Implies(And(c.sep, i >= 0, i < N, i != c.J), disjoint(v, b, c.user + off(c.ss, c.d), b))

    def inv(self, L_):
        c = L_.ctx
        i = L_.idx()
        con = self.con(L_)
        o, b = con.watched(c)
        yield 'counter', And(i >= 0, i <= c.N)
        yield 'copied', Implies(con.when(c, i), same_at(L_.mem, c.old, o, b, c.sh.bytes))
        if not con.packs:
            yield 'packed-data-kept', same_at(L_.mem, c.old, b, b, c.sh.bytes)
            yield 'nothing-else-touched', con.untouched(c, L_.mem)


class Pack(Contract):
    file = 'strided.c'
    cases_total = True
    loops = {0: CopyLoop()}
    unit_opts = dict(budget=400, linear=True)
    packs = True

    def cases(self, eng):
        return [dict(stride_levels=IntVal(i)) for i in range(MAXL + 1)]

    def setup(self, eng, st, c):
        n = c.stride_levels.as_long()
        rd = st.load
        c.user, c.arr, c.flat = self.sides(c)
        c.sh = Shape(rd, c.count, n)
        c.N = c.sh.W[n]
        c.ss = strides(rd, c.arr, n)
        c.d = [fresh('digit%d' % i) for i in range(n)]
        c.rx = Radix(c.sh, 'u')
        for x in c.sh.c:
            st.assume(x >= 1)
        for f in list(c.rx.defs()) + [c.rx.inr(c.d)] + c.rx.facts(c.d):
            st.assume(f)
        c.J = c.rx.pos(c.d)
        c.Z = fresh('otherbyte')     # any address outside the segments described
        st.assume(And(c.Z > 0, c.Z < Int('BRK0')))
        c.watch_digits, c.radix = [c.d], c.rx
        c.sep = z3.Bool('SEGMENTS_SEPARATE')
        st.assume(mul_lemma(c.J, c.N, c.sh.bytes))
        v = c.user + off(c.ss, c.d)
        st.assume(self.user_seg(c, v))

    def user_seg(self, c, v):
        """What the caller promises of each segment described."""
        b = c.sh.bytes
        return And(v > 0, v + b <= Int('BRK0'), disjoint(v, b, c.flat, c.N * b), disjoint(v, b, c.count, 4 * (c.sh.n + 1)), Or(c.Z < v, c.Z >= v + b))

    def dest(self, c, a):
        return And(a >= c.flat, a < c.flat + c.N * c.sh.bytes)

    def watched(self, c):
        return c.flat + c.J * c.sh.bytes, c.user + off(c.ss, c.d)

    def when(self, c, i):
        return i > c.J

    def requires(self, c):
        n = c.stride_levels.as_long()
        user, arr, flat = self.sides(c)
        sh = Shape(c.old, c.count, n)
        yield 'arrays', And(c.count > 0, buf_ok(c, c.count, 4 * (n + 1)))
        if n:
            yield 'stride-array', And(arr > 0, buf_ok(c, arr, 4 * n))
        for x in shape_pre(c, sh):
            yield x
        yield 'separate-description', disjoint(flat, sh.W[n] * sh.bytes, c.count, 4 * (n + 1))
        yield 'buffers', And(user > 0, user < (1 << 62), flat > 0, flat < (1 << 62), buf_ok(c, flat, sh.W[n] * sh.bytes))
        yield 'packed-size', And(sh.W[n] * sh.bytes < (1 << 31), sh.W[n] * sh.bytes >= 0)

    def modifies(self, c):
        return [(k, lambda a: self.dest(c, a)) for k in sorted(DATA_KEYS)]

    def effects(self, c):
        return None

    def ensures(self, c):
        o, b = self.watched(c)
        yield 'each-segment-at-its-position', Implies(self.when(c, c.N), same_at(c.new, c.old, o, b, c.sh.bytes))
        yield 'lists-released', c.g1('nlive') == c.g0('nlive')


@contract('C05')
class WriteStrided(Pack):
    name = 'armci_write_strided'
    params = 'src stride_levels src_stride_arr count dst'

    def sides(self, c):
        return c.src, c.src_stride_arr, c.dst


@contract('C05')
class ReadStrided(Pack):
    name = 'armci_read_strided'
    params = 'dst stride_levels dst_stride_arr count src'
    packs = False

    def sides(self, c):
        return c.dst, c.dst_stride_arr, c.src

    def watched(self, c):
        return c.user + off(c.ss, c.d), c.flat + c.J * c.sh.bytes

    def when(self, c, i):
        return And(c.sep, i > c.J)

    def dest(self, c, a):
        return And(a < STACK0, Or(a < c.count, a >= c.count + 4 * (c.stride_levels.as_long() + 1)))

    def untouched(self, c, rd):
        return And(*[rd(k, c.Z) == c.old(k, c.Z) for k in sorted(DATA_KEYS)])

    def ensures(self, c):
        for x in Pack.ensures(self, c):
            yield x
        yield 'nothing-else-touched', self.untouched(c, c.new)


# ---------------------------------------------------------------- front ends (translation to a vector operation)
class FrontS(Contract):
    """With strided_method IOV (the default) a strided operation is exactly one vector operation whose list is the
    tuples of the description.  The construction of derived datatypes (strided_method DIRECT) is not covered here."""
    file = 'strided.c'
    params = 'src_ptr src_stride_ar dst_ptr dst_stride_ar count stride_levels proc'
    allocates = True
    cases_total = True
    unit_opts = dict(budget=400, linear=True)
    cost = 8
    vector = None
    lists_only = True       # releases only the address lists (proved below); a pending operation refers to the segments (assumed)
    kind = 'PUT'
    nb = False

    def cases(self, eng):
        return [dict(stride_levels=IntVal(i)) for i in range(MAXL + 1)]

    def arr(self, c):
        return (c.src_stride_ar, c.dst_stride_ar)

    def local(self, c):
        return c.dst_ptr if self.kind == 'GET' else c.src_ptr

    def setup(self, eng, st, c):
        n = c.stride_levels.as_long()
        rd = st.load
        sa, da = self.arr(c)
        c.sh = Shape(rd, c.count, n)
        c.ss, c.ds = strides(rd, sa, n), strides(rd, da, n)
        c.d = [fresh('digit%d' % i) for i in range(n)]
        c.rx = Radix(c.sh, 'u')
        for x in c.sh.c:
            st.assume(x >= 1)
        for f in list(c.rx.defs()) + [c.rx.inr(c.d)] + c.rx.facts(c.d):
            st.assume(f)
        c.J = c.rx.pos(c.d)
        c.watch_digits, c.radix = [c.d], c.rx
        c.Q = fresh('watchQ')
        c.watch_q = [c.Q]
        for g in ('ND', 'NF', 'EK', 'SK'):
            st.gh[g] = IntVal(0)
        st.assume(wcomm_facts(c.proc))
        st.assume(self.promise(c, self.side(), self.local(c) + off(c.ds if self.kind == 'GET' else c.ss, c.d)))

    def side(self):
        return 'targets' if self.kind == 'GET' else 'sources'

    def promise(self, c, side, v):
        """What the caller promises of each local segment described (the remote ones may lie anywhere)."""
        b = c.sh.bytes
        f = And(v > 0, v + b <= Int('BRK0'))
        if self.nb:
            n, s, a = h_fields(c.old, c.handle)
            f = And(f, Or(c.handle == 0, And(disjoint(c.handle, SZ('armci_hdl_t'), v, b), Or(n <= 1, disjoint(a, 8 * n, v, b)))))
        return f if side == self.side() else TRUE

    def requires(self, c):
        n = c.stride_levels.as_long()
        sh = Shape(c.old, c.count, n)
        sa, da = self.arr(c)
        yield 'process id', isproc(c.proc)
        yield 'translated', cfg(c, 'strided_method') == enumv(c.eng, 'ARMCII_STRIDED_IOV')
        yield 'arrays', And(c.count > 0, buf_ok(c, c.count, 4 * (n + 1)))
        if n:
            yield 'stride-arrays', And(sa > 0, da > 0, buf_ok(c, sa, 4 * n), buf_ok(c, da, 4 * n))
        for x in shape_pre(c, sh):
            yield x
        yield 'addresses', And(c.src_ptr > 0, c.dst_ptr > 0, c.src_ptr < (1 << 62), c.dst_ptr < (1 << 62))
        if self.kind == 'ACC':
            yield 'scale', And(c.scale > 0, buf_ok(c, c.scale, 16))
            yield 'whole-elements', Implies(Or(c.datatype == acc(c, 'CPL'), c.datatype == acc(c, 'DCP')), sh.bytes % (2 * acc_unit(c, c.datatype)) == 0)
        if self.nb:
            h, s, a = h_fields(c.old, c.handle)
            yield 'handle-usable', Or(c.handle == 0, And(c.handle > 0, buf_ok(c, c.handle, SZ('armci_hdl_t')), hdl_ok(c, c.handle), h + sh.W[n] < (1 << 30),
                                                         h >= 0, Or(h <= 1, a + 8 * h <= Int('BRK0'))))

    def aborts(self, c):
        return TRUE      # whether invalid requests are refused is decided for the vector operations

    def modifies(self, c):
        j = c.g0('Ln')
        m = ['Ln', 'nlive'] + ([] if hasattr(c, 'caller') else ['ND', 'NF', 'EK', 'SK']) + [('G:L.' + f, lambda a: a >= j) for f in LOGF if f != 'done'] + [('G:L.done', None)]
        if self.kind == 'GET':
            m += [(k, None) for k in sorted(DATA_KEYS)]
        return m + (IovOp.hmods(self, c) if self.nb else [])

    def effects(self, c):
        return None

    def on_call(self, eng, st, name, args, n, c):
        a = lambda i: args[i].i()
        P = lambda f, nm: eng.prove(st, f, 'transfer:' + nm, n)
        if name == 'free':
            P(And(st.gh['ND'] == 1, Or(a(0) == st.gh['EK'], a(0) == st.gh['SK'])), 'frees-only-its-lists-and-afterwards')
            st.gh['NF'] = st.gh['NF'] + 1
        if name != self.vector:
            return
        k = 2 if self.kind == 'ACC' else 0
        iov = a(k)
        d = Desc(st.load, iov, IntVal(0))
        lv = c.stride_levels.as_long()
        st.assume(And(TOT(iov, 0) == 0, TOT(iov, 1) == If(d.some, d.N, IntVal(0))))
        P(st.gh['ND'] == 0, 'once')
        P(And(a(k + 1) == 1, a(k + 2) == c.proc), 'one-list-to-the-given-process')
        P(And(d.B == c.sh.bytes, d.N == c.sh.W[lv]), 'as-many-segments-of-the-given-length')
        P(st.load('ptr', d.S + 8 * c.J) == c.src_ptr + off(c.ss, c.d), 'source-of-each-tuple')
        P(st.load('ptr', d.D + 8 * c.J) == c.dst_ptr + off(c.ds, c.d), 'target-of-each-tuple')
        v = self.local(c) + off(c.ds if self.kind == 'GET' else c.ss, c.d)
        P(same_at(st.load, c.old, v, v, c.sh.bytes), 'local-data-as-given')
        if self.kind == 'ACC':
            P(And(a(0) == c.datatype, a(1) == c.scale), 'type-and-scale')
        if self.nb:
            P(a(k + 3) == c.handle, 'handle')
        st.gh['ND'] = st.gh['ND'] + 1
        st.gh['EK'], st.gh['SK'] = d.S, d.D

    def ensures(self, c):
        j = c.g0('Ln')
        yield 'returns-zero', c.ret == 0
        yield 'log-grows', c.g1('Ln') >= j
        if not hasattr(c, 'caller'):
            yield 'carried-out-once', c.g1('ND') == 1
        wt = guard(c) if self.nb else TRUE
        yield 'all-complete', 'G:L.done', lambda i: And(Implies(i < j, L(c.new, 'done', i) >= L(c.old, 'done', i)),
                                                        Implies(And(wt, i >= j, i < c.g1('Ln')), L(c.new, 'done', i) >= 1))
        if self.nb:
            yield 'handle-records-every-request', IovOp.h_state(self, c, c.new, c.g1('Ln') - j, c.Q, c.post_brk)
        if not hasattr(c, 'caller'):
            yield 'both-lists-released', And(c.g1('NF') == 2, c.new('G:live', c.g1('EK')) == 0, c.new('G:live', c.g1('SK')) == 0)


def _front(nm, vec, kind, nb):
    d = dict(name=nm, vector=vec, kind=kind, nb=nb, file='strided_nb.c' if nb else 'strided.c')
    p = ('datatype scale ' if kind == 'ACC' else '') + FrontS.params + (' handle' if nb else '')
    d['params'] = p
    contract('C05')(type(nm, (FrontS,), d))


for _nb in ('', 'Nb'):
    for _k, _v in (('Put', 'PUT'), ('Get', 'GET'), ('Acc', 'ACC')):
        _front('PARMCI_%s%sS' % (_nb, _k), 'PARMCI_%s%sV' % (_nb, _k), _v, bool(_nb))


@contract('C18', 'C05')
class PutSFlag(Contract):
    """The strided data first, then a fence of the target, then the flag: so the flag is set only after all of the data
    is complete at the target (the strided put goes to that process; what a fence guarantees is decided under C10)."""
    name = 'PARMCI_PutS_flag'
    file = 'strided.c'
    params = FrontS.params.replace(' proc', ' flag value proc')
    allocates = True
    cases_total = True
    unit_opts = dict(budget=300, linear=True)

    def cases(self, eng):
        return [dict(stride_levels=IntVal(i)) for i in range(MAXL + 1)]

    def front(self):
        from .reg import CONTRACTS
        return CONTRACTS['PARMCI_PutS']

    def setup(self, eng, st, c):
        st.assume(wcomm_facts(c.proc))
        st.assume(own_facts(st.load, c.flag, c.proc))
        for q in (c.proc, ME):
            st.assume(gmr_facts(st.load, OWN(c.flag, c.proc), q))
        for g in ('puts', 'fences', 'flagputs'):
            st.gh[g] = IntVal(0)

    def requires(self, c):
        for x in self.front().requires(c):
            yield x
        yield 'own-flag', Implies(And(c.proc == ME, OWN(c.flag, c.proc) != 0, in_range(c.old, OWN(c.flag, c.proc), c.proc, c.flag, 4)), And(c.flag >= 0, buf_ok(c, c.flag, 4)))

    def aborts(self, c):
        return TRUE

    def modifies(self, c):
        j = c.g0('Ln')
        return ['Ln', 'nlive', 'puts', 'fences', 'flagputs'] + [('G:L.' + f, lambda a: a >= j) for f in LOGF if f != 'done'] + [('G:L.done', None)] + \
               [(k, lambda a: And(c.proc == ME, a >= c.flag, a < c.flag + 4)) for k in sorted(DATA_KEYS)]

    def effects(self, c):
        return None

    def on_call(self, eng, st, name, args, n, c):
        a = lambda i: args[i].i()
        P = lambda f, nm: eng.prove(st, f, 'order:' + nm, n)
        if name in ('PARMCI_PutS', 'PARMCI_NbPutS'):
            P(And(a(0) == c.src_ptr, a(1) == c.src_stride_ar, a(2) == c.dst_ptr, a(3) == c.dst_stride_ar, a(4) == c.count,
                  a(5) == c.stride_levels, a(6) == c.proc), 'data-put-as-requested')
            st.gh['puts'], st.gh['fences'] = st.gh['puts'] + 1, IntVal(0)
        elif name == 'PARMCI_Fence':
            st.gh['fences'] = If(a(0) == c.proc, IntVal(1), st.gh['fences'])
        elif name == 'PARMCI_AllFence':
            st.gh['fences'] = IntVal(1)
        elif name in ('PARMCI_Put', 'PARMCI_NbPut'):
            st.assume(own_facts(st.load, a(0), ME))
            st.assume(gmr_facts(st.load, OWN(a(0), ME), ME))
            P(And(a(1) == c.flag, a(2) == 4, a(3) == c.proc), 'flag-of-the-target')
            P(st.load('i4', a(0)) == c.value, 'the-given-value')
            P(And(st.gh['puts'] == 1, st.gh['fences'] == 1), 'data-complete-at-target-before-flag')
            st.gh['flagputs'] = st.gh['flagputs'] + 1

    def ensures(self, c):
        yield 'returns-zero', c.ret == 0
        yield 'data-and-flag-once', And(c.g1('puts') == 1, c.g1('flagputs') == 1)
