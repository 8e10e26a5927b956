"""Contracts on reductions (src/message_gop.c, src/message.c)."""
import z3
from z3 import And, Or, Not, If, IntVal, Implies, Int, Function
from engine.vc import Contract, LoopSpec, fresh, TRUE, FALSE, KEYSORT, select, STACK0, F32, F64
from . import world as w
from .world import *
from .reg import contract
from .coll import data_fns, str_is, comm_self
from .c_gmr import cache_hooks, slice_hooks
from .c_groups import ev, gf, group_ok
from .c_msg import Msg, private_ok, released, one, byte

I = IntVal
# documented names -> MPI operation
OPS = [('+', 'sum'), ('*', 'prod'), ('max', 'max'), ('min', 'min'), ('or', 'bor'), ('absmax', 'ABSMAX'), ('absmin', 'ABSMIN'),
       ('land', 'land'), ('&&', 'land'), ('lor', 'lor'), ('||', 'lor'), ('band', 'band'), ('&', 'band'), ('bor', 'bor'), ('|', 'bor')]
# ARMCI type -> MPI type, cell class, size
TYPES = [('ARMCI_INT', 'int', 'i4', 4), ('ARMCI_LONG', 'long', 'i8', 8), ('ARMCI_LONG_LONG', 'long_long_int', 'i8', 8),
         ('ARMCI_FLOAT', 'float', 'f4', 4), ('ARMCI_DOUBLE', 'double', 'f8', 8)]


def user_op(rd, eng, nm):
    return rd('g:' + nm, eng.ga(nm))


def mpi_op(c, rd, x):
    if x.isupper():
        return user_op(rd, c.eng, 'ARMCI_MPI_%s_OP' % x)
    return c.eng.ga('ompi_mpi_op_' + x)


def iabs(x):
    return If(x >= 0, x, -x)


def fl(k):
    return k in ('f4', 'f8')


def is_abs(k, r, x):
    """r is the absolute value of x (not a NaN)."""
    if fl(k):
        return Implies(Not(z3.fpIsNaN(x)), z3.fpEQ(r, z3.fpAbs(x)))
    return r == iabs(x)


def is_absmm(k, r, x, y, mx):
    """r = min or max of |x|, |y|."""
    if fl(k):
        a, b = z3.fpAbs(x), z3.fpAbs(y)
        le = z3.fpLEQ(a, b)
        return Implies(And(Not(z3.fpIsNaN(x)), Not(z3.fpIsNaN(y))), z3.fpEQ(r, If(le, b, a) if mx else If(le, a, b)))
    a, b = iabs(x), iabs(y)
    return r == (If(a <= b, b, a) if mx else If(a <= b, a, b))


class AbsLoop(LoopSpec):
    def modifies(self, L_):
        con, c = L_.eng.unit_contract, L_.ctx
        return con.mods(c) + L_.counter_mods()

    def inv(self, L_):
        con, c = L_.eng.unit_contract, L_.ctx
        i = L_.idx()
        yield 'counter', And(i >= 0, i <= con.count(c))
        for x in con.clauses(c, L_.mem, i):
            yield x


class AbsOp(Contract):
    params, file = 'invec inoutvec len datatype', 'message_gop.c'
    unit_opts = dict(fp_theory=True)
    unary = False
    mx = False

    def loop(self, i):
        return AbsLoop()

    def count(self, c):
        return c.old('i4', c.len)

    def dt(self, c):
        return c.old('ptr', c.datatype)

    def tsz(self, c):
        d = self.dt(c)
        return If(Or(d == w.T(c.eng, 'int'), d == w.T(c.eng, 'float')), I(4), I(8))

    def nbytes(self, c):
        return self.count(c) * self.tsz(c)

    def mods(self, c):
        n = self.count(c)
        return [(k, lambda a, z=z: And(self.tsz(c) == z, a >= c.inoutvec, a < c.inoutvec + z * n)) for k, z in (('i4', 4), ('i8', 8), ('f4', 4), ('f8', 8))]

    def modifies(self, c):
        return self.mods(c)

    def known(self, c):
        return Or(*[self.dt(c) == w.T(c.eng, t[1]) for t in TYPES])

    def aborts(self, c):
        return Not(self.known(c))

    def requires(self, c):
        n = self.count(c)
        yield 'length', And(n >= 0, n < (1 << 29), c.len > 0, c.datatype > 0, buf_ok(c, c.len, 4), buf_ok(c, c.datatype, 8))
        z = 8 * n
        yield 'vectors', And(Implies(n > 0, And(c.invec > 0, c.inoutvec > 0)), buf_ok(c, c.invec, self.nbytes(c)), buf_ok(c, c.inoutvec, self.nbytes(c)))
        d = disjoint(c.invec, self.nbytes(c), c.inoutvec, self.nbytes(c))
        yield 'separate', Or(c.invec == c.inoutvec, d) if self.unary else d
        for k, z, lo in (('i4', 4, -(1 << 31)), ('i8', 8, -(1 << 63))):
            def f(a, k=k, z=z, lo=lo):
                inr = Or(*[And(a >= b, a < b + z * n) for b in (c.invec, c.inoutvec)])
                ty = Or(*[self.dt(c) == w.T(c.eng, t[1]) for t in TYPES if t[2] == k])
                return Implies(And(ty, inr), c.old(k, a) > lo)
            if not hasattr(c, 'caller'):
                yield 'absolute-values-representable', k, f

    def rel(self, c, k, r, x, y):
        return is_abs(k, r, x) if self.unary else is_absmm(k, r, x, y, self.mx)

    def clauses(self, c, new, i):
        for key in ('i4', 'i8', 'f4', 'f8'):
            ts = [t for t in TYPES if t[2] == key]
            z = ts[0][3]

            def f(a, key=key, ts=ts, z=z):
                o = a - c.inoutvec
                ty = Or(*[self.dt(c) == w.T(c.eng, t[1]) for t in ts])
                inr = And(o >= 0, o % z == 0, o < z * self.count(c))
                done = And(ty, o < z * i)
                return Implies(inr, If(done, self.rel(c, key, new(key, a), c.old(key, c.invec + o), c.old(key, a)), new(key, a) == c.old(key, a)))
            yield 'combined-' + key, key, f

    def ensures(self, c):
        yield 'known-type', self.known(c)
        for x in self.clauses(c, c.new, self.count(c)):
            yield x


@contract('C14')
class Absmin(AbsOp):
    name = 'ARMCII_Absmin_op'


@contract('C14')
class Absmax(AbsOp):
    name, mx = 'ARMCII_Absmax_op', True


@contract('C14')
class Absv(AbsOp):
    name, unary = 'ARMCII_Absv_op', True


# ---------------------------------------------------------------- the collective
class GopBase(Contract):
    file = 'message_gop.c'

    def grp(self, c):
        return c.group

    def scope(self, c):
        return c.scope

    def type(self, c):
        return c.type

    def comm(self, c):
        s = self.scope(c)
        wide = Or(s == I(enumv(c.eng, 'SCOPE_ALL')), s == I(enumv(c.eng, 'SCOPE_MASTERS')))
        return If(wide, gf(c.old, self.grp(c), 'comm'), comm_self(c.eng))

    def tsz(self, c):
        t = self.type(c)
        return If(Or(t == I(enumv(c.eng, 'ARMCI_INT')), t == I(enumv(c.eng, 'ARMCI_FLOAT'))), I(4), I(8))

    def known_type(self, c):
        return Or(*[self.type(c) == I(enumv(c.eng, t[0])) for t in TYPES])

    def known_op(self, c, exact=True):
        return Or(*[str_is(c.old, c.op, s, None if exact else len(s)) for s, _ in OPS])

    def aborts(self, c):
        return Not(And(self.known_type(c), self.known_op(c)))

    def requires(self, c):
        nb = c.n * self.tsz(c)
        yield 'vector', And(private_ok(c, c.x, nb), nb < (1 << 31))
        yield 'operator-name', And(c.op > 0)
        g = self.grp(c)
        if 'group' in self.params:
            yield 'group', And(g > 0, buf_ok(c, g, SZ('ARMCI_Group')), group_ok(c, c.old, g))
        yield 'library-operators-created', And(*[user_op(c.old, c.eng, 'ARMCI_MPI_%s_OP' % x) != c.eng.ga('ompi_mpi_op_' + y)
                                                 for x in ('ABSMIN', 'ABSMAX') for _, y in OPS if not y.isupper()] +
                                               [user_op(c.old, c.eng, 'ARMCI_MPI_ABSMIN_OP') != user_op(c.old, c.eng, 'ARMCI_MPI_ABSMAX_OP')])
        for k, z, lo in (('i4', 4, -(1 << 31)), ('i8', 8, -(1 << 63))):
            def f(a, k=k, z=z, lo=lo):
                ab = Or(str_is(c.old, c.op, 'absmax', 6), str_is(c.old, c.op, 'absmin', 6))
                return Implies(And(ab, a >= c.x, a < c.x + nb), c.old(k, a) > lo)
            if not hasattr(c, 'caller'):
                yield 'absolute-values-representable', k, f

    def modifies(self, c):
        nb = c.n * self.tsz(c)
        return [(k, lambda a: And(a >= c.x, a < c.x + nb)) for k in sorted(DATA_KEYS) + ['ptr']] + ['nlive']

    def effects(self, c):
        return [('gop', dict(scope=self.scope(c), x=c.x, n=c.n, op=c.op, type=self.type(c), group=self.grp(c)))]


@contract('C14', 'C09')
class Gop(GopBase, Msg):
    name, params = 'armci_msg_group_gop_scope', 'scope x n op type group'
    unit_opts = dict(merge=True)

    def setup(self, eng, st, c):
        Msg.setup(self, eng, st, c)
        st.assume(group_facts(GRPOF(gf(st.load, c.group, 'comm')), ME))
        st.assume(And(GSZ(comm_self(eng)) == 1, comm_self(eng) > 0, comm_self(eng) != w.COMM_NULL(eng)))

    def ensures(self, c):
        if hasattr(c, 'caller'):
            return
        yield 'unknown-operator-rejected', self.known_op(c, False)
        yield 'unknown-type-rejected', self.known_type(c)
        yield 'copies-handed-back', released(c)
        es = ev(c, 'allreduce')
        nb = c.n * self.tsz(c)
        ab = Or(str_is(c.old, c.op, 'absmax'), str_is(c.old, c.op, 'absmin'))
        if not es:
            # alone: the combination of one contribution is that contribution (its absolute value)
            yield 'skipped-only-when-alone', GSZ(self.comm(c)) == 1
            for at, mt, k, z in TYPES:
                o = WEL * z
                old, new = c.old(k, c.x + o), c.new(k, c.x + o)
                yield 'own-value', Implies(And(self.type(c) == I(enumv(c.eng, at)), o + z <= nb),
                                           And(Implies(ab, is_abs(k, new, old)),
                                               Implies(And(self.known_op(c), Not(ab)), new == old)))
            return
        yield 'exactly-one-reduction', z3.BoolVal(len(es) == 1)
        e = es[0]
        for s, o in OPS:
            yield 'operator-of-that-name', Implies(str_is(c.old, c.op, s), e['op'] == mpi_op(c, c.old, o))
        yield 'in-that-type', And(*[Implies(self.type(c) == I(enumv(c.eng, at)), e['type'] == w.T(c.eng, mt)) for at, mt, _, _ in TYPES])
        yield 'whole-vector', e['count'] == c.n
        yield 'over-exactly-that-scope', e['comm'] == self.comm(c)
        yield 'absolute-value-applied', Not(And(GSZ(self.comm(c)) == 1, ab))
        fns = data_fns(e['fn'])
        for at, mt, k, z in TYPES:
            o = WEL * z
            g = And(self.type(c) == I(enumv(c.eng, at)), o + z <= nb)
            yield 'contributes-the-callers-vector', Implies(g, select(e['mem'], k, e['src'] + o, c._sink) == c.old(k, c.x + o))
            yield 'result-in-the-callers-vector', Implies(g, c.new(k, c.x + o) == fns[k](o))


class Wrap(GopBase):
    def type(self, c):
        return I(enumv(c.eng, self.ty)) if hasattr(self, 'ty') else c.type

    def scope(self, c):
        return c.scope if 'scope' in self.params else I(enumv(c.eng, 'SCOPE_ALL'))

    def grp(self, c):
        return c.group if 'group' in self.params else c.glob('ARMCI_GROUP_WORLD')

    def ensures(self, c):
        if hasattr(c, 'caller'):
            return
        e = one(c, 'gop')
        if e is None:
            yield 'exactly-one-reduction', FALSE
            return
        yield 'that-reduction', And(e['x'] == c.x, e['n'] == c.n, e['op'] == c.op, e['type'] == self.type(c),
                                    e['scope'] == self.scope(c), e['group'] == self.grp(c))


for _p, _t in (('i', 'INT'), ('l', 'LONG'), ('ll', 'LONG_LONG'), ('f', 'FLOAT'), ('d', 'DOUBLE')):
    contract('C14')(type('GG' + _p, (Wrap,), dict(name='armci_msg_group_%sgop' % _p, params='x n op group', ty='ARMCI_' + _t)))
    contract('C14')(type('G' + _p, (Wrap,), dict(name='armci_msg_%sgop' % _p, params='x n op', ty='ARMCI_' + _t)))
contract('C14')(type('GopScope', (Wrap,), dict(name='armci_msg_gop_scope', params='scope x n op type')))


# ---------------------------------------------------------------- index selection
SD = 'sel_data_t'


def sel_keys():
    return [rec(SD) + '.contribute', rec(SD) + '.type']


def sd(rd, f, a):
    return fld(rd, SD + '.' + f, a)


class SelOp(Contract):
    """in contributes and inout does not, or both do and in's value is strictly better: inout
    becomes in; otherwise inout stays."""
    params, file = 'data_in data_inout len datatype', 'message.c'
    unit_opts = dict(raw_keys=sel_keys, fp_theory=True)

    def requires(self, c):
        n = c.old('i4', c.len)
        o = off(SD + '.data')
        yield 'packets', And(c.len > 0, n >= o, *[Implies(sd(c.old, 'type', c.data_in) == I(enumv(c.eng, t[0])), n >= o + t[3]) for t in TYPES], c.data_in > 0, c.data_inout > 0, buf_ok(c, c.data_in, n), buf_ok(c, c.data_inout, n), buf_ok(c, c.len, 4))
        yield 'separate', And(disjoint(c.data_in, n, c.data_inout, n), disjoint(c.len, 4, c.data_inout, n))
        yield 'same-type', sd(c.old, 'type', c.data_in) == sd(c.old, 'type', c.data_inout)

    def both(self, c):
        return And(sd(c.old, 'contribute', c.data_in) != 0, sd(c.old, 'contribute', c.data_inout) != 0)

    def known(self, c):
        return Or(*[sd(c.old, 'type', c.data_in) == I(enumv(c.eng, t[0])) for t in TYPES])

    def aborts(self, c):
        return And(self.both(c), Not(self.known(c)))

    def modifies(self, c):
        n = c.old('i4', c.len)
        return [(k, lambda a: And(a >= c.data_inout, a < c.data_inout + n)) for k in sorted(DATA_KEYS) + sel_keys()]

    def ensures(self, c):
        o = off(SD + '.data')
        x, y, n = c.data_in, c.data_inout, c.old('i4', c.len)
        cx, cy = sd(c.old, 'contribute', x) != 0, sd(c.old, 'contribute', y) != 0
        both = And(cx, cy)
        yield 'unknown-type-rejected', Implies(both, self.known(c))
        better = FALSE
        for at, _, k, z in TYPES:
            a, b = c.old(k, x + o), c.old(k, y + o)
            lt = (z3.fpLT if fl(k) else (lambda p, q: p < q))
            better = Or(better, And(sd(c.old, 'type', x) == I(enumv(c.eng, at)), lt(a, b) if not self.mx else lt(b, a)))
        take = Or(And(cx, Not(cy)), And(both, better))
        for f in ('contribute', 'type'):
            yield 'flag-of-the-winner', sd(c.new, f, y) == If(take, sd(c.old, f, x), sd(c.old, f, y))
        yield 'whole-packet-of-the-winner', Implies(WOFF < n, c.new('i1', y + WOFF) == If(take, c.old('i1', x + WOFF), c.old('i1', y + WOFF)))


@contract('C14')
class SelMin(SelOp):
    name, mx = 'ARMCII_Msg_sel_min_op', False


@contract('C14')
class SelMax(SelOp):
    name, mx = 'ARMCII_Msg_sel_max_op', True


class SelBase(Contract):
    file = 'message.c'

    def scope(self, c):
        return c.scope if 'scope' in self.params else I(enumv(c.eng, 'SCOPE_ALL'))

    def comm(self, c):
        s = self.scope(c)
        return If(Or(s == I(enumv(c.eng, 'SCOPE_ALL')), s == I(enumv(c.eng, 'SCOPE_MASTERS'))), WCOMM, comm_self(c.eng))

    def known_op(self, c, exact=True):
        return Or(*[str_is(c.old, c.op, s, None if exact else 3) for s in ('min', 'max')])

    def requires(self, c):
        yield 'vector', And(private_ok(c, c.x, c.n), c.n < (1 << 30))
        yield 'operator-name', c.op > 0

    def aborts(self, c):
        return Not(self.known_op(c))

    def modifies(self, c):
        return [(k, lambda a: And(a >= c.x, a < c.x + c.n)) for k in sorted(DATA_KEYS) + ['ptr']] + ['nlive']

    def effects(self, c):
        return [('sel', dict(scope=self.scope(c), x=c.x, n=c.n, op=c.op, type=c.type, contribute=c.contribute))]


@contract('C14', 'C09')
class SelScope(SelBase, Msg):
    name, params = 'armci_msg_sel_scope', 'scope x n op type contribute'

    def setup(self, eng, st, c):
        Msg.setup(self, eng, st, c)
        st.assume(And(GSZ(comm_self(eng)) == 1, comm_self(eng) > 0, comm_self(eng) != w.COMM_NULL(eng)))

    def ensures(self, c):
        if hasattr(c, 'caller'):
            return
        es = ev(c, 'allreduce')
        yield 'unknown-operator-rejected', self.known_op(c, False)
        yield 'exactly-one-reduction', z3.BoolVal(len(es) == 1)
        yield 'copies-handed-back', released(c)
        if len(es) != 1:
            return
        e = es[0]
        o = off(SD + '.data')
        rd = lambda k, a: select(e['mem'], k, a, c._sink)
        for s, g in (('min', 'ARMCI_MPI_SELMIN_OP'), ('max', 'ARMCI_MPI_SELMAX_OP')):
            yield 'operator-of-that-name', Implies(str_is(c.old, c.op, s), e['op'] == user_op(c.old, c.eng, g))
        yield 'over-exactly-that-scope', e['comm'] == self.comm(c)
        yield 'whole-packet', e['size'] >= o + c.n
        yield 'contribution-and-type', And((sd(rd, 'contribute', e['src']) != 0) == (c.contribute != 0), sd(rd, 'type', e['src']) == c.type)
        yield 'contributes-the-callers-value', Implies(And(c.contribute != 0, WOFF < c.n), rd('i1', e['src'] + o + WOFF) == c.old('i1', c.x + WOFF))
        yield 'result-in-the-callers-vector', Implies(WOFF < c.n, c.new('i1', c.x + WOFF) == data_fns(e['fn'])['i1'](o + WOFF))


@contract('C14')
class Sel(SelBase):
    name, params = 'armci_msg_sel', 'x n op type contribute'

    def ensures(self, c):
        if hasattr(c, 'caller'):
            return
        e = one(c, 'sel')
        if e is None:
            yield 'exactly-one-reduction', FALSE
            return
        yield 'that-reduction', And(*[e[k] == getattr(c, k) for k in ('x', 'n', 'op', 'type', 'contribute')])
        yield 'whole-scope', Or(e['scope'] == I(enumv(c.eng, 'SCOPE_ALL')), e['scope'] == I(enumv(c.eng, 'SCOPE_MASTERS')))
