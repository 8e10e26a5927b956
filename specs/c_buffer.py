"""Contracts on the scaling and buffer-guarding code (src/buffer.c, src/internals.c)."""
import z3
from z3 import And, Or, Not, If, IntVal, Implies, Int
from engine.vc import Contract, LoopSpec, fresh, TRUE, FALSE, F32, F64
from . import world as w
from .world import *
from .reg import contract

ACCT = ['INT', 'LNG', 'FLT', 'DBL', 'CPL', 'DCP']
ACC_KEY = {'INT': ('i4', 4), 'LNG': ('i8', 8), 'FLT': ('f4', 4), 'DBL': ('f8', 8), 'CPL': ('f4', 4), 'DCP': ('f8', 8)}
ACC_MPI = {'INT': 'int', 'LNG': 'long', 'FLT': 'float', 'DBL': 'double', 'CPL': 'float', 'DCP': 'double'}
EPS = {'f4': (F32, 1.1920928955078125e-07), 'f8': (F64, 2.220446049250313e-16)}
WKEY = {'i4': 'wi', 'i8': 'wl', 'f4': 'wf', 'f8': 'wd'}


def acc(c, t):
    return IntVal(enumv(c.eng, 'ARMCI_ACC_' + t))


def acc_valid(c, dt):
    return Or(*[dt == acc(c, t) for t in ACCT])


def acc_unit(c, dt):
    """Size of the elementary type (the real type for complex)."""
    e = IntVal(8)
    for t in ACCT:
        if ACC_KEY[t][1] == 4:
            e = If(dt == acc(c, t), IntVal(4), e)
    return e


def acc_mpi(c, dt):
    e = T(c.eng, 'double')
    for t in ACCT[:-1]:
        e = If(dt == acc(c, t), T(c.eng, ACC_MPI[t]), e)
    return e


def near(c, key, x, one):
    so, eps = EPS[key]
    return z3.fpLT(z3.fpAbs(c.eng.fpop('-', x, z3.FPVal(one, so))), z3.FPVal(eps, so))


def identity_scale(c, rd, dt, scale):
    """The scale is one, to within the precision of its type."""
    out = []
    for t in ACCT:
        k, sz = ACC_KEY[t]
        v = rd(k, scale)
        if t in ('INT', 'LNG'):
            x = v == 1
        elif t in ('FLT', 'DBL'):
            x = near(c, k, v, 1.0)
        else:
            x = And(near(c, k, v, 1.0), near(c, k, rd(k, scale + sz), 0.0))
        out.append(Implies(dt == acc(c, t), x))
    return And(*out)


def product(c, rd, t, scale, src, o, rscale=None):
    """scale * element at byte offset o of src, for acc type t (o: multiple of the unit)."""
    k, sz = ACC_KEY[t]
    rs = rscale or rd
    a = src + o
    if t in ('INT', 'LNG'):
        return rd(k, a) * rs(k, scale)
    F = c.eng.fpop
    fmul, fadd, fsub = (lambda x, y: F('*', x, y)), (lambda x, y: F('+', x, y)), (lambda x, y: F('-', x, y))
    if t in ('FLT', 'DBL'):
        return fmul(rd(k, a), rs(k, scale))
    sr, si = rs(k, scale), rs(k, scale + sz)
    re = fsub(fmul(rd(k, a), sr), fmul(rd(k, a + sz), si))
    im = fadd(fmul(rd(k, a), sr), fmul(rd(k, a - sz), si))
    return If(o % (2 * sz) == 0, re, im)


def eqv(x, y):
    return x == y


@contract('C04')
class AccType(Contract):
    name = 'ARMCII_Acc_type_translate'
    params = 'armci_datatype mpi_type type_size'
    file = 'internals.c'
    inline = True

    def requires(self, c):
        yield 'outputs', And(c.mpi_type > 0, c.type_size > 0, disjoint(c.mpi_type, 8, c.type_size, 4))

    def aborts(self, c):
        return Not(acc_valid(c, c.armci_datatype))

    def modifies(self, c):
        return [('ptr', lambda a: a == c.mpi_type), ('i4', lambda a: a == c.type_size)]

    def ensures(self, c):
        yield 'known-type', acc_valid(c, c.armci_datatype)
        yield 'mpi-type', c.new('ptr', c.mpi_type) == acc_mpi(c, c.armci_datatype)
        yield 'type-size', c.new('i4', c.type_size) == acc_unit(c, c.armci_datatype)


@contract('C04')
class IsScaled(Contract):
    unit_opts = dict(fp_theory=True)
    name = 'ARMCII_Buf_acc_is_scaled'
    params = 'datatype scale'
    file = 'buffer.c'

    def requires(self, c):
        yield 'scale-given', c.scale != 0

    def aborts(self, c):
        return Not(acc_valid(c, c.datatype))

    def ensures(self, c):
        yield 'boolean', Or(c.ret == 0, c.ret == 1)
        yield 'known-type', acc_valid(c, c.datatype)
        yield 'skipped-exactly-for-identity', (c.ret == 0) == identity_scale(c, c.old, c.datatype, c.scale)


def scaled_at(c, new, old, dst, src, n):
    """dst holds scale * src at the watched element."""
    out = []
    for t in ACCT:
        k, sz = ACC_KEY[t]
        o = WEL * sz
        out.append(Implies(And(c.datatype == acc(c, t), WEL >= 0, o + sz <= n), new(k, dst + o) == product(c, old, t, c.scale, src, o)))
    return And(*out)


class ScaleLoop(LoopSpec):
    """Elements before the counter hold the product; the rest is not written yet."""

    def inv(self, L):
        c = L.ctx
        j = L.idx()
        yield 'counter', j >= 0
        yield 'pairs', Implies(Or(c.datatype == acc(c, 'CPL'), c.datatype == acc(c, 'DCP')), j % 2 == 0)
        for x in scaled_clauses(c, L.mem, L.emem, j):
            yield x

    def modifies(self, L):
        c = L.ctx
        return data_mods(c.buf_out, c.size)


def scaled_clauses(c, new, old, j, whole=False):
    """Elements with index < j of buf_out are scale * buf_in."""
    for key in ('i4', 'i8', 'f4', 'f8'):
        ts = [t for t in ACCT if ACC_KEY[t][0] == key]
        sz = ACC_KEY[ts[0]][1]

        def f(a, key=key, ts=ts, sz=sz):
            o = a - c.buf_out
            g = And(o >= 0, o % sz == 0, o < sz * j if not whole else o + sz <= c.size)
            return And(*[Implies(And(c.datatype == acc(c, t), g), new(key, a) == product(c, old, t, c.scale, c.buf_in, o)) for t in ts])
        yield 'product-' + key, key, f


@contract('C04', 'C09')
class AccScale(Contract):
    name = 'ARMCII_Buf_acc_scale'
    params = 'buf_in buf_out size datatype scale'
    file = 'buffer.c'
    unit_opts = dict(overflow=False)

    def loop(self, i):
        return ScaleLoop()

    def requires(self, c):
        yield 'buffers', And(Implies(c.size > 0, And(c.buf_in > 0, c.buf_out > 0)), c.scale > 0, c.size >= 0)
        yield 'memory', And(buf_ok(c, c.buf_out, c.size), buf_ok(c, c.buf_in, c.size), buf_ok(c, c.scale, 16))
        yield 'separate', disjoint(c.buf_in, c.size, c.buf_out, c.size)
        yield 'scale-separate', disjoint(c.scale, 16, c.buf_out, c.size)
        yield 'type-or-abort', Or(acc_valid(c, c.datatype), c.size >= 0)
        yield 'whole-elements', self.whole(c)

    def whole(self, c):
        """Complex data comes in (re, im) pairs."""
        return Implies(Or(c.datatype == acc(c, 'CPL'), c.datatype == acc(c, 'DCP')), c.size % (2 * acc_unit(c, c.datatype)) == 0)

    def aborts(self, c):
        return Or(Not(acc_valid(c, c.datatype)), c.size % acc_unit(c, c.datatype) != 0)

    def modifies(self, c):
        return data_mods(c.buf_out, c.size)

    def ensures(self, c):
        yield 'known-type', acc_valid(c, c.datatype)
        yield 'whole', c.size % acc_unit(c, c.datatype) == 0
        for x in scaled_clauses(c, c.new, c.old, None, whole=True):
            yield x
        # the same, spelled out for the watched element
        yield 'watched-product', scaled_at(c, c.new, c.old, c.buf_out, c.buf_in, c.size)
