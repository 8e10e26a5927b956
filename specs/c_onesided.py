"""Contracts on contiguous one-sided transfers (src/onesided.c, src/onesided_nb.c, src/rmw.c)."""
import z3
from z3 import And, Or, Not, If, IntVal, Implies, Int
from engine.vc import Contract, LoopSpec, fresh, TRUE, FALSE, DATA_KEYS
from . import world as w
from .world import *
from .reg import contract
from .c_gmr import hreq, hmods, hens, hdl_disjoint, hdl_ok
from .c_buffer import (acc_valid, acc_unit, acc_mpi, identity_scale, product, ACCT, ACC_KEY, WKEY, acc)

NOGUARD = lambda c: IntVal(enumv(c.eng, 'ARMCII_SHR_BUF_NOGUARD'))


def owner(c, ptr, proc):
    return OWN(ptr, proc)


def private(c, buf):
    """The library treats the local buffer as private."""
    return Or(cfg(c, 'shr_buf_method') == NOGUARD(c), OWN(buf, ME) == 0)


class Xfer(Contract):
    """One contiguous transfer between [org, org+n) here and [tgt, tgt+n) on proc."""
    unit_opts = dict(abort_clean=True)
    kind = None
    blocking = True
    allocates = True

    def x(self, c):
        """(local, remote, n, proc)"""

    def setup(self, eng, st, c):
        lo, rem, n, proc = self.x(c)
        c.W = None
        st.assume(wcomm_facts(proc))
        st.assume(own_facts(st.load, rem, proc))
        st.assume(own_facts(st.load, lo, ME))
        for m in (OWN(rem, proc), OWN(lo, ME)):
            for p in (proc, ME):
                st.assume(gmr_facts(st.load, m, p))

    def local(self, c):
        lo, rem, n, proc = self.x(c)
        return And(proc == ME, private(c, lo))

    def requires(self, c):
        lo, rem, n, proc = self.x(c)
        yield 'process id', isproc(proc)
        yield 'size', n >= 0
        yield 'local-buffer', And(lo > 0, buf_ok(c, lo, n))
        yield 'own-memory', Implies(And(proc == ME, OWN(rem, proc) != 0, in_range(c.old, OWN(rem, proc), proc, rem, n)), And(rem >= 0, buf_ok(c, rem, n)))
        for x in hreq(c):
            yield x
        if hasattr(c, 'handle'):
            yield 'handle-not-in-buffer', hdl_disjoint(c, c.handle, lo, n)
            yield 'handle-not-in-own-target', Implies(proc == ME, hdl_disjoint(c, c.handle, rem, n))

    def reject(self, c):
        lo, rem, n, proc = self.x(c)
        o = OWN(rem, proc)
        return Or(o == 0, Not(in_range(c.old, o, proc, rem, n)))

    def aborts(self, c):
        return self.reject(c)

    def modifies(self, c):
        lo, rem, n, proc = self.x(c)
        j = c.g0('Ln')
        loc = self.local(c)
        m = ['Ln'] + log_modifies(j, j + 1, skip=('done',))
        m.append(('G:L.done', None))
        for k in sorted(DATA_KEYS):
            if self.kind == GET:
                m.append((k, lambda a: And(a >= lo, a < lo + n)))
            elif self.kind == PUT:
                m.append((k, lambda a: And(loc, a >= rem, a < rem + n)))
        return m + hmods(c)

    def effects(self, c):
        return None

    def ensures(self, c):
        lo, rem, n, proc = self.x(c)
        rd, j = c.old, c.g0('Ln')
        o = OWN(rem, proc)
        loc = self.local(c)
        R = lambda f: Implies(Not(loc), f)
        yield 'returns-zero', c.ret == 0
        yield 'addressed-allocation-exists', o != 0
        yield 'inside-target-memory', in_range(rd, o, proc, rem, n)
        yield 'exactly-one-operation', R(c.g1('Ln') == j + 1)
        yield 'nothing-issued-for-own-memory', Implies(loc, c.g1('Ln') == j)
        yield 'operation-kind', R(L(c.new, 'kind', j) == self.kind)
        yield 'window', R(L(c.new, 'win', j) == gwin(rd, o))
        yield 'target-rank', R(L(c.new, 'rank', j) == GR(gcomm(rd, o), proc))
        yield 'target-address', R(L(c.new, 'disp', j) == rem - sbase(rd, o, proc))
        for x in self.extent(c, j, R):
            yield x
        if self.blocking:
            yield 'locally-complete-on-return', R(L(c.new, 'done', j) >= 1)
        if not hasattr(c, 'handle'):
            yield 'temporaries-released', c.g1('nlive') == c.g0('nlive')
        mono = lambda i: Implies(i < j, L(c.new, 'done', i) >= L(c.old, 'done', i))
        yield 'earlier-operations-keep-progress', 'G:L.done', mono
        for x in self.data(c, j, loc):
            yield x
        if hasattr(c, 'handle'):
            yield 'handle-unused-for-own-memory', Implies(loc, self.h_same(c))
            for x in hens(c, j):
                if len(x) == 2:
                    yield x[0], R(x[1])
                else:
                    yield x[0], x[1], (lambda a, f=x[2]: R(f(a)))

    def h_same(self, c):
        from .c_gmr import h_fields
        return And(*[a == b for a, b in zip(h_fields(c.old, c.handle), h_fields(c.new, c.handle))])

    def extent(self, c, j, R):
        lo, rem, n, proc = self.x(c)
        b = T(c.eng, 'byte')
        yield 'length', R(And(L(c.new, 'tc', j) * TEXT(L(c.new, 'tt', j)) == n,
                              L(c.new, 'oc', j) * TEXT(L(c.new, 'ot', j)) == n))
        yield 'byte-data', R(And(L(c.new, 'tt', j) == b, L(c.new, 'ot', j) == b))

    def data(self, c, j, loc):
        lo, rem, n, proc = self.x(c)
        if self.kind == PUT:
            for f in WATCH:
                k, a = watch_addr(f, lo)
                yield 'data-' + f, Implies(And(Not(loc), watched_inside(f, n)), L(c.new, f, j) == c.old(k, a))
            for k in sorted(DATA_KEYS):
                yield 'copied-' + k, k, (lambda a, k=k: Implies(And(loc, a >= rem, a < rem + n), c.new(k, a) == c.old(k, lo + (a - rem))))
        if self.kind == GET:
            for k in sorted(DATA_KEYS):
                def f(a, k=k):
                    src = If(loc, c.old(k, rem + (a - lo)), RB[k](j, a - lo))
                    return Implies(And(a >= lo, a < lo + n, self.delivered(c)), c.new(k, a) == src)
                yield 'fetched-' + k, k, f

    def delivered(self, c):
        return TRUE


@contract('C03', 'C02', 'C09')
class Put(Xfer):
    name, params, file, kind = 'PARMCI_Put', 'src dst size target', 'onesided.c', PUT

    def x(self, c):
        return c.src, c.dst, c.size, c.target


@contract('C03', 'C02', 'C09')
class Get(Xfer):
    name, params, file, kind = 'PARMCI_Get', 'src dst size target', 'onesided.c', GET

    def x(self, c):
        return c.dst, c.src, c.size, c.target


class AccX(Xfer):
    kind = ACC

    def local(self, c):
        return FALSE

    def setup(self, eng, st, c):
        Xfer.setup(self, eng, st, c)

    def requires(self, c):
        for x in Xfer.requires(self, c):
            yield x
        yield 'scale-given', And(c.scale > 0, buf_ok(c, c.scale, 16))
        cp = Or(c.datatype == acc(c, 'CPL'), c.datatype == acc(c, 'DCP'))
        yield 'whole-complex-elements', Implies(cp, c.bytes % (2 * acc_unit(c, c.datatype)) == 0)

    def aborts(self, c):
        return Or(self.reject(c), Not(acc_valid(c, c.datatype)), c.bytes % acc_unit(c, c.datatype) != 0)

    def extent(self, c, j, R):
        ty = acc_mpi(c, c.datatype)
        yield 'element-type', And(L(c.new, 'tt', j) == ty, L(c.new, 'ot', j) == ty)
        yield 'element-count', And(L(c.new, 'tc', j) * acc_unit(c, c.datatype) == c.bytes, L(c.new, 'oc', j) == L(c.new, 'tc', j))
        yield 'combines-by-sum', L(c.new, 'op', j) == c.glob('ompi_mpi_op_sum')

    def data(self, c, j, loc):
        lo, rem, n, proc = self.x(c)
        ident = identity_scale(c, c.old, c.datatype, c.scale)
        for t in ACCT:
            k, sz = ACC_KEY[t]
            f = WKEY[k]
            o = WEL * sz
            v = If(ident, c.old(k, lo + o), product(c, c.old, t, c.scale, lo, o))
            yield 'contributes-scaled-%s' % t, Implies(And(c.datatype == acc(c, t), o + sz <= n), L(c.new, f, j) == v)


@contract('C03', 'C02', 'C04', 'C09')
class Acc(AccX):
    name, params, file = 'PARMCI_Acc', 'datatype scale src dst bytes proc', 'onesided.c'

    def x(self, c):
        return c.src, c.dst, c.bytes, c.proc


class Nb(object):
    blocking = False


@contract('C03', 'C02', 'C08', 'C09')
class NbPut(Nb, Xfer):
    name, params, file, kind = 'PARMCI_NbPut', 'src dst size target handle', 'onesided_nb.c', PUT

    def x(self, c):
        return c.src, c.dst, c.size, c.target


@contract('C03', 'C02', 'C08', 'C09')
class NbGet(Nb, Xfer):
    name, params, file, kind = 'PARMCI_NbGet', 'src dst size target handle', 'onesided_nb.c', GET

    def x(self, c):
        return c.dst, c.src, c.size, c.target


@contract('C03', 'C02', 'C04', 'C08', 'C09')
class NbAcc(Nb, AccX):
    name, params, file = 'PARMCI_NbAcc', 'datatype scale src dst bytes target handle', 'onesided_nb.c'

    def x(self, c):
        return c.src, c.dst, c.bytes, c.target


# ------------------------------------------------------------------ atomics
@contract('C11', 'C02')
class Rmw(Contract):
    name, params, file = 'PARMCI_Rmw', 'op ploc prem value proc', 'rmw.c'
    unit_opts = dict(abort_clean=True)

    def en(self, c, n):
        return IntVal(enumv(c.eng, n))

    def is_long(self, c):
        return Or(c.op == self.en(c, 'ARMCI_SWAP_LONG'), c.op == self.en(c, 'ARMCI_FETCH_AND_ADD_LONG'))

    def is_swap(self, c):
        return Or(c.op == self.en(c, 'ARMCI_SWAP_LONG'), c.op == self.en(c, 'ARMCI_SWAP'))

    def known(self, c):
        return Or(self.is_long(c), self.is_swap(c), c.op == self.en(c, 'ARMCI_FETCH_AND_ADD'))

    def width(self, c):
        return If(self.is_long(c), IntVal(8), IntVal(4))

    def setup(self, eng, st, c):
        st.assume(wcomm_facts(c.proc))
        st.assume(own_facts(st.load, c.prem, c.proc))
        for p in (c.proc, ME):
            st.assume(gmr_facts(st.load, OWN(c.prem, c.proc), p))

    def requires(self, c):
        yield 'process id', isproc(c.proc)
        yield 'local-location', And(c.ploc > 0, buf_ok(c, c.ploc, 8))

    def aborts(self, c):
        o = OWN(c.prem, c.proc)
        return Or(o == 0, Not(self.known(c)), Not(in_range(c.old, o, c.proc, c.prem, self.width(c))))

    def modifies(self, c):
        j = c.g0('Ln')
        return ['Ln'] + log_modifies(j, j + 1, skip=('done',)) + [('G:L.done', None)] + data_mods(c.ploc, self.width(c))

    def effects(self, c):
        return None

    def ensures(self, c):
        j, rd, o = c.g0('Ln'), c.old, OWN(c.prem, c.proc)
        lg, sw = self.is_long(c), self.is_swap(c)
        ty = If(lg, T(c.eng, 'long'), T(c.eng, 'int'))
        yield 'returns-zero', c.ret == 0
        yield 'known-operation', self.known(c)
        yield 'one-atomic-operation', And(c.g1('Ln') == j + 1, L(c.new, 'kind', j) == GETACC)
        yield 'width', And(L(c.new, 'tt', j) == ty, L(c.new, 'ot', j) == ty, L(c.new, 'tc', j) == 1, L(c.new, 'oc', j) == 1)
        yield 'operation', L(c.new, 'op', j) == If(sw, c.glob('ompi_mpi_op_replace'), c.glob('ompi_mpi_op_sum'))
        yield 'location', And(L(c.new, 'win', j) == gwin(rd, o), L(c.new, 'rank', j) == GR(gcomm(rd, o), c.proc),
                              L(c.new, 'disp', j) == c.prem - sbase(rd, o, c.proc))
        yield 'inside-target-memory', in_range(rd, o, c.proc, c.prem, self.width(c))
        first = WEL == 0
        yield 'operand-int', Implies(And(Not(lg), first), L(c.new, 'wi', j) == If(sw, rd('i4', c.ploc), c.value))
        yield 'operand-long', Implies(And(lg, first), L(c.new, 'wl', j) == If(sw, rd('i8', c.ploc), c.value))
        yield 'complete-on-return', L(c.new, 'done', j) >= 1
        yield 'old-value-int', Implies(Not(lg), c.new('i4', c.ploc) == RB['i4'](j, 0))
        yield 'old-value-long', Implies(lg, c.new('i8', c.ploc) == RB['i8'](j, 0))
        yield 'earlier-operations-keep-progress', 'G:L.done', lambda i: Implies(i < j, L(c.new, 'done', i) >= L(c.old, 'done', i))
