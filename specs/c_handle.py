"""Contracts on nonblocking handles (src/onesided_nb.c) and single values (src/value_ops.c)."""
import z3
from z3 import And, Or, Not, If, IntVal, Implies, Int, Function
from engine.vc import Contract, LoopSpec, fresh, TRUE, FALSE
from . import world as w
from .world import *
from .reg import contract
from .c_gmr import h_fields, hdl_ok, hreq

HPOS = Function('HPOS', ISORT, ISORT)       # slot of log entry j's request on the handle (witness)


def on_handle(rd, h, j):
    """Log entry j's request is on handle h."""
    n, s, a = h_fields(rd, h)
    k = HPOS(j)
    rq = REQ(j)
    return And(L(rd, 'req', j) == rq, RJ(rq) == j, rq > 0, n >= 1, k >= 0, k < n,
               If(n == 1, s == rq, rd('ptr', a + 8 * k) == rq))


class HandleFn(Contract):
    file = 'onesided_nb.c'

    def requires(self, c):
        yield 'handle-given', c.handle > 0
        yield 'handle-usable', hdl_ok(c, c.handle)

    def modifies(self, c):
        n, s, a = h_fields(c.old, c.handle)
        r = w.rec('armci_hdl_t')
        o = []
        for f in ('batch_size', 'single_request', 'request_array'):
            x = c.handle + off('armci_hdl_t.' + f)
            o.append((r + '.' + f, lambda y, x=x: y == x))
        o.append(('G:L.done', None))
        o.append(('G:live', lambda y: And(n > 1, y == a)))
        o.append(('ptr', lambda y: And(n > 1, y >= a, y < a + 8 * n)))
        return o + ['nlive']

    def effects(self, c):
        return None

    def fin(self, c):
        return TRUE

    def ensures(self, c):
        h = c.handle
        n, s, a = h_fields(c.old, h)
        n1, s1, a1 = h_fields(c.new, h)
        fin = self.fin(c)

        def done(j):
            d0, d1 = L(c.old, 'done', j), L(c.new, 'done', j)
            return And(d1 >= d0, Implies(And(fin, on_handle(c.old, h, j)), d1 >= 1))
        yield 'everything-on-the-handle-complete', 'G:L.done', done
        null = REQUEST_NULL(c.eng)
        yield 'handle-empty-again', Implies(fin, And(n1 == 0, s1 == null))
        yield 'request-list-released-once', Implies(And(fin, n > 1), c.new('G:live', a) == 0)
        yield 'nothing-else-released', c.g1('nlive') == c.g0('nlive') - If(And(fin, n > 1), IntVal(1), IntVal(0))
        yield 'kept-while-pending', Implies(Not(fin), And(n1 == n, s1 == s, a1 == a))
        yield ('requests-kept-while-pending', 'ptr', lambda y: Implies(And(Not(fin), n > 1, y >= a, y < a + 8 * n), c.new('ptr', y) == c.old('ptr', y)))


@contract('C08')
class Wait(HandleFn):
    name, params = 'PARMCI_Wait', 'handle'

    def ensures(self, c):
        yield 'returns-zero', c.ret == 0
        for x in HandleFn.ensures(self, c):
            yield x


@contract('C08')
class Test(HandleFn):
    name, params = 'PARMCI_Test', 'handle'

    def fin(self, c):
        return c.ret == 0

    def ensures(self, c):
        n, s, a = h_fields(c.old, c.handle)
        yield 'inactive-handle-is-complete', Implies(n == 0, c.ret == 0)
        for x in HandleFn.ensures(self, c):
            yield x
        if not hasattr(c, 'caller'):
            # reports completion exactly when the MPI library does
            fl = [kw['flag'] for nm, kw in (c.events or ()) if nm in ('test', 'testall')]
            if fl:
                yield 'incomplete-only-if-mpi-says-so', Implies(c.ret != 0, fl[-1] == 0)
            else:
                yield 'incomplete-only-if-mpi-says-so', c.ret == 0


class InitLike(Contract):
    file = 'onesided_nb.c'

    def requires(self, c):
        yield 'handle-given', c.handle > 0

    def modifies(self, c):
        r = w.rec('armci_hdl_t')
        o = []
        for f in ('batch_size', 'single_request', 'request_array'):
            x = c.handle + off('armci_hdl_t.' + f)
            o.append((r + '.' + f, lambda y, x=x: y == x))
        return o

    def ensures(self, c):
        n1, s1, a1 = h_fields(c.new, c.handle)
        yield 'handle-empty', And(n1 == 0, s1 == REQUEST_NULL(c.eng), a1 == 0)


@contract('C08')
class InitHandle(InitLike):
    name, params = 'ARMCI_INIT_HANDLE', 'handle'


@contract('C08')
class SetAgg(InitLike):
    name, params = 'ARMCI_SET_AGGREGATE_HANDLE', 'handle'


@contract('C08')
class UnsetAgg(Contract):
    name, params, file = 'ARMCI_UNSET_AGGREGATE_HANDLE', 'handle', 'onesided_nb.c'

    def requires(self, c):
        yield 'handle-given', c.handle > 0

    def modifies(self, c):
        return []            # pending operations stay on the handle


# ------------------------------------------------------------ single values
VT = {"Int": ("i4", 4, "wi"), "Long": ("i8", 8, "wl"), "Float": ("f4", 4, "wf"), "Double": ("f8", 8, "wd")}


class ValBase(Contract):
    file = 'value_ops.c'
    ty = None
    unit_opts = dict(abort_clean=True)

    def rem(self, c):
        return c.dst

    def setup(self, eng, st, c):
        st.assume(wcomm_facts(c.proc))
        st.assume(own_facts(st.load, self.rem(c), c.proc))
        for p in (c.proc, ME):
            st.assume(gmr_facts(st.load, OWN(self.rem(c), c.proc), p))

    def on_call(self, eng, st, name, args, n, c):
        # no live allocation contains an automatic variable
        if name in ('PARMCI_Put', 'PARMCI_Get', 'PARMCI_NbPut', 'PARMCI_NbGet'):
            lo = args[0].i() if 'Put' in name else args[1].i()
            st.assume(own_facts(st.load, lo, ME))
            st.assume(gmr_facts(st.load, OWN(lo, ME), ME))

    def requires(self, c):
        sz = VT[self.ty][1]
        yield 'process id', isproc(c.proc)
        yield 'own-memory', Implies(And(c.proc == ME, in_range(c.old, OWN(self.rem(c), c.proc), c.proc, self.rem(c), sz)), And(self.rem(c) >= 0, buf_ok(c, self.rem(c), sz)))

    def local(self, c):
        return c.proc == ME

    def aborts(self, c):
        sz = VT[self.ty][1]
        o = OWN(self.rem(c), c.proc)
        return Or(o == 0, Not(in_range(c.old, o, c.proc, self.rem(c), sz)))

    def effects(self, c):
        return None

    def place(self, c, kind):
        k, sz, wf = VT[self.ty]
        j, rd, rem = c.g0('Ln'), c.old, self.rem(c)
        loc = self.local(c)
        o = OWN(rem, c.proc)
        R = lambda f: Implies(Not(loc), f)
        yield 'one-transfer', R(And(c.g1('Ln') == j + 1, L(c.new, 'kind', j) == kind))
        yield 'width', R(And(L(c.new, 'tc', j) * TEXT(L(c.new, 'tt', j)) == sz, L(c.new, 'oc', j) * TEXT(L(c.new, 'ot', j)) == sz))
        yield 'address-and-process', R(And(L(c.new, 'win', j) == gwin(rd, o), L(c.new, 'rank', j) == GR(gcomm(rd, o), c.proc),
                                           L(c.new, 'disp', j) == rem - sbase(rd, o, c.proc)))
        yield 'complete-on-return', R(L(c.new, 'done', j) >= 1)


class PutV_(ValBase):
    def modifies(self, c):
        j = c.g0('Ln')
        sz = VT[self.ty][1]
        m = ['Ln'] + log_modifies(j, j + 1, skip=('done',)) + [('G:L.done', None)]
        return m + [(k, lambda a: And(self.local(c), a >= c.dst, a < c.dst + sz)) for k in sorted(DATA_KEYS)]

    def ensures(self, c):
        k, sz, wf = VT[self.ty]
        yield 'returns-zero', c.ret == 0
        for x in self.place(c, PUT):
            yield x
        j = c.g0('Ln')
        yield 'value-sent', Implies(And(Not(self.local(c)), WEL == 0), L(c.new, wf, j) == c.src)
        yield 'value-stored-in-own-memory', Implies(self.local(c), c.new(k, c.dst) == c.src)


class GetV_(ValBase):
    def rem(self, c):
        return c.src

    def modifies(self, c):
        j = c.g0('Ln')
        return ['Ln'] + log_modifies(j, j + 1, skip=('done',)) + [('G:L.done', None)]

    def ensures(self, c):
        k, sz, wf = VT[self.ty]
        for x in self.place(c, GET):
            yield x
        j = c.g0('Ln')
        yield 'value-fetched', Implies(Not(self.local(c)), c.ret == RB[k](j, 0))
        yield 'value-of-own-memory', Implies(self.local(c), c.ret == c.old(k, c.src))


for _t in ('Int', 'Long', 'Float', 'Double'):
    contract('C18')(type('PutValue' + _t, (PutV_,), dict(name='PARMCI_PutValue' + _t, params='src dst proc', ty=_t)))
    contract('C18')(type('NbPutValue' + _t, (PutV_,), dict(name='PARMCI_NbPutValue' + _t, params='src dst proc hdl', ty=_t)))
    contract('C18')(type('GetValue' + _t, (GetV_,), dict(name='PARMCI_GetValue' + _t, params='src proc', ty=_t)))


# ------------------------------------------------------------ put with flag
class Flagged(Contract):
    """The data put, a fence, then the flag put: when the flag put is issued, everything issued
    before it by this call is complete at the target."""
    flagged = True

    def setup(self, eng, st, c):
        st.assume(wcomm_facts(c.proc))
        ptrs = [(self.data(c)[1], c.proc), (c.flag, c.proc), (self.data(c)[0], ME)]
        for a, p in ptrs:
            st.assume(own_facts(st.load, a, p))
            for q in (c.proc, ME):
                st.assume(gmr_facts(st.load, OWN(a, p), q))
        st.gh['flagputs'] = IntVal(0)

    def isflag(self, c, name, args):
        return name in ('PARMCI_Put', 'PARMCI_NbPut') and args[1].i().eq(c.flag)

    def on_call(self, eng, st, name, args, n, c):
        if name in ('PARMCI_Put', 'PARMCI_NbPut'):
            st.assume(own_facts(st.load, args[0].i(), ME))
            st.assume(gmr_facts(st.load, OWN(args[0].i(), ME), ME))
        if self.isflag(c, name, args):
            sub = st.copy()
            j = fresh('sk_j')
            sub.assume(And(j >= c.g0('Ln'), j < sub.gh['Ln']))
            eng.prove(sub, sub.load('G:L.done', j) >= 2, 'data-complete-at-target-before-flag', n)
            eng.prove(st, st.gh['dataputs'] == 1, 'data-put-precedes-flag', n)
            st.gh['flagputs'] = st.gh['flagputs'] + 1


@contract('C18')
class PutFlag(Flagged):
    name, params, file = 'PARMCI_Put_flag', 'src dst size flag value proc', 'onesided.c'
    unit_opts = {}

    def data(self, c):
        return c.src, c.dst

    def setup(self, eng, st, c):
        Flagged.setup(self, eng, st, c)
        st.gh['dataputs'] = IntVal(0)

    def requires(self, c):
        yield 'process id', isproc(c.proc)
        yield 'size', c.size >= 0
        yield 'local-buffer', And(c.src > 0, buf_ok(c, c.src, c.size))
        yield 'own-memory', Implies(And(c.proc == ME, OWN(c.dst, c.proc) != 0, in_range(c.old, OWN(c.dst, c.proc), c.proc, c.dst, c.size)), And(c.dst >= 0, buf_ok(c, c.dst, c.size)))
        yield 'own-flag', Implies(And(c.proc == ME, OWN(c.flag, c.proc) != 0, in_range(c.old, OWN(c.flag, c.proc), c.proc, c.flag, 4)), And(c.flag >= 0, buf_ok(c, c.flag, 4)))
        yield 'flag-apart-from-data', disjoint(c.dst, c.size, c.flag, 4)
        yield 'flag-apart-from-source', disjoint(c.src, c.size, c.flag, 4)

    def private(self, c):
        from .c_onesided import private
        return And(c.proc == ME, private(c, c.src))

    def aborts(self, c):
        o, f = OWN(c.dst, c.proc), OWN(c.flag, c.proc)
        return Or(o == 0, Not(in_range(c.old, o, c.proc, c.dst, c.size)),
                  f == 0, Not(in_range(c.old, f, c.proc, c.flag, 4)))

    def modifies(self, c):
        j = c.g0('Ln')
        m = ['Ln', 'flagputs', 'dataputs'] + log_modifies(j, j + 2, skip=('done',)) + [('G:L.done', None)]
        return m + [(k, lambda a: And(c.proc == ME, Or(And(a >= c.dst, a < c.dst + c.size), And(a >= c.flag, a < c.flag + 4))))
                    for k in sorted(DATA_KEYS)]

    def effects(self, c):
        return None

    def on_call(self, eng, st, name, args, n, c):
        Flagged.on_call(self, eng, st, name, args, n, c)
        if name in ('PARMCI_Put', 'PARMCI_NbPut') and not self.isflag(c, name, args):
            eng.prove(st, And(args[0].i() == c.src, args[1].i() == c.dst, args[2].i() == c.size, args[3].i() == c.proc), 'data-put-as-requested', n)
            st.gh['dataputs'] = st.gh['dataputs'] + 1

    def ensures(self, c):
        rd, j0 = c.old, c.g0('Ln')
        loc1, loc2 = self.private(c), c.proc == ME
        j1 = If(loc1, j0, j0 + 1)
        o, f = OWN(c.dst, c.proc), OWN(c.flag, c.proc)
        yield 'returns-zero', c.ret == 0
        yield 'one-flag-put', c.g1('flagputs') == 1
        yield 'operations', c.g1('Ln') == If(loc2, j1, j1 + 1)
        R = lambda x: Implies(Not(loc1), x)
        yield 'data-put', R(And(L(c.new, 'kind', j0) == PUT, L(c.new, 'win', j0) == gwin(rd, o),
                                L(c.new, 'rank', j0) == GR(gcomm(rd, o), c.proc),
                                L(c.new, 'disp', j0) == c.dst - sbase(rd, o, c.proc),
                                L(c.new, 'tc', j0) * TEXT(L(c.new, 'tt', j0)) == c.size))
        yield 'data-complete-at-target', R(L(c.new, 'done', j0) >= 2)
        for wf in WATCH:
            k, a = watch_addr(wf, c.src)
            yield 'data-' + wf, R(Implies(watched_inside(wf, c.size), L(c.new, wf, j0) == rd(k, a)))
        F = lambda x: Implies(Not(loc2), x)
        yield 'flag-put', F(And(L(c.new, 'kind', j1) == PUT, L(c.new, 'win', j1) == gwin(rd, f),
                                L(c.new, 'rank', j1) == GR(gcomm(rd, f), c.proc),
                                L(c.new, 'disp', j1) == c.flag - sbase(rd, f, c.proc),
                                L(c.new, 'tc', j1) * TEXT(L(c.new, 'tt', j1)) == 4))
        yield 'flag-value', F(Implies(WEL == 0, L(c.new, 'wi', j1) == c.value))
        yield 'flag-value-in-own-memory', Implies(loc2, c.new('i4', c.flag) == c.value)
        for k in sorted(DATA_KEYS):
            yield 'own-data-' + k, k, (lambda a, k=k: Implies(And(loc1, a >= c.dst, a < c.dst + c.size),
                                                            c.new(k, a) == c.old(k, c.src + (a - c.dst))))
