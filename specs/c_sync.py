"""Contracts on completion: fence, barrier, wait (src/util.c, src/onesided_nb.c)."""
import z3
from z3 import And, Or, Not, If, IntVal, Implies, Int
from engine.vc import Contract, LoopSpec, fresh, TRUE, FALSE
from . import world as w
from .world import *
from .reg import contract
from .c_gmr import slice_hooks, h_fields, hdl_ok


def addressed(rd, j, proc=None):
    """Log entry j went to a live allocation (and, if given, to process proc)."""
    wn = L(rd, 'win', j)
    m = GOFW(wn)
    a = [isg(rd, m), gwin(rd, m) == wn]
    if proc is not None:
        a += [GR(gcomm(rd, m), proc) >= 0, L(rd, 'rank', j) == GR(gcomm(rd, m), proc)]
    return m, And(*a)


class Walk(LoopSpec):
    """Everything sent to allocations before the cursor has reached the level."""

    def inv(self, L_):
        c = L_.ctx
        m = L_.v(L_.ptr_name('gmr'))
        con = L_.eng.unit_contract
        rd = c.old
        yield 'cursor-on-list', Or(m == 0, And(m > 0, isg(rd, m), POS(m) >= 0, POS(m) < LEN, AT(POS(m)) == m))
        for p in con.procs(c):
            c.eng_facts = L_._sink or L_.cur
            (L_._sink or L_.cur).add(Implies(m != 0, gmr_facts(rd, m, p)))
        if getattr(con, 'nolog', False):
            return

        def done(j):
            t, a = addressed(rd, j, con.target(c))
            b4 = Or(m == 0, POS(t) < POS(m))
            d0, d1 = L(rd, 'done', j), L_.mem('G:L.done', j)
            return And(d1 >= d0, Implies(And(j < c.g0('Ln'), a, b4), d1 >= con.level(c)))
        yield 'done-so-far', 'G:L.done', done

    def modifies(self, L_):
        return [] if getattr(L_.eng.unit_contract, 'nolog', False) else [('G:L.done', None)]
    events = True


class Walker(Contract):
    file = 'util.c'
    loops = {0: Walk()}

    def target(self, c):
        return None

    def procs(self, c):
        return [ME]

    def level(self, c):
        return 2

    def setup(self, eng, st, c):
        for p in self.procs(c):
            st.assume(wcomm_facts(p))
            slice_hooks(eng, p)

    def modifies(self, c):
        return [('G:L.done', None)]

    def effects(self, c):
        return None

    def ensures(self, c):
        rd = c.old

        def done(j):
            t, a = addressed(rd, j, self.target(c))
            d0, d1 = L(rd, 'done', j), L(c.new, 'done', j)
            return And(d1 >= d0, Implies(And(j < c.g0('Ln'), a), d1 >= self.level(c)))
        yield 'every-operation-complete', 'G:L.done', done
        if getattr(self, 'rc', False):
            yield 'returns-zero', c.ret == 0


class ToProc(object):
    def target(self, c):
        return c.proc

    def procs(self, c):
        return [c.proc, ME]

    def requires(self, c):
        yield 'process id', isproc(c.proc)


@contract('C10', 'C18')
class Fence(ToProc, Walker):
    name, params = 'PARMCI_Fence', 'proc'


@contract('C10')
class AllFence(Walker):
    name, params = 'PARMCI_AllFence', ''


@contract('C08')
class WaitProc(ToProc, Walker):
    name, params, file, rc = 'PARMCI_WaitProc', 'proc', 'onesided_nb.c', True

    def level(self, c):
        return 1


@contract('C08')
class WaitAll(Walker):
    name, params, file, rc = 'PARMCI_WaitAll', '', 'onesided_nb.c', True

    def level(self, c):
        return 1


class SyncWalk(Walk):
    pass


@contract('C10')
class Sync(Walker):
    name, params, file, nolog = 'ARMCII_Sync', '', 'internals.c', True

    def ensures(self, c):
        return []

    def modifies(self, c):
        return []


@contract('C10')
class Barrier(Contract):
    name, params, file = 'PARMCI_Barrier', '', 'util.c'

    def setup(self, eng, st, c):
        slice_hooks(eng, ME)
        st.gh['barriers'] = IntVal(0)

    def modifies(self, c):
        return [('G:L.done', None)] + ([] if hasattr(c, 'caller') else ['barriers'])

    def effects(self, c):
        return None

    def on_call(self, eng, st, name, args, n, c):
        if name != 'MPI_Barrier':
            return
        sub = st.copy()
        j = fresh('sk_j')
        sub.assume(j < sub.gh['Ln'])
        t, a = addressed(sub.load, j)
        eng.prove(sub, Implies(a, sub.load('G:L.done', j) >= 2), 'complete-before-synchronising', n)
        eng.prove(st, args[0].i() == WCOMM, 'synchronises-the-world', n)
        st.gh['barriers'] = st.gh['barriers'] + 1

    def ensures(self, c):
        def done(j):
            t, a = addressed(c.old, j)
            return Implies(And(j < c.g0('Ln'), a), L(c.new, 'done', j) >= 2)
        yield 'every-operation-complete', 'G:L.done', done
        if not hasattr(c, 'caller'):
            yield 'synchronised-once', c.post_gh['barriers'] == 1
