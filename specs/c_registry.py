"""Contracts on allocation and release (src/gmr.c, src/malloc.c): the registry of live allocations."""
import z3
from z3 import And, Or, Not, If, IntVal, Implies, Int, Function
from engine.vc import Contract, LoopSpec, fresh, TRUE, FALSE, KEYSORT
from . import world as w
from .world import *
from .reg import contract

AG_base = Function('AG_base', ISORT, ISORT)     # base pointer each rank contributed
AG_size = Function('AG_size', ISORT, ISORT)     # size each rank contributed


def ev(c, name):
    return [kw for nm, kw in (c.events or ()) if nm == name]


def head(rd, c):
    return rd('g:gmr_list', c.glob('gmr_list'))


class BaseNull(LoopSpec):
    """base_ptrs[0..i) are NULL."""
    val = None

    def modifies(self, L_):
        c = L_.ctx
        n = GSZ(grp_comm(c.old, c.group))
        return [('ptr', lambda a: And(a >= c.base_ptrs, a < c.base_ptrs + 8 * n))] + L_.counter_mods()

    def elem(self, L_, k):
        return IntVal(0)

    def inv(self, L_):
        c = L_.ctx
        i, n = L_.idx(), GSZ(grp_comm(c.old, c.group))
        yield 'counter', And(i >= 0, i <= n)

        def f(a):
            k = (a - c.base_ptrs) / 8
            return Implies(And(k >= 0, k < i, a == c.base_ptrs + 8 * k), L_.mem('ptr', a) == self.elem(L_, k))
        yield 'filled', 'ptr', f


class BaseFill(BaseNull):
    def elem(self, L_, k):
        return AG_base(k)


class SliceFill(LoopSpec):
    """slices[p] holds what member p contributed, for members with group rank < i; others empty."""

    def tgt(self, L_):
        return L_.mem(rec('gmr_s') + '.slices', L_.v('mreg') + off('gmr_s.slices'))

    def modifies(self, L_):
        s = L_.emem(rec('gmr_s') + '.slices', L_.v('mreg') + off('gmr_s.slices'))
        R = lambda a: And(a >= s, a < s + 16 * NP)
        r = rec('gmr_slice_t')
        return [(r + '.base', R), (r + '.size', R)] + L_.counter_mods()

    def inv(self, L_):
        c = L_.ctx
        cm = grp_comm(c.old, c.group)
        i, n = L_.idx(), GSZ(cm)
        s = L_.emem(rec('gmr_s') + '.slices', L_.v('mreg') + off('gmr_s.slices'))
        yield 'counter', And(i >= 0, i <= n)
        r = rec('gmr_slice_t')
        for f, F in (('base', AG_base), ('size', AG_size)):
            o = off('gmr_slice_t.' + f)

            def cl(a, f=f, F=F, o=o):
                p = (a - s - o) / 16
                sink = L_._sink or L_.cur
                sink.add(group_facts(GRPOF(cm), p))
                g = GR(cm, p)
                return Implies(And(p >= 0, p < NP, a == s + o + 16 * p),
                               L_.mem(r + '.' + f, a) == If(And(g >= 0, g < i), F(g), IntVal(0)))
            yield 'slices-' + f, r + '.' + f, cl


class Tail(LoopSpec):
    def inv(self, L_):
        m = L_.v(L_.ptr_name('gmr'))
        c = L_.ctx
        sk = L_._sink or L_.cur
        for q in (POS(m), POS(m) + 1, LEN - 1):
            sk.add(at_facts(c.old, q))
        yield 'on-list', And(m > 0, isg(c.old, m), POS(m) >= 0, POS(m) < LEN, AT(POS(m)) == m)


@contract('C01')
class IsUnified(Contract):
    """Reporting only: looks at the window, changes nothing."""
    name, params, file = 'ARMCII_Is_win_unified', 'win', 'util.c'

    def modifies(self, c):
        return []

    def ensures(self, c):
        yield 'a-verdict', Or(c.ret == -1, c.ret == 0, c.ret == 1)


class ZeroBytes(LoopSpec):
    def modifies(self, L_):
        c = L_.ctx
        return [('i1', lambda a: And(a >= c.buf, a < c.buf + c.size))] + L_.counter_mods()

    def inv(self, L_):
        c = L_.ctx
        i = L_.idx()
        yield 'counter', And(i >= 0, i <= c.size)
        yield 'zeroed', 'i1', lambda a: Implies(And(a >= c.buf, a < c.buf + i), L_.mem('i1', a) == 0)


@contract('C01')
class Create(Contract):
    name, params, file = 'gmr_create', 'local_size base_ptrs group', 'gmr.c'
    allocates = True
    unit_opts = dict(merge=True)
    loops = {0: BaseNull(), 1: BaseFill(), 2: SliceFill(), 3: Tail()}

    def setup(self, eng, st, c):
        cm = grp_comm(st.load, c.group)
        st.assume(And(group_facts(GRPOF(cm), ME), GR(cm, ME) >= 0, GSZ(cm) >= 1))
        st.assume(And(LEN >= 0, LEN < (1 << 31)))
        i = fresh('watchpos')
        c.i = i
        rd = st.load
        st.assume(at_facts(rd, i))
        st.assume(at_facts(rd, i + 1))
        st.assume(at_facts(rd, i - 1))

    def requires(self, c):
        yield 'group-given', And(c.group > 0, grp_comm(c.old, c.group) > 0)
        yield 'member', GR(grp_comm(c.old, c.group), ME) >= 0
        yield 'size', And(c.local_size >= 0, c.local_size < (1 << 40))
        n = GSZ(grp_comm(c.old, c.group))
        yield 'pointer-array', And(c.base_ptrs > 0, c.base_ptrs + 8 * n < c.pre_brk)
        x = fld(c.old, 'global_state_t.use_win_allocate', c.glob('ARMCII_GLOBAL_STATE'))
        yield 'window-type', Or(x == 0, x == 1)

    def modifies(self, c):
        n = GSZ(grp_comm(c.old, c.group))
        last = AT(LEN - 1)
        m = [('ptr', lambda a: And(a >= c.base_ptrs, a < c.base_ptrs + 8 * n)),
             ('g:gmr_list', None), 'nlive',
             (rec('gmr_s') + '.next', lambda a: And(LEN > 0, a == last + off('gmr_s.next')))]
        return m

    def effects(self, c):
        return [('create', dict(size=c.local_size, ptrs=c.base_ptrs, group=c.group, ret=c.ret))]

    def ensures(self, c):
        if hasattr(c, 'caller'):
            return
        rd, nw = c.old, c.new
        cm = grp_comm(rd, c.group)
        n = GSZ(cm)
        m = c.ret
        me = GR(cm, ME)
        red = ev(c, 'allreduce')
        yield 'sizes-agreed-on', And(len(red) == 1, red[0]['value'] == c.local_size,
                                     red[0]['op'] == c.glob('ompi_mpi_op_max'), red[0]['comm'] == cm) if red else FALSE
        yield 'nothing-allocated-only-if-all-empty', Implies(m == 0, c.local_size == 0)

        def bases(a):
            k = (a - c.base_ptrs) / 8
            return Implies(And(k >= 0, k < n, a == c.base_ptrs + 8 * k), nw('ptr', a) == If(m == 0, IntVal(0), AG_base(k)))
        yield 'base-pointers-returned', 'ptr', bases
        made = ev(c, 'win_create')
        cs = fld(nw, 'gmr_s.slices', m)
        live = m != 0
        yield 'one-window', Implies(live, And(len(made) == 1, made[0]['comm'] == cm, gwin(nw, m) == made[0]['win'])) if made else m == 0
        yield 'contributes-its-size', Implies(live, AG_size(me) == c.local_size)
        if made:
            yield 'contributes-its-memory', Implies(live, AG_base(me) == If(c.local_size > 0, made[0]['base'], IntVal(0)))
            yield 'window-exposes-it', Implies(live, And(WINSZ(gwin(nw, m), me) == c.local_size,
                                                        Implies(c.local_size > 0, WINBASE(gwin(nw, m), me) == AG_base(me))))
        lk = ev(c, 'lock_all')
        yield 'access-epoch-open', Implies(live, And(len(lk) == 1, lk[0]['win'] == gwin(nw, m))) if lk else m == 0
        p = fresh('sk_proc')
        c.fact(group_facts(GRPOF(cm), p))
        g = GR(cm, p)
        yield 'records-every-process', Implies(And(live, isproc(p)),
                                               And(sbase(nw, m, p) == If(g >= 0, AG_base(g), IntVal(0)),
                                                   ssize(nw, m, p) == If(g >= 0, AG_size(g), IntVal(0))))
        yield 'records-group', Implies(live, And(gcomm(nw, m) == cm, fld(nw, 'ARMCI_Group.size', ggrp(m)) == fld(rd, 'ARMCI_Group.size', c.group),
                                                 fld(nw, 'gmr_s.nslices', m) == NP))
        # the registry is the old one with the new allocation appended
        i = c.i
        at = lambda k: If(k == LEN, m, AT(k))
        for q in (i, LEN - 1, IntVal(0)):
            c.fact(at_facts(rd, q))
        nx = lambda r, a: fld(r, 'gmr_s.next', a)
        pv = lambda r, a: fld(r, 'gmr_s.prev', a)
        keep = And(live, i >= 0, i < LEN - 1)
        yield 'registry-next', Implies(keep, And(nx(nw, AT(i)) == nx(rd, AT(i))))
        yield 'registry-prev', Implies(And(live, i >= 0, i < LEN), pv(nw, AT(i)) == pv(rd, AT(i)))
        yield 'registry-last-linked', Implies(And(live, LEN > 0), nx(nw, AT(LEN - 1)) == m)
        yield 'registry-appended', Implies(live, And(nx(nw, m) == 0, pv(nw, m) == If(LEN > 0, AT(LEN - 1), IntVal(0))))
        yield 'registry-head', Implies(live, head(nw, c) == at(IntVal(0)))
        yield 'registry-unchanged-if-nothing-allocated', Implies(m == 0, And(head(nw, c) == head(rd, c),
                                                                Implies(And(i >= 0, i < LEN), fld(nw, 'gmr_s.next', AT(i)) == fld(rd, 'gmr_s.next', AT(i)))))
        yield 'new-block', Implies(live, And(m >= c.pre_brk, nw('G:live', m) == 1, nw('G:live', cs) == 1, cs != m))
        yield 'temporaries-released', Implies(live, c.g1('nlive') == c.g0('nlive') + 2 +
                                              If(And(c.local_size > 0, Not(made[0]['own'])), IntVal(1), IntVal(0))) if made else c.g1('nlive') == c.g0('nlive')


@contract('C01', 'C16')
class Destroy(Contract):
    name, params, file = 'gmr_destroy', 'mreg group', 'gmr.c'

    def setup(self, eng, st, c):
        rd = st.load
        cm = grp_comm(rd, c.group)
        st.assume(And(group_facts(GRPOF(cm), ME), GR(cm, ME) >= 0, GSZ(cm) >= 1))
        c.i = fresh('watchpos')
        # the process that names the allocation, and the address it names
        c.P, c.B = fresh('namer'), fresh('named')
        st.assume(And(isproc(c.P), GR(cm, c.P) >= 0, group_facts(GRPOF(cm), c.P)))
        st.assume(own_facts(rd, c.B, c.P))
        c.m = If(c.mreg != 0, c.mreg, OWN(c.B, c.P))
        for x in (c.mreg, OWN(c.B, c.P)):
            for p in (ME, c.P):
                st.assume(gmr_facts(rd, x, p))
            st.assume(Implies(isg(rd, x), And(POS(x) >= 0, POS(x) < LEN, AT(POS(x)) == x)))
            st.assume(Implies(isg(rd, x), And(rd('G:live', x) == 1, rd('G:live', gslices(rd, x)) == 1, gslices(rd, x) != x)))
            b = sbase(rd, x, ME)
            uw = fld(rd, 'global_state_t.use_win_allocate', eng.ga('ARMCII_GLOBAL_STATE'))
            st.assume(Implies(And(isg(rd, x), uw == 0, b != 0), And(rd('G:live', b) == 1, b != x, b != gslices(rd, x))))
        k = POS(c.m)
        for q in (c.i, c.i + 1, c.i - 1, k + 1, k - 1, c.i + 2, IntVal(0), IntVal(1)):
            st.assume(at_facts(rd, q))
        st.assume(Implies(c.mreg != 0, isg(rd, c.mreg)))
        st.gh['DR'] = IntVal(0)
        st.assume(LEN >= 0)

    def collective(self, c, st, what, kw):
        # what every process contributes: its own id or -1; the base of the allocation it names
        cm = grp_comm(c.old, c.group)
        if what == 'allreduce':
            v = kw['value']
            yield Or(v == -1, v == c.P)
            yield Implies(v == c.P, c.P >= 0)
        if what == 'bcast':
            yield Implies(And(kw['root'] == GR(cm, c.P), kw['root'] != GR(cm, ME)), kw['value'] == c.B)
            yield Implies(c.P == ME, c.B == kw['value'])

    def requires(self, c):
        yield 'group-given', And(c.group > 0, grp_comm(c.old, c.group) > 0)
        yield 'member', GR(grp_comm(c.old, c.group), ME) >= 0
        yield 'names-live-allocation', Or(c.mreg == 0, And(c.mreg > 0, isg(c.old, c.mreg)))
        if hasattr(c, 'caller') and 'DR' in c.st.gh:
            yield 'not-yet-destroyed', Implies(c.mreg != 0, POS(c.mreg) >= c.st.gh['DR'])

    def aborts(self, c):
        if hasattr(c, 'caller'):
            return None
        return And(c.mreg == 0, OWN(c.B, c.P) == 0)

    def modifies(self, c):
        r = rec('gmr_s')
        if hasattr(c, 'caller'):
            o = [('g:gmr_list', None), (r + '.next', None), (r + '.prev', None), (r + '.window', None), ('G:live', lambda a: BLK(a) == 1), 'nlive', ('G:L.done', None)]
            if 'DR' in c.pre_gh:
                o.append('DR')
            return o
        m = c.m
        k = POS(m)
        return [('g:gmr_list', None), ('G:L.done', None), 'nlive', (r + '.window', lambda a: a == m + off('gmr_s.window')),
                (r + '.next', lambda a: And(k > 0, a == AT(k - 1) + off('gmr_s.next'))),
                (r + '.prev', lambda a: And(k + 1 < LEN, a == AT(k + 1) + off('gmr_s.prev'))),
                ('G:live', lambda a: Or(a == m, a == gslices(c.old, m), a == sbase(c.old, m, ME)))]

    def effects(self, c):
        return [('destroy', dict(mreg=c.mreg, group=c.group))]

    def on_call(self, eng, st, name, args, n, c):
        if name == 'MPI_Win_free':
            ul = [e for e in (st.events or ()) if e[0] == 'unlock_all']
            eng.prove(st, ul[-1][1]['win'] == gwin(c.old, c.m) if ul else FALSE, 'epoch-closed-before-window-freed', n)

    def on_free(self, eng, st, p, n, c):
        wf = [e for e in (st.events or ()) if e[0] == 'win_free']
        eng.prove(st, TRUE if wf else FALSE, 'memory-released-after-window', n)

    def ensures(self, c):
        rd, nw = c.old, c.new
        if hasattr(c, 'caller'):
            if 'DR' in c.pre_gh:
                d = c.g0('DR')
                yield 'head-removed', Implies(And(c.mreg != 0, c.mreg == AT(d)),
                                              And(c.g1('DR') == d + 1, head(nw, c) == If(d + 1 < LEN, AT(d + 1), IntVal(0))))
            return
        m, i, k = c.m, c.i, POS(c.m)
        cm = grp_comm(rd, c.group)
        red, bc, wf = ev(c, 'allreduce'), ev(c, 'bcast'), ev(c, 'win_free')
        gone = And(len(wf) >= 1)
        gone = TRUE if wf else FALSE
        # what this process contributes to the agreement (assumed of the others)
        yield 'offers-own-id', And(red[0]['value'] == If(c.mreg != 0, ME, IntVal(-1)), red[0]['comm'] == cm,
                                   red[0]['op'] == c.glob('ompi_mpi_op_max')) if red else FALSE
        if bc:
            yield 'offers-own-base', And(bc[0]['comm'] == cm, bc[0]['size'] == 8,
                                         Implies(c.mreg != 0, bc[0]['value'] == sbase(rd, c.mreg, ME)))
        yield 'nothing-freed-only-if-nobody-named-any', Implies(Not(gone), c.mreg == 0)
        yield 'window-of-that-allocation-freed', Implies(gone, And(len(wf) == 1, wf[0]['win'] == gwin(rd, m))) if wf else TRUE
        at = lambda q: If(q < k, AT(q), AT(q + 1))
        n1 = LEN - 1
        inr = And(gone, i >= 0, i < n1)
        x = at(i)
        yield 'registry-next', Implies(inr, fld(nw, 'gmr_s.next', x) == If(i + 1 < n1, at(i + 1), IntVal(0)))
        yield 'registry-prev', Implies(inr, fld(nw, 'gmr_s.prev', x) == If(i > 0, at(i - 1), IntVal(0)))
        yield 'registry-head', Implies(gone, head(nw, c) == If(n1 > 0, at(IntVal(0)), IntVal(0)))
        yield 'registry-unchanged-otherwise', Implies(Not(gone), And(head(nw, c) == head(rd, c)))
        uw = fld(rd, 'global_state_t.use_win_allocate', c.glob('ARMCII_GLOBAL_STATE'))
        b = sbase(rd, m, ME)
        yield 'descriptor-released', Implies(gone, And(nw('G:live', m) == 0, nw('G:live', gslices(rd, m)) == 0))
        own = And(uw == 0, b != 0)
        yield 'memory-released-iff-not-window-owned', Implies(gone, c.g1('nlive') == c.g0('nlive') - 2 - If(own, IntVal(1), IntVal(0)))
        yield 'memory-released', Implies(And(gone, own), nw('G:live', b) == 0)


class DestroyLoop(LoopSpec):
    events = True

    def inv(self, L_):
        c = L_.ctx
        d = L_.g('DR')
        yield 'front-removed', And(d >= 0, d <= LEN, L_.mem('g:gmr_list', c.glob('gmr_list')) == If(d < LEN, AT(d), IntVal(0)))
        yield 'counted', L_.v('count') == d
        sk = L_._sink or L_.cur
        sk.add(at_facts(c.old, d))
        m = AT(d)
        sk.add(Implies(And(d >= 0, d < LEN), gmr_facts(c.old, m, ME)))

    def modifies(self, L_):
        r = rec('gmr_s')
        return [('g:gmr_list', None), (r + '.next', None), (r + '.prev', None), (r + '.window', None), ('G:live', lambda a: BLK(a) == 1), 'nlive', 'DR', ('G:L.done', None)]


@contract('C16', 'C01')
class DestroyAll(Contract):
    name, params, file = 'gmr_destroy_all', '', 'gmr.c'
    loops = {0: DestroyLoop()}

    def setup(self, eng, st, c):
        st.gh['DR'] = IntVal(0)
        st.assume(And(LEN >= 0, LEN < (1 << 31) - 1))
        st.assume(at_facts(st.load, IntVal(0)))

    def modifies(self, c):
        r = rec('gmr_s')
        return [('g:gmr_list', None), (r + '.next', None), (r + '.prev', None), (r + '.window', None), ('G:live', lambda a: BLK(a) == 1), 'nlive', ('G:L.done', None)] + \
            ([] if hasattr(c, 'caller') else ['DR'])

    def effects(self, c):
        return [('destroy_all', {})]

    def ensures(self, c):
        yield 'registry-empty', head(c.new, c) == 0
        yield 'number-destroyed', c.ret == LEN
        if not hasattr(c, 'caller'):
            yield 'every-allocation-destroyed', c.g1('DR') == LEN


# ------------------------------------------------------------ front ends (src/malloc.c)
class Front(Contract):
    file = 'malloc.c'

    def requires(self, c):
        g = self.grp(c)
        yield 'group-given', And(g > 0, grp_comm(c.old, g) > 0)
        yield 'member', GR(grp_comm(c.old, g), ME) >= 0

    def grp(self, c):
        return c.group

    def setup(self, eng, st, c):
        st.assume(eng.ga('ARMCI_GROUP_WORLD') > 0)

    def init_count(self, c):
        return fld(c.old, 'global_state_t.init_count', c.glob('ARMCII_GLOBAL_STATE'))


class MallocLike(Front):
    allocates = True

    def requires(self, c):
        for x in Front.requires(self, c):
            yield x
        n = GSZ(grp_comm(c.old, self.grp(c)))
        p, s = self.ps(c)
        yield 'size', And(s >= 0, s < (1 << 40))
        yield 'pointer-array', And(p > 0, p + 8 * n < c.pre_brk)
        x = fld(c.old, 'global_state_t.use_win_allocate', c.glob('ARMCII_GLOBAL_STATE'))
        yield 'window-type', Or(x == 0, x == 1)

    def ps(self, c):
        return c.base_ptrs, c.size

    def aborts(self, c):
        return self.init_count(c) <= 0

    def modifies(self, c):
        n = GSZ(grp_comm(c.old, self.grp(c)))
        p, s = self.ps(c)
        last = AT(LEN - 1)
        return [('ptr', lambda a: And(a >= p, a < p + 8 * n)), ('g:gmr_list', None), 'nlive',
                (rec('gmr_s') + '.next', lambda a: And(LEN > 0, a == last + off('gmr_s.next')))]

    def effects(self, c):
        p, s = self.ps(c)
        return [('create', dict(size=s, ptrs=p, group=self.grp(c)))]

    def ensures(self, c):
        yield 'returns-zero', c.ret == 0
        if hasattr(c, 'caller'):
            return
        p, s = self.ps(c)
        e = ev(c, 'create')
        yield 'one-allocation', TRUE if len(e) == 1 else FALSE
        if e:
            yield 'as-requested', And(e[0]['size'] == s, e[0]['ptrs'] == p,
                                      grp_comm(c.old, e[0]['group']) == grp_comm(c.old, self.grp(c)))


class DebugNames(LoopSpec):
    """Debug output only: the text stays inside its buffer."""

    def modifies(self, L_):
        b = L_.addr('ptr_string')
        return [('i1', lambda a: And(a >= b, a < b + 1000))]

    def inv(self, L_):
        yield 'text-length', And(L_.v('count') >= 0, L_.v('count') < 1200, L_.v('i') >= 0)


@contract('C01')
class MallocGroup(MallocLike):
    name, params = 'ARMCI_Malloc_group', 'base_ptrs size group'
    loops = {0: DebugNames()}


class World_(object):
    def grp(self, c):
        return c.glob('ARMCI_GROUP_WORLD')

    def requires(self, c):
        for x in super().requires(c):
            if x[0] not in ('group-given', 'member'):
                yield x

    def ps(self, c):
        return c.ptr_arr, c.bytes


@contract('C01')
class Malloc(World_, MallocLike):
    name, params = 'PARMCI_Malloc', 'ptr_arr bytes'


class FreeLike(Front):
    def aborts(self, c):
        return And(c.ptr != 0, OWN(c.ptr, ME) == 0)

    def setup(self, eng, st, c):
        Front.setup(self, eng, st, c)
        st.assume(own_facts(st.load, c.ptr, ME))
        st.assume(gmr_facts(st.load, OWN(c.ptr, ME), ME))

    def modifies(self, c):
        r = rec('gmr_s')
        return [('g:gmr_list', None), (r + '.next', None), (r + '.prev', None), (r + '.window', None), ('G:live', None), 'nlive', ('G:L.done', None)]

    def effects(self, c):
        return [('destroy', dict(mreg=If(c.ptr == 0, IntVal(0), OWN(c.ptr, ME)), group=self.grp(c)))]

    def ensures(self, c):
        yield 'returns-zero', c.ret == 0
        if hasattr(c, 'caller'):
            return
        e = ev(c, 'destroy')
        yield 'one-release', TRUE if len(e) == 1 else FALSE
        if e:
            yield 'releases-the-allocation-named', And(e[0]['mreg'] == If(c.ptr == 0, IntVal(0), OWN(c.ptr, ME)),
                                                      grp_comm(c.old, e[0]['group']) == grp_comm(c.old, self.grp(c)))


@contract('C01')
class FreeGroup(FreeLike):
    name, params = 'ARMCI_Free_group', 'ptr group'


@contract('C01')
class Free(World_, FreeLike):
    name, params = 'PARMCI_Free', 'ptr'


@contract('C01')
class MallocMemdev(World_, MallocLike):
    name, params, file = 'PARMCI_Malloc_memdev', 'ptr_arr bytes device', 'armci-memdev.c'


@contract('C01')
class MallocGroupMemdev(MallocLike):
    name, params, file = 'PARMCI_Malloc_group_memdev', 'ptr_arr bytes group device', 'armci-memdev.c'

    def ps(self, c):
        return c.ptr_arr, c.bytes


@contract('C01')
class FreeMemdev(World_, FreeLike):
    name, params, file = 'PARMCI_Free_memdev', 'ptr', 'armci-memdev.c'


@contract('C09')
class MallocLocal(Contract):
    name, params, file = 'PARMCI_Malloc_local', 'size', 'malloc.c'
    allocates = True

    def requires(self, c):
        yield 'size', c.size >= 0

    def modifies(self, c):
        return ['nlive']

    def ensures(self, c):
        yield 'new-block-of-that-size', And(c.ret >= c.pre_brk, c.new('G:live', c.ret) == 1, c.new('G:bsz', c.ret) == c.size)
        yield 'one-block', c.g1('nlive') == c.g0('nlive') + 1


@contract('C09')
class FreeLocal(Contract):
    name, params, file = 'PARMCI_Free_local', 'buf', 'malloc.c'

    def requires(self, c):
        yield 'live-block', Or(c.buf == 0, c.old('G:live', c.buf) == 1)

    def modifies(self, c):
        return ['nlive', ('G:live', lambda a: a == c.buf)]

    def ensures(self, c):
        yield 'returns-zero', c.ret == 0
        yield 'released', Implies(c.buf != 0, And(c.new('G:live', c.buf) == 0, c.g1('nlive') == c.g0('nlive') - 1))
