"""Contracts on process groups (src/groups.c, src/topology.c)."""
import z3
from z3 import And, Or, Not, If, IntVal, Implies, Int, Function
from engine.vc import Contract, LoopSpec, Unattachable, fresh, TRUE, FALSE, KEYSORT, select
from . import world as w
from .world import *
from .reg import contract
from .coll import INCL, SPLITG, BLO, BN, comm_self
from .c_gmr import cache_hooks

G = 'ARMCI_Group'
GF = ('comm', 'noncoll_pgroup_comm', 'rank', 'size', 'abs_to_grp', 'grp_to_abs')


def gf(rd, g, f):
    return fld(rd, G + '.' + f, g)


def gfield_mods(g, fields=GF):
    return [(rec(G) + '.' + f, (lambda a, f=f: a == g + off(G + '.' + f))) for f in fields]


def ev(c, name):
    return [kw for nm, kw in (c.events or ()) if nm == name]


def group_ok(c, rd, g):
    """Type invariant of a group object (what a member holds)."""
    cm = gf(rd, g, 'comm')
    return And(cm > 0, cm != w.COMM_NULL(c.eng), gf(rd, g, 'rank') == GR(cm, ME), gf(rd, g, 'size') == GSZ(cm),
               GR(cm, ME) >= 0)


def world_facts(st, eng, p):
    st.assume(wcomm_facts(p))


class Fill(LoopSpec):
    """ranks[i] = i"""

    def modifies(self, L_):
        r = L_.v('ranks')
        return [('i4', lambda a: And(a >= r, a < r + 4 * NP))] + L_.counter_mods()

    def inv(self, L_):
        i, r = L_.idx(), L_.v('ranks')
        yield 'counter', And(i >= 0, i <= NP)

        def f(a):
            k = (a - r) / 4
            return Implies(And(k >= 0, k < i, a == r + 4 * k), L_.mem('i4', a) == k)
        yield 'filled', 'i4', f


@contract('C12')
class InitFromComm(Contract):
    name, params, file = 'ARMCII_Group_init_from_comm', 'group', 'groups.c'
    allocates = True
    loops = {0: Fill()}

    def setup(self, eng, st, c):
        cm = gf(st.load, c.group, 'comm')
        c.p, c.r = fresh('watchproc'), fresh('watchrank')
        for p in (c.p, ME):
            st.assume(And(group_facts(GRPOF(cm), p), wcomm_facts(p)))
        st.assume(rank_facts(GRPOF(cm), c.r))
        st.assume(Implies(And(c.r >= 0, c.r < GSZ(cm)), wcomm_facts(GABSg(GRPOF(cm), c.r))))
        st.assume(And(NP < (1 << 28), NP >= 1))

    def requires(self, c):
        cm = gf(c.old, c.group, 'comm')
        null = w.COMM_NULL(c.eng)
        yield 'group-given', c.group > 0
        if hasattr(c, 'caller'):
            for p in ():
                yield
        else:
            yield 'inside-memory', c.group + SZ(G) <= c.pre_brk
        yield 'communicator', And(cm > 0, Implies(cm != null, And(GR(cm, ME) >= 0, GSZ(cm) >= 1, GSZ(cm) <= NP)))

    def modifies(self, c):
        return gfield_mods(c.group, [f for f in GF if f != 'comm']) + ['nlive']

    def effects(self, c):
        return [('group_init', dict(group=c.group, comm=gf(c.old, c.group, 'comm')))]

    def ensures(self, c):
        rd, nw, g = c.old, c.new, c.group
        cm = gf(rd, g, 'comm')
        live = cm != w.COMM_NULL(c.eng)
        yield 'rank-and-size', And(gf(nw, g, 'rank') == If(live, GR(cm, ME), IntVal(-1)),
                                   gf(nw, g, 'size') == If(live, GSZ(cm), IntVal(0)))
        nc = gf(nw, g, 'noncoll_pgroup_comm')
        on = And(cfg(c, 'noncollective_groups') != 0, live)
        yield 'private-communicator', If(on, And(nc > 0, nc != w.COMM_NULL(c.eng), GRPOF(nc) == GRPOF(cm), nc != cm), nc == w.COMM_NULL(c.eng))
        a2g, g2a = gf(nw, g, 'abs_to_grp'), gf(nw, g, 'grp_to_abs')
        cache = And(cfg(c, 'cache_rank_translation') != 0, live)
        yield 'caches-present-iff-enabled', And((a2g != 0) == cache, (g2a != 0) == cache)
        if hasattr(c, 'caller'):
            return
        p, r = c.p, c.r
        yield 'cached-ranks', Implies(And(cache, isproc(p)), nw('i4', a2g + 4 * p) == GR(cm, p))
        yield 'cached-processes', Implies(And(cache, r >= 0, r < GSZ(cm)), nw('i4', g2a + 4 * r) == GABSg(GRPOF(cm), r))
        yield 'temporaries-released', c.g1('nlive') == c.g0('nlive') + If(cache, IntVal(2), IntVal(0))
        yield 'caches-owned', Implies(cache, And(nw('G:live', a2g) == 1, nw('G:live', g2a) == 1, a2g != g2a,
                                                 nw('G:bsz', a2g) >= 4 * NP, nw('G:bsz', g2a) >= 4 * GSZ(cm)))


@contract('C12', 'C15')
class AbsoluteId(Contract):
    name, params, file = 'ARMCI_Absolute_id', 'group group_rank', 'groups.c'

    def setup(self, eng, st, c):
        cm = gf(st.load, c.group, 'comm')
        st.assume(rank_facts(GRPOF(cm), c.group_rank))
        x = GABSg(GRPOF(cm), c.group_rank)
        st.assume(And(group_facts(GRPOF(cm), x), wcomm_facts(x), wcomm_facts(c.group_rank)))
        cache_hooks(eng, c.group)

    def requires(self, c):
        yield 'group', And(c.group > 0, gf(c.old, c.group, 'comm') > 0)
        yield 'size-recorded', gf(c.old, c.group, 'size') == GSZ(gf(c.old, c.group, 'comm'))

    def aborts(self, c):
        if hasattr(c, 'caller'):
            return None
        return Not(And(c.group_rank >= 0, c.group_rank < GSZ(gf(c.old, c.group, 'comm'))))

    def ensures(self, c):
        g = GRPOF(gf(c.old, c.group, 'comm'))
        if hasattr(c, 'caller'):
            c.fact(rank_facts(g, c.group_rank))
        yield 'rank-of-the-group', And(c.group_rank >= 0, c.group_rank < COMMSZ(g))
        yield 'that-members-id', c.ret == GABSg(g, c.group_rank)
        if not hasattr(c, 'caller'):
            yield 'inverse-of-translation', GRg(g, c.ret) == c.group_rank


class Simple(Contract):
    file = 'groups.c'

    def requires(self, c):
        for p in self.params.split():
            if 'group' in p or 'parent' in p:
                yield p, And(getattr(c, p) > 0, getattr(c, p) + SZ(G) <= c.pre_brk)


@contract('C12')
class Rank(Simple):
    name, params = 'ARMCI_Group_rank', 'group rank'

    def requires(self, c):
        yield 'group', And(c.group > 0, c.rank > 0)

    def modifies(self, c):
        return [('i4', lambda a: a == c.rank)]

    def ensures(self, c):
        r = gf(c.old, c.group, 'rank')
        yield 'rank', c.new('i4', c.rank) == r
        yield 'verdict', (c.ret == 0) == (r >= 0)


@contract('C12')
class Size(Simple):
    name, params = 'ARMCI_Group_size', 'group size'

    def requires(self, c):
        yield 'group', And(c.group > 0, c.size > 0)

    def modifies(self, c):
        return [('i4', lambda a: a == c.size)]

    def ensures(self, c):
        yield 'size', c.new('i4', c.size) == gf(c.old, c.group, 'size')


def same_group(c, a, b):
    return And(*[gf(c.new, a, f) == gf(c.old, b, f) for f in GF])


@contract('C12', 'C14', 'C15')
class SetDefault(Simple):
    name, params = 'ARMCI_Group_set_default', 'group'

    def modifies(self, c):
        return gfield_mods(c.glob('ARMCI_GROUP_DEFAULT'))

    def ensures(self, c):
        yield 'default-is-that-group', same_group(c, c.glob('ARMCI_GROUP_DEFAULT'), c.group)


@contract('C12')
class GetDefault(Simple):
    name, params = 'ARMCI_Group_get_default', 'group_out'

    def modifies(self, c):
        return gfield_mods(c.group_out)

    def ensures(self, c):
        yield 'copy-of-default', same_group(c, c.group_out, c.glob('ARMCI_GROUP_DEFAULT'))


@contract('C12')
class GetWorld(Simple):
    name, params = 'ARMCI_Group_get_world', 'group_out'

    def modifies(self, c):
        return gfield_mods(c.group_out)

    def ensures(self, c):
        yield 'copy-of-world', same_group(c, c.group_out, c.glob('ARMCI_GROUP_WORLD'))


@contract('C12')
class GetWorldComm(Simple):
    name, params = 'ARMCIX_Get_world_comm', 'comm'

    def requires(self, c):
        yield 'out', c.comm > 0

    def modifies(self, c):
        return [('ptr', lambda a: a == c.comm)]

    def ensures(self, c):
        yield 'world', c.new('ptr', c.comm) == WCOMM


# ---------------------------------------------------------------- constructors
def made_group(c, child, cm, live):
    """`child` describes communicator cm as a member (or the empty group)."""
    nw = c.new
    return And(gf(nw, child, 'comm') == cm,
               gf(nw, child, 'rank') == If(live, GR(cm, ME), IntVal(-1)),
               gf(nw, child, 'size') == If(live, GSZ(cm), IntVal(0)))


def parent_ok(c, g):
    cm = gf(c.old, g, 'comm')
    yield 'parent', And(g > 0, g + SZ(G) <= c.pre_brk, group_ok(c, c.old, g), GSZ(cm) <= NP, GSZ(cm) >= 1)
    yield 'distinct', True


def list_ok(c, n, lst):
    yield 'list', And(n >= 0, n < (1 << 29), lst > 0, lst + 4 * n <= c.pre_brk)


def self_facts(eng, st):
    s = comm_self(eng)
    st.assume(And(s > 0, s != w.COMM_NULL(eng), s != WCOMM, COMMSZ(GRPOF(s)) == 1, GRg(GRPOF(s), ME) == 0))


class GroupMaker(Contract):
    file = 'groups.c'
    params = 'grp_size pid_list armci_grp_out armci_grp_parent'

    def setup(self, eng, st, c):
        self_facts(eng, st)
        cm = gf(st.load, c.armci_grp_parent, 'comm')
        st.assume(group_facts(GRPOF(cm), ME))

    def requires(self, c):
        for x in parent_ok(c, c.armci_grp_parent):
            if x[1] is not True:
                yield x
        for x in list_ok(c, c.grp_size, c.pid_list):
            yield x
        yield 'out', And(c.armci_grp_out > 0, c.armci_grp_out + SZ(G) <= c.pre_brk,
                         disjoint(c.armci_grp_out, SZ(G), c.armci_grp_parent, SZ(G)),
                         disjoint(c.armci_grp_out, SZ(G), c.pid_list, 4 * c.grp_size))

    def modifies(self, c):
        return gfield_mods(c.armci_grp_out, ['comm'])

    def x(self, c):
        return INCL(GRPOF(gf(c.old, c.armci_grp_parent, 'comm')), c.pid_list, c.grp_size)

    def effects(self, c):
        return None

    def ensures(self, c):
        cm = gf(c.new, c.armci_grp_out, 'comm')
        x = self.x(c)
        mem = GRg(x, ME) >= 0
        yield 'members-get-the-listed-group', Implies(mem, And(cm > 0, cm != w.COMM_NULL(c.eng), cm != comm_self(c.eng), GRPOF(cm) == x, COMMSZ(x) == c.grp_size))
        yield 'others-get-the-empty-group', Implies(Not(mem), cm == w.COMM_NULL(c.eng))


@contract('C12')
class CreateColl(GroupMaker):
    name = 'ARMCI_Group_create_comm_collective'

    def ensures(self, c):
        for x in GroupMaker.ensures(self, c):
            yield x
        if hasattr(c, 'caller'):
            return
        inc = ev(c, 'incl')
        k = fresh('sk_k')
        yield 'listed-members', And(len(inc) == 1, inc[0]['list'] == c.pid_list, inc[0]['n'] == c.grp_size,
                                    Implies(And(k >= 0, k < c.grp_size),
                                            select(inc[0]['mem'], 'i4', c.pid_list + 4 * k, c._sink) == c.old('i4', c.pid_list + 4 * k))) if inc else FALSE
        cr = ev(c, 'comm_create')
        yield 'on-the-parent', And(len(cr) == 1, cr[0]['comm'] == gf(c.old, c.armci_grp_parent, 'comm')) if cr else FALSE


MP = Int('MYPOS')       # the caller's position in the list, -1 if absent


class FindMe(LoopSpec):
    def inv(self, L_):
        c = L_.ctx
        i = L_.idx()
        yield 'counter', And(i >= 0, i <= c.grp_size)
        yield 'not-yet-met', And(Or(MP < 0, i <= MP), L_.v('grp_me') == -1)


class Merge(LoopSpec):
    events = True

    def modifies(self, L_):
        a = L_.addr('pgroup')
        b = L_.addr('inter_pgroup')
        return [('ptr', lambda x: Or(x == a, x == b)), 'ncomm', 'RLO', 'RHI', 'MLO', 'MHI'] + L_.counter_mods()

    def inv(self, L_):
        c = L_.ctx
        ms, pg, n = L_.idx(), L_.v('pgroup'), c.grp_size
        q = MP / ms
        yield 'size-positive', And(ms >= 1, ms <= 2 * n, q >= 0)
        yield 'my-block', And(q * ms <= MP, MP < q * ms + ms)
        s = comm_self(c.eng)
        yield 'communicator-valid', And(pg > 0, pg != w.COMM_NULL(c.eng))
        yield 'holds-my-block', And(BLO(pg) == q * ms, BN(pg) == If(q * ms + ms <= n, ms, n - q * ms))
        yield 'nothing-leaked', L_.g('ncomm') == If(pg == s, IntVal(0), IntVal(1))
        yield 'self-alone', Implies(pg == s, BN(pg) == 1)

    def lemmas(self, L_):
        # doubling the block size halves the block number
        ms = L_.idx()
        q = MP / ms
        yield MP / (2 * ms) == q / 2
        yield (q / 2) * (2 * ms) == If(q % 2 == 0, q * ms, q * ms - ms)

    step_lemmas_ = None


@contract('C12')
class CreateNonColl(GroupMaker):
    name = 'ARMCI_Group_create_comm_noncollective'
    loops = {0: FindMe(), 1: Merge()}

    def setup(self, eng, st, c):
        GroupMaker.setup(self, eng, st, c)
        rd = st.load
        me = gf(rd, c.armci_grp_parent, 'rank')
        for k in ('ncomm', 'RLO', 'RHI', 'MLO', 'MHI'):
            st.gh[k] = IntVal(0)
        s = comm_self(eng)
        st.assume(And(MP >= -1, MP < c.grp_size, BLO(s) == MP, BN(s) == 1))
        st.assume(Implies(MP >= 0, rd('i4', c.pid_list + 4 * MP) == me))
        x = INCL(GRPOF(gf(rd, c.armci_grp_parent, 'comm')), c.pid_list, c.grp_size)
        st.assume((GRg(x, ME) >= 0) == (MP >= 0))
        st.assume(COMMSZ(x) == c.grp_size)

        def cell(a, v, sink):
            k = (a - c.pid_list) / 4
            return [Implies(And(k >= 0, k < c.grp_size, a == c.pid_list + 4 * k, v == me), k == MP)]
        from engine.vc import add_base_hook
        add_base_hook(eng.unit_base, 'i4', cell)
        pc = gf(rd, c.armci_grp_parent, 'noncoll_pgroup_comm')
        st.assume(And(pc > 0, pc != w.COMM_NULL(eng), GRPOF(pc) == GRPOF(gf(rd, c.armci_grp_parent, 'comm'))))

    def requires(self, c):
        for x in GroupMaker.requires(self, c):
            yield x

    def modifies(self, c):
        return GroupMaker.modifies(self, c) + ([] if hasattr(c, 'caller') else ['ncomm', 'RLO', 'RHI', 'MLO', 'MHI'])

    def on_call(self, eng, st, name, args, n, c):
        A = lambda i: args[i].i()
        if name in ('MPI_Intercomm_create', 'MPI_Intercomm_merge') or (name == 'MPI_Comm_dup' and False):
            st.gh['ncomm'] = st.gh['ncomm'] + 1
        if name == 'MPI_Comm_free':
            st.gh['ncomm'] = st.gh['ncomm'] - 1
        if name == 'MPI_Intercomm_create':
            lo, hi = BLO(A(0)), BLO(A(0)) + BN(A(0))
            did = st.fr.names.get('merge_size')
            if did is None:
                raise Unattachable('no local merge_size')
            v = st.fr.vars[did]
            ms = v.i()
            q = MP / ms
            sib = If(q % 2 == 0, q + 1, q - 1)
            n_ = c.grp_size
            eng.prove(st, A(1) == 0, 'local-leader-is-first-of-block', n)
            eng.prove(st, A(2) == gf(c.old, c.armci_grp_parent, 'noncoll_pgroup_comm'), 'meets-over-private-communicator', n)
            first = If(q % 2 == 0, lo + ms, lo - ms)
            eng.prove(st, And(first >= 0, first < n_, A(3) == c.old('i4', c.pid_list + 4 * first)), 'remote-leader-is-first-of-sibling-block', n)
            st.gh['RLO'] = first
            st.gh['RHI'] = If(first + ms <= n_, first + ms, n_)
            st.gh['MLO'], st.gh['MHI'] = lo, hi
        if name == 'MPI_Intercomm_merge':
            hi = A(1) != 0
            g = st.gh
            eng.prove(st, If(hi, g['RHI'] == g['MLO'], g['MHI'] == g['RLO']), 'blocks-joined-in-list-order', n)

    def ensures(self, c):
        pg = gf(c.new, c.armci_grp_out, 'comm')
        x = self.x(c)
        if not hasattr(c, 'caller'):
            s = comm_self(c.eng)
            # a communicator of all listed processes in list order is that group (definition of BLO/BN);
            # a duplicate of the caller's own communicator holds the caller's position
            dup = [e for e in ev(c, 'comm_dup')]
            for d in dup:
                c.fact(Implies(d['comm'] == s, And(BLO(d['new']) == MP, BN(d['new']) == 1)))
            c.fact(Implies(And(pg != w.COMM_NULL(c.eng), BLO(pg) == 0, BN(pg) == c.grp_size), GRPOF(pg) == x))
            yield 'no-communicator-leaked', c.g1('ncomm') == If(Or(MP < 0, c.grp_size == 1), IntVal(0), IntVal(1))
        for y in GroupMaker.ensures(self, c):
            yield y


@contract('C12')
class CreateChild(GroupMaker):
    name = 'ARMCI_Group_create_child'

    def modifies(self, c):
        return gfield_mods(c.armci_grp_out) + ['nlive']

    def setup(self, eng, st, c):
        GroupMaker.setup(self, eng, st, c)
        x = self.x(c)
        st.assume(group_facts(x, ME))

    def ensures(self, c):
        for y in GroupMaker.ensures(self, c):
            yield y
        cm = gf(c.new, c.armci_grp_out, 'comm')
        yield 'described', made_group(c, c.armci_grp_out, cm, cm != w.COMM_NULL(c.eng))


@contract('C12')
class Create(Contract):
    name, params, file = 'ARMCI_Group_create', 'grp_size pid_list group_out', 'groups.c'

    def effects(self, c):
        return None


    def setup(self, eng, st, c):
        self_facts(eng, st)
        cm = gf(st.load, c.glob('ARMCI_GROUP_DEFAULT'), 'comm')
        st.assume(group_facts(GRPOF(cm), ME))

    def requires(self, c):
        d = c.glob('ARMCI_GROUP_DEFAULT')
        for x in parent_ok(c, d):
            if x[1] is not True:
                yield x
        for x in list_ok(c, c.grp_size, c.pid_list):
            yield x
        yield 'out', And(c.group_out > 0, c.group_out + SZ(G) <= c.pre_brk, disjoint(c.group_out, SZ(G), d, SZ(G)),
                         disjoint(c.group_out, SZ(G), c.pid_list, 4 * c.grp_size))

    def modifies(self, c):
        return gfield_mods(c.group_out) + ['nlive']

    def ensures(self, c):
        x = INCL(GRPOF(gf(c.old, c.glob('ARMCI_GROUP_DEFAULT'), 'comm')), c.pid_list, c.grp_size)
        cm = gf(c.new, c.group_out, 'comm')
        mem = GRg(x, ME) >= 0
        yield 'members-get-the-listed-group-of-the-default', Implies(mem, And(cm != w.COMM_NULL(c.eng), GRPOF(cm) == x))
        yield 'others-get-the-empty-group', Implies(Not(mem), cm == w.COMM_NULL(c.eng))
        yield 'described', made_group(c, c.group_out, cm, cm != w.COMM_NULL(c.eng))


@contract('C12')
class Split(Contract):
    name, params, file = 'ARMCIX_Group_split', 'parent color key new_group', 'groups.c'
    emits = ('group_init', 'comm_split')

    def setup(self, eng, st, c):
        cm = gf(st.load, c.parent, 'comm')
        st.assume(group_facts(GRPOF(cm), ME))

    def requires(self, c):
        for x in parent_ok(c, c.parent):
            if x[1] is not True:
                yield x
        yield 'out', And(c.new_group > 0, c.new_group + SZ(G) <= c.pre_brk, disjoint(c.new_group, SZ(G), c.parent, SZ(G)))

    def modifies(self, c):
        return gfield_mods(c.new_group) + ['nlive']

    def ensures(self, c):
        cm = gf(c.new, c.new_group, 'comm')
        g = SPLITG(GRPOF(gf(c.old, c.parent, 'comm')), c.color, c.key)
        und = c.color == UNDEF
        yield 'success', c.ret == 0
        yield 'the-part-with-that-colour-and-key', If(und, cm == w.COMM_NULL(c.eng), And(cm != w.COMM_NULL(c.eng), GRPOF(cm) == g))
        yield 'described', made_group(c, c.new_group, cm, cm != w.COMM_NULL(c.eng))


@contract('C12')
class Dup(Contract):
    name, params, file = 'ARMCIX_Group_dup', 'parent new_group', 'groups.c'
    emits = ('group_init', 'comm_dup')
    setup = Split.setup
    requires = Split.requires
    modifies = Split.modifies

    def ensures(self, c):
        cm = gf(c.new, c.new_group, 'comm')
        yield 'success', c.ret == 0
        yield 'same-members-same-order', And(cm > 0, cm != w.COMM_NULL(c.eng), GRPOF(cm) == GRPOF(gf(c.old, c.parent, 'comm')))
        yield 'described', made_group(c, c.new_group, cm, TRUE)


@contract('C12', 'C16')
class GroupFree(Contract):
    name, params, file = 'ARMCI_Group_free', 'group', 'groups.c'

    def requires(self, c):
        rd, g = c.old, c.group
        cm, nc = gf(rd, g, 'comm'), gf(rd, g, 'noncoll_pgroup_comm')
        null = w.COMM_NULL(c.eng)
        s = comm_self(c.eng)
        yield 'group', And(g > 0, g + SZ(G) <= c.pre_brk, cm > 0, cm != s, nc > 0, nc != s)
        yield 'private-communicator', Implies(And(cm != null, cfg(c, 'noncollective_groups') != 0), And(nc != null, nc != cm))
        a, b = gf(rd, g, 'abs_to_grp'), gf(rd, g, 'grp_to_abs')
        yield 'caches-owned', And(Implies(a != 0, And(a > 0, rd('G:live', a) == 1)), Implies(b != 0, And(b > 0, rd('G:live', b) == 1, a != b)))

    def modifies(self, c):
        a, b = gf(c.old, c.group, 'abs_to_grp'), gf(c.old, c.group, 'grp_to_abs')
        return gfield_mods(c.group) + ['nlive', ('G:live', lambda x: Or(x == a, x == b))]

    def effects(self, c):
        return [('group_free', dict(group=c.group))]

    def ensures(self, c):
        rd, nw, g = c.old, c.new, c.group
        a, b = gf(rd, g, 'abs_to_grp'), gf(rd, g, 'grp_to_abs')
        yield 'empty', And(gf(nw, g, 'rank') == -1, gf(nw, g, 'size') == 0)
        yield 'caches-released', And(Implies(a != 0, nw('G:live', a) == 0), Implies(b != 0, nw('G:live', b) == 0))
        if hasattr(c, 'caller'):
            return
        fr = ev(c, 'comm_free')
        cm, nc = gf(rd, g, 'comm'), gf(rd, g, 'noncoll_pgroup_comm')
        null = w.COMM_NULL(c.eng)
        on = cfg(c, 'noncollective_groups') != 0
        k = IntVal(len(fr))
        yield 'communicators-released', k == If(cm == null, IntVal(0), If(on, IntVal(2), IntVal(1)))
        if fr:
            yield 'own-communicator', Or(*[e['comm'] == cm for e in fr])
        if len(fr) > 1:
            yield 'private-communicator-too', Or(*[e['comm'] == nc for e in fr])


# ---------------------------------------------------------------- topology
def topo(nm, prm, res, ab=None):
    class C(Contract):
        name, params, file = nm, prm, 'topology.c'

        def aborts(self, c):
            return ab(c) if ab else None

        def ensures(self, c):
            yield 'answer', res(c)
    C.__name__ = nm
    contract('C12')(C)


topo('armci_domain_nprocs', 'domain domain_id', lambda c: c.ret == 1)
topo('armci_domain_id', 'domain glob_proc_id', lambda c: c.ret == c.glob_proc_id)
topo('armci_domain_glob_proc_id', 'domain domain_id loc_proc_id', lambda c: c.ret == c.domain_id, lambda c: c.loc_proc_id != 0)
topo('armci_domain_my_id', 'domain', lambda c: c.ret == ME)
topo('armci_domain_count', 'domain', lambda c: c.ret == NP)
topo('armci_domain_same_id', 'domain glob_proc_id', lambda c: (c.ret != 0) == (c.glob_proc_id == ME))
topo('ARMCI_Same_node', 'proc', lambda c: (c.ret != 0) == (c.proc == ME))
