"""Contracts on src/gmr.c and the helpers it relies on."""
from z3 import And, Or, Not, If, IntVal, Implies, Int
from engine.vc import Contract, LoopSpec, fresh, TRUE, FALSE, add_base_hook, select
from . import world as w
from .world import *
from .reg import contract


# ------------------------------------------------------------------ group ranks
def isgrp_req(c, g):
    """g is an initialised ARMCI group (type invariant, see C12 for who builds it)."""
    return w.grp_ok(c.old, g)


@contract('C12', 'C02', 'C03')
class Translate(Contract):
    name = 'ARMCII_Translate_absolute_to_group'
    params = 'group world_rank'
    file = 'internals.c'

    def setup(self, eng, st, c):
        g = GRPOF(grp_comm(st.load, c.group))
        st.assume(group_facts(g, c.world_rank))
        st.assume(wcomm_facts(c.world_rank))
        st.assume(COMMSZ(GRPOF(WCOMM)) == NP)
        cache_hooks(eng, c.group)

    def requires(self, c):
        yield 'group', And(c.group > 0, grp_comm(c.old, c.group) > 0)
        yield 'process id', isproc(c.world_rank)

    def ensures(self, c):
        r = GR(grp_comm(c.old, c.group), c.world_rank)
        yield 'member rank', Implies(r >= 0, c.ret == r)
        yield 'non-member negative', Implies(r < 0, c.ret < 0)


def cache_hooks(eng, g):
    """Type invariant of a group's rank caches, at group address g."""
    gn = w.rec('ARMCI_Group')
    oa, og = off('ARMCI_Group.abs_to_grp'), off('ARMCI_Group.grp_to_abs')

    def h(m, v, rd, sink):
        return [Implies(m == g, Implies(fld(rd, 'ARMCI_Group.grp_to_abs', g) != 0,
                                        And(v != 0, v + 4 * NP <= Int('BRK0'))))]
    hook_field(eng, 'ARMCI_Group.abs_to_grp', h)

    def h2(m, v, rd, sink):
        return [Implies(And(m == g, v != 0), v + 4 * GSZ(grp_comm(rd, g)) <= Int('BRK0'))]
    hook_field(eng, 'ARMCI_Group.grp_to_abs', h2)

    def cell(a, v, sink):
        rd = lambda k, x: select(eng.unit_base, k, x, sink)
        t = fld(rd, 'ARMCI_Group.abs_to_grp', g)
        u = fld(rd, 'ARMCI_Group.grp_to_abs', g)
        cm = grp_comm(rd, g)
        p = (a - t) / 4
        q = (a - u) / 4
        return [Implies(And(u != 0, a >= t, a < t + 4 * NP, a == t + 4 * p), v == GR(cm, p)),
                Implies(And(u != 0, a >= u, a < u + 4 * GSZ(cm), a == u + 4 * q),
                        And(v == GABSg(GRPOF(cm), q)))]
    add_base_hook(eng.unit_base, 'i4', cell)


# ------------------------------------------------------------------ registry
class WalkLookup(LoopSpec):
    """The cursor is a live allocation; the watched one is still ahead or does not match."""

    def cursor(self, L):
        return L.v(L.ptr_name('gmr'))

    def inv(self, L):
        m, c = self.cursor(L), L.ctx
        yield 'cursor-on-list', Or(m == 0, And(isg(c.old, m), POS(m) >= 0, POS(m) < LEN, AT(POS(m)) == m))
        yield 'rest-still-ahead', Or(Not(isg(c.old, c.W)), And(m != 0, POS(m) <= POS(c.W)),
                                     Not(contains(c.old, c.W, c.proc, c.ptr)))


@contract('C01', 'C02', 'C03')
class Lookup(Contract):
    name = 'gmr_lookup'
    params = 'ptr proc'
    file = 'gmr.c'
    loops = {0: WalkLookup()}

    def setup(self, eng, st, c):
        c.W = fresh('watched')
        st.assume(c.W > 0)
        rd = st.load
        st.assume(Implies(isg(rd, c.W), And(POS(c.W) >= 0, POS(c.W) < LEN, AT(POS(c.W)) == c.W)))
        st.assume(gmr_facts(rd, c.W, c.proc))
        slice_hooks(eng, c.proc)

    def requires(self, c):
        yield 'process id', isproc(c.proc)

    def modifies(self, c):
        return []

    def ensures(self, c):
        if hasattr(c, 'W'):          # checking the body: stated for an arbitrary live allocation W
            yield 'found-is-live-and-contains', Implies(c.ret != 0, And(isg(c.old, c.ret),
                                                                       contains(c.old, c.ret, c.proc, c.ptr)))
            yield 'not-found-means-none', Implies(c.ret == 0, Not(And(isg(c.old, c.W),
                                                                     contains(c.old, c.W, c.proc, c.ptr))))
            return
        yield 'lookup', c.ret == OWN(c.ptr, c.proc)
        c.fact(own_facts(c.old, c.ptr, c.proc))
        c.fact(Implies(c.ret != 0, gmr_facts(c.old, c.ret, c.proc)))
        c.fact(Implies(c.ret != 0, gmr_facts(c.old, c.ret, ME)))
        c.fact(Implies(c.ret != 0, grp_at(c.old, c.ret)))


def grp_at(rd, m):
    return Implies(isg(rd, m), And(m > 0, gwin(rd, m) > 0))


def slice_hooks(eng, *procs):
    """Facts about the slices of whichever live allocation is inspected."""
    def fn(m, v, rd, sink):
        return [gmr_facts(rd, m, p) for p in procs]
    hook_field(eng, 'gmr_s.slices', fn)


# ------------------------------------------------------------------ RMA issue
class Typed(Contract):
    file = 'gmr.c'
    allocates = True
    kind = None
    unit_opts = dict(abort_clean=True)
    maxpar = None

    def g(self, c):
        """(origin, ocount, otype, target addr, tcount, ttype, proc)"""

    def setup(self, eng, st, c):
        st.assume(gmr_facts(st.load, c.mreg, c.proc))
        st.assume(gmr_facts(st.load, c.mreg, ME))
        st.assume(wcomm_facts(c.proc))
        org, oc, ot, tgt, tc, tt, proc = self.g(c)
        st.assume(And(contig_facts(ot), contig_facts(tt)))
        handle_setup(eng, st, c)

    def disp(self, c):
        """Displacement into the target memory (MPI_BOTTOM stands for its start)."""
        org, oc, ot, tgt, tc, tt, proc = self.g(c)
        return If(tgt == 0, IntVal(0), tgt - sbase(c.old, c.mreg, proc))

    def inside(self, c):
        org, oc, ot, tgt, tc, tt, proc = self.g(c)
        d, z = self.disp(c), ssize(c.old, c.mreg, proc)
        return And(d >= 0, d < z, d + tc * TEXT(tt) <= z)

    def requires(self, c):
        org, oc, ot, tgt, tc, tt, proc = self.g(c)
        if hasattr(c, 'caller'):
            c.fact(And(contig_facts(ot), contig_facts(tt)))
        yield 'live-allocation', And(c.mreg > 0, isg(c.old, c.mreg))
        yield 'process id', isproc(c.proc)
        yield 'counts', And(oc >= 0, tc >= 0)
        yield 'local-buffer', Or(org != 0, oc == 0)
        yield 'matching-lengths', oc * TSIZE(ot) == tc * TSIZE(tt)
        yield 'target-type', And(TLB(tt) >= 0, TEXT(tt) >= 0, Or(TEXT(tt) < (1 << 31), And(tc <= 1, TEXT(tt) < (1 << 61))))
        yield 'local-memory', Or(Not(contig(ot)), buf_ok(c, org, oc * TEXT(ot)))
        d = self.disp(c)
        yield 'target-type-from-the-start', Or(TLB(tt) == 0, And(d >= 0, d + TLB(tt) + tc * TEXT(tt) <= ssize(c.old, c.mreg, proc)))
        yield 'local-type-extent', TEXT(ot) >= 0
        for x in hreq(c):
            yield x
        yield 'handle-not-in-buffer', Or(Not(contig(ot)), hdl_disjoint(c, c.handle, org, oc * TEXT(ot)))
        for d, n, t in self.dests(c):
            yield 'handle-not-in-result', Or(Not(contig(t)), hdl_disjoint(c, c.handle, d, n))
            yield 'result-memory', Or(Not(contig(t)), buf_ok(c, d, n))

    def aborts(self, c):
        return Not(self.inside(c))

    def modifies(self, c):
        j = c.g0('Ln')
        m = ['Ln'] + log_modifies(j, j + 1)
        for d, n, t in self.dests(c):
            m += data_mods(d + TLB(t), n)
        return m + hmods(c)

    def dests(self, c):
        return []

    def ensures(self, c):
        org, oc, ot, tgt, tc, tt, proc = self.g(c)
        j = c.g0('Ln')
        rd = c.old
        d = self.disp(c)
        yield 'returns-zero', c.ret == 0
        yield 'inside-target-memory', And(self.inside(c), d + TLB(tt) + tc * TEXT(tt) <= ssize(rd, c.mreg, proc))
        yield 'exactly-one-operation', c.g1('Ln') == j + 1
        yield 'operation-kind', L(c.new, 'kind', j) == self.kind
        yield 'window', L(c.new, 'win', j) == gwin(rd, c.mreg)
        yield 'target-rank', L(c.new, 'rank', j) == GR(gcomm(rd, c.mreg), proc)
        yield 'target-address', L(c.new, 'disp', j) == d
        yield 'target-extent', And(L(c.new, 'tc', j) == tc, L(c.new, 'tt', j) == tt)
        yield 'local-buffer', And(L(c.new, 'org', j) == org, L(c.new, 'oc', j) == oc, L(c.new, 'ot', j) == ot,
                                  L(c.new, 'len', j) == If(contig(ot), oc * TEXT(ot), IntVal(0)))
        yield 'outstanding', L(c.new, 'done', j) == 0
        for x in self.more(c, j):
            yield x
        if self.kind in (PUT, ACC):
            for f in WATCH:
                k, a = watch_addr(f, org)
                yield 'data-' + f, Implies(And(contig(ot), watched_inside(f, oc * TEXT(ot))), L(c.new, f, j) == c.old(k, a))
        for x in hens(c, j):
            yield x

    def more(self, c, j):
        return []

    def clauses_dest(self, c, d, n, t):
        j = c.g0('Ln')
        for k in sorted(DATA_KEYS):
            yield 'fetched-' + k, k, (lambda a, k=k: Implies(And(contig(t), a >= d, a < d + n), c.new(k, a) == RB[k](j, a - d)))


def h_fields(rd, h):
    return (fld(rd, 'armci_hdl_t.batch_size', h), fld(rd, 'armci_hdl_t.single_request', h),
            fld(rd, 'armci_hdl_t.request_array', h))


def hdl_ok(c, h, rd=None):
    """A usable handle: `batch` requests recorded, and storage for them."""
    rd = rd or c.old
    n, s, a = h_fields(rd, h)
    null = REQUEST_NULL(c.eng)
    return And(n >= 0, n < (1 << 30), Implies(n != 1, s == null), Implies(n == 1, And(s != null, s > 0)),
               Implies(n > 1, And(a > 0, rd('G:live', a) == 1, rd('G:bsz', a) == 8 * n)),
               Implies(n > 1, a + 8 * n <= c.pre_brk))


def hdl_disjoint(c, h, a, n):
    """The user's data is not the handle's own storage."""
    cnt, s, arr = h_fields(c.old, h)
    return Or(h == 0, cnt <= 1, disjoint(arr, 8 * cnt, a, n))


def hreq(c):
    if not hasattr(c, 'handle'):
        return
    yield 'handle-usable', Or(c.handle == 0, And(c.handle > 0, hdl_ok(c, c.handle)))


def hdl_region(c):
    n, s, a = h_fields(c.old, c.handle)
    return n, s, a


def hmods(c):
    if not hasattr(c, 'handle'):
        return []
    h = c.handle
    r = w.rec('armci_hdl_t')
    o = []
    for f in ('batch_size', 'single_request', 'request_array'):
        of = off('armci_hdl_t.' + f)
        o.append((r + '.' + f, (lambda a, of=of: And(h != 0, a == h + of))))
    n, s, arr = h_fields(c.old, h)
    j = c.g0('Ln')
    o.append(('G:live', lambda a: And(h != 0, n > 1, a == arr)))
    o.append(('ptr', lambda a: And(h != 0, n >= 1, a >= c.pre_brk, a < STACK0)))
    return o + ['nlive']


def hens(c, j):
    """The new request is recorded on the handle, after the ones already there."""
    if not hasattr(c, 'handle'):
        return
    h = c.handle
    n, s, a = h_fields(c.old, h)
    n1, s1, a1 = h_fields(c.new, h)
    yield 'handle-counts-it', Implies(h != 0, n1 == n + 1)
    yield 'handle-first', Implies(And(h != 0, n == 0), s1 == REQ(j))
    yield 'handle-last', Implies(And(h != 0, n >= 1), c.new('ptr', a1 + 8 * n) == REQ(j))
    yield 'handle-single-cleared', Implies(And(h != 0, n >= 1), s1 == REQUEST_NULL(c.eng))
    yield 'handle-storage', Implies(And(h != 0, n >= 1), And(a1 > 0, c.new('G:live', a1) == 1, c.new('G:bsz', a1) == 8 * (n + 1),
                                    Or(a1 >= c.pre_brk)))
    yield 'request', Implies(h != 0, And(L(c.new, 'req', j) == REQ(j), RJ(REQ(j)) == j, REQ(j) != REQUEST_NULL(c.eng), REQ(j) > 0))
    yield 'handle-block-counted', c.g1('nlive') == c.g0('nlive') + If(And(h != 0, n == 1), IntVal(1), IntVal(0))
    if c.post_brk is not None:
        yield 'handle-storage-new', Implies(And(h != 0, n >= 1), And(a1 >= c.pre_brk, a1 + 8 * (n + 1) <= c.post_brk))
    yield ('handle-keeps-earlier', 'ptr', lambda x: Implies(And(h != 0, n >= 1, x >= a1, x < a1 + 8 * n, (x - a1) % 8 == 0),
           c.new('ptr', x) == If(n == 1, s, c.old('ptr', a + (x - a1)))))


def handle_setup(eng, st, c):
    pass


@contract('C03', 'C02', 'C08')
class PutTyped(Typed):
    name = 'gmr_put_typed'
    params = 'mreg src src_count src_type dst dst_count dst_type proc handle'
    kind = PUT

    def g(self, c):
        return c.src, c.src_count, c.src_type, c.dst, c.dst_count, c.dst_type, c.proc


@contract('C03', 'C02', 'C08')
class GetTyped(Typed):
    name = 'gmr_get_typed'
    params = 'mreg src src_count src_type dst dst_count dst_type proc handle'
    kind = GET

    def g(self, c):
        return c.dst, c.dst_count, c.dst_type, c.src, c.src_count, c.src_type, c.proc

    def requires(self, c):
        for x in Typed.requires(self, c):
            yield x
        yield 'local-type', TEXT(c.dst_type) >= 0

    def dests(self, c):
        return [(c.dst, c.dst_count * TEXT(c.dst_type), c.dst_type)]

    def ensures(self, c):
        for x in Typed.ensures(self, c):
            yield x
        for x in self.clauses_dest(c, c.dst, c.dst_count * TEXT(c.dst_type), c.dst_type):
            yield x


@contract('C03', 'C02', 'C04', 'C08')
class AccTyped(Typed):
    name = 'gmr_accumulate_typed'
    params = 'mreg src src_count src_type dst dst_count dst_type proc handle'
    kind = ACC

    def g(self, c):
        return c.src, c.src_count, c.src_type, c.dst, c.dst_count, c.dst_type, c.proc

    def more(self, c, j):
        yield 'combines-by-sum', L(c.new, 'op', j) == c.glob('ompi_mpi_op_sum')


@contract('C02', 'C08')
class GaccTyped(Typed):
    name = 'gmr_get_accumulate_typed'
    params = 'mreg src src_count src_type out out_count out_type dst dst_count dst_type op proc handle'
    kind = GETACC

    def g(self, c):
        return c.src, c.src_count, c.src_type, c.dst, c.dst_count, c.dst_type, c.proc

    def requires(self, c):
        for x in Typed.requires(self, c):
            yield x
        yield 'result-type', And(contig(c.out_type), contig(c.src_type), TLB(c.out_type) == 0, TEXT(c.out_type) >= 0, TEXT(c.out_type) == TSIZE(c.out_type))
        yield 'operation', c.op != c.glob('ompi_mpi_op_no_op')

    def dests(self, c):
        return [(c.out, c.out_count * TEXT(c.out_type), c.out_type)]

    def more(self, c, j):
        yield 'operation-passed', L(c.new, 'op', j) == c.op
        yield 'result-buffer', L(c.new, 'res', j) == c.out


@contract('C11', 'C02')
class FetchAndOp(Contract):
    name = 'gmr_fetch_and_op'
    params = 'mreg src out dst type op proc'
    file = 'gmr.c'
    unit_opts = dict(abort_clean=True)

    def setup(self, eng, st, c):
        st.assume(gmr_facts(st.load, c.mreg, c.proc))
        st.assume(gmr_facts(st.load, c.mreg, ME))

    def requires(self, c):
        yield 'live-allocation', And(c.mreg > 0, isg(c.old, c.mreg))
        yield 'process id', isproc(c.proc)
        yield 'buffers', And(c.src != 0, c.out != 0, buf_ok(c, c.src, TSIZE(c.type)), buf_ok(c, c.out, TSIZE(c.type)))
        yield 'type', And(TLB(c.type) == 0, contig(c.type), TEXT(c.type) == TSIZE(c.type), TSIZE(c.type) > 0, TSIZE(c.type) < 64)
        yield 'operation', c.op != c.glob('ompi_mpi_op_no_op')

    def aborts(self, c):
        return Not(in_range(c.old, c.mreg, c.proc, c.dst, TSIZE(c.type)))

    def modifies(self, c):
        j = c.g0('Ln')
        return ['Ln'] + log_modifies(j, j + 1) + [('G:L.done', None)] + data_mods(c.out, TSIZE(c.type))

    def effects(self, c):
        return None

    def ensures(self, c):
        j = c.g0('Ln')
        rd = c.old
        yield 'earlier-operations-keep-progress', 'G:L.done', lambda i: Implies(i < j, L(c.new, 'done', i) >= L(c.old, 'done', i))
        yield 'returns-zero', c.ret == 0
        yield 'inside-target-memory', in_range(rd, c.mreg, c.proc, c.dst, TSIZE(c.type))
        yield 'one-atomic-operation', And(c.g1('Ln') == j + 1, L(c.new, 'kind', j) == GETACC)
        yield 'operation-and-type', And(L(c.new, 'op', j) == c.op, L(c.new, 'tt', j) == c.type, L(c.new, 'tc', j) == 1,
                                        L(c.new, 'ot', j) == c.type, L(c.new, 'oc', j) == 1)
        yield 'target', And(L(c.new, 'win', j) == gwin(rd, c.mreg),
                            L(c.new, 'rank', j) == GR(gcomm(rd, c.mreg), c.proc),
                            L(c.new, 'disp', j) == c.dst - sbase(rd, c.mreg, c.proc))
        yield 'operand', And(L(c.new, 'org', j) == c.src, L(c.new, 'res', j) == c.out)
        for f in ('wi', 'wl'):
            k, a = watch_addr(f, c.src)
            yield 'operand-value-' + f, Implies(watched_inside(f, TSIZE(c.type)), L(c.new, f, j) == c.old(k, a))
        yield 'complete-on-return', L(c.new, 'done', j) >= 1
        for k in sorted(DATA_KEYS):
            yield 'old-value-' + k, k, (lambda a, k=k: Implies(And(a >= c.out, a < c.out + TSIZE(c.type)), c.new(k, a) == RB[k](j, a - c.out)))


# ------------------------------------------------------------------ completion
class FlushBase(Contract):
    file = 'gmr.c'

    def modifies(self, c):
        return [('G:L.done', None)]

    def effects(self, c):
        return None

    def level(self, c):
        return If(c.local_only == 0, IntVal(2), IntVal(1))


def done_clause(c, match, level, exact=True):
    def f(j):
        d0, d1 = L(c.old, 'done', j), L(c.new, 'done', j)
        m = And(j < c.g0('Ln'), match(j))
        return And(Implies(m, d1 >= level), d1 >= d0)
    return ('completes-matching-operations', 'G:L.done', f)


@contract('C03', 'C10', 'C08', 'C18')
class Flush(FlushBase):
    name = 'gmr_flush'
    params = 'mreg proc local_only'

    def setup(self, eng, st, c):
        for p in (c.proc, ME):
            st.assume(gmr_facts(st.load, c.mreg, p))

    def requires(self, c):
        yield 'live-allocation', And(c.mreg > 0, isg(c.old, c.mreg))
        yield 'process id', isproc(c.proc)

    def ensures(self, c):
        yield 'returns-zero', c.ret == 0
        wn, r = gwin(c.old, c.mreg), GR(gcomm(c.old, c.mreg), c.proc)
        yield done_clause(c, lambda j: And(r >= 0, L(c.old, 'win', j) == wn, L(c.old, 'rank', j) == r), self.level(c))


@contract('C03', 'C10', 'C08')
class FlushAll(FlushBase):
    name = 'gmr_flushall'
    params = 'mreg local_only'

    def setup(self, eng, st, c):
        st.assume(gmr_facts(st.load, c.mreg, ME))

    def requires(self, c):
        yield 'live-allocation', And(c.mreg > 0, isg(c.old, c.mreg))

    def ensures(self, c):
        yield 'returns-zero', c.ret == 0
        wn = gwin(c.old, c.mreg)
        yield done_clause(c, lambda j: L(c.old, 'win', j) == wn, self.level(c))
