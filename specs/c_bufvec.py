"""Contracts on the private-copy machinery for buffer lists (src/buffer.c)."""
import z3
from z3 import And, Or, Not, If, IntVal, Implies, Int, Function
from engine.vc import Contract, STACK0, LoopSpec, fresh, TRUE, FALSE, F32, F64, select, add_base_hook
from . import world as w
from .world import *
from .reg import contract
from .c_buffer import acc_valid, acc_unit, identity_scale, product, ACCT, ACC_KEY, WKEY, acc, scaled_at
from .c_gmr import slice_hooks

TK = Function('TK', ISORT, ISORT)        # private block -> list position it stands for


FRESHFROM = Function('FRESHFROM', ISORT, ISORT)   # private list -> its blocks lie above, the user's buffers below
SEPARATE = Function('SEPARATE', ISORT, ISORT, ISORT, z3.BoolSort())   # (list, n, size): segments do not overlap


def guard(c):
    return cfg(c, 'shr_buf_method') != IntVal(enumv(c.eng, 'ARMCII_SHR_BUF_NOGUARD'))


def lem(*fs):
    """An arithmetic fact, checked in isolation before it is used."""
    for f in fs:
        s = z3.Solver()
        s.set('timeout', 20000)
        s.add(Not(f))
        r = s.check()
        if r != z3.unsat:
            raise Exception('lemma not valid: %s' % f)
    return And(*fs)


def cell(k):
    return 8 * k


def owner(o):
    return OWN(o, ME)


def same_at(new, old, dst, src, n):
    """dst holds what src held, at the watched byte / element."""
    out = []
    for f in WATCH:
        k, a = watch_addr(f, dst)
        _, b = watch_addr(f, src)
        out.append(Implies(watched_inside(f, n), new(k, a) == old(k, b)))
    return And(*out)


class VecContract(Contract):
    file = 'buffer.c'
    unit_opts = dict()

    def watch(self, c):
        """List positions the postconditions are stated for (arbitrary)."""
        if hasattr(c, 'caller'):
            return getattr(c.eng.unit_ctx, 'watch_idx', [IntVal(0)])
        return [c.K]

    def lists(self, c):
        yield 'sizes', And(c.count >= 0, c.count < (1 << 27), c.size >= 0)
        yield 'list-memory', And(c.orig_bufs > 0, buf_ok(c, c.orig_bufs, 8 * c.count))

        def f(a):
            k = (a - c.orig_bufs) / 8
            return Implies(And(k >= 0, k < c.count, a == c.orig_bufs + 8 * k), And(c.old('ptr', a) > 0, buf_ok(c, c.old('ptr', a), c.size), self.below(c, c.old('ptr', a))))
        yield 'user-buffers', 'ptr', f

    def below(self, c, o):
        return TRUE

    def setup(self, eng, st, c):
        c.K, c.K2 = fresh('watchK'), fresh('watchK2')
        slice_hooks(eng, ME)
        for k in (c.K, c.K2):
            st.assume(own_facts(st.load, st.load('ptr', c.orig_bufs + 8 * k), ME))


# ---------------------------------------------------------------- prepare (read / write)
class PrepNull(LoopSpec):
    def modifies(self, L_):
        nb, n = L_.v('new_bufs'), L_.ctx.count
        return [('ptr', lambda a: And(a >= nb, a < nb + 8 * n))] + L_.counter_mods()

    def inv(self, L_):
        yield 'counter', L_.idx() >= 0


class PrepLoop(LoopSpec):
    data = True
    events = True

    def modifies(self, L_):
        nb, n = L_.v('new_bufs'), L_.ctx.count
        return [('ptr', lambda a: And(a >= nb, a < nb + 8 * n)), 'nlive'] + L_.counter_mods()

    def inv(self, L_):
        c = L_.ctx
        i, nb = L_.idx(), L_.v('new_bufs')
        yield 'counter', And(i >= 0, i <= c.count)
        K, K2 = c.K, c.K2
        con = L_.eng.unit_contract
        at = lambda k: L_.mem('ptr', nb + 8 * k)
        yield 'prepared', Implies(And(K >= 0, K < i), con.kept(c, L_.mem, c.old('ptr', c.orig_bufs + 8 * K), at(K), L_.cur.brk))
        mv = lambda k: And(k >= 0, k < i, at(k) != c.old('ptr', c.orig_bufs + 8 * k))
        yield 'separate-blocks', Implies(And(K < K2, mv(K), mv(K2)), at(K) + c.size <= at(K2))
        yield 'list-block', And(L_.mem('G:live', nb) == 1, Implies(mv(K), at(K) >= nb + 8 * c.count))
        if 'num_moved' in L_.cur.fr.names:
            yield 'moved-count', And(L_.v('num_moved') >= 0, L_.v('num_moved') <= i)


class PrepRead(VecContract):
    allocates = True
    copies = True
    params = 'orig_bufs new_bufs_ptr count size'
    loops = {0: PrepNull(), 1: PrepLoop()}

    def kept(self, c, rd, o, b, brk):
        mv = [b >= c.pre_brk, rd('G:live', b) == 1, rd('G:bsz', b) >= c.size, b + c.size < brk]
        if self.copies:
            mv.append(same_at(rd, c.old, b, o, c.size))
        return If(owner(o) == 0, b == o, And(*mv))

    def requires(self, c):
        for x in self.lists(c):
            yield x
        yield 'out', And(c.new_bufs_ptr > 0, disjoint(c.new_bufs_ptr, 8, c.orig_bufs, 8 * c.count), buf_ok(c, c.new_bufs_ptr, 8))

    def modifies(self, c):
        return [('ptr', lambda a: a == c.new_bufs_ptr), 'nlive']

    def effects(self, c):
        return [('prepare', dict(orig=c.orig_bufs, count=c.count, size=c.size))]

    def ensures(self, c):
        nb = c.new('ptr', c.new_bufs_ptr)
        g = guard(c)
        yield 'unguarded-uses-originals', Implies(Not(g), nb == c.orig_bufs)
        if hasattr(c, 'caller'):
            c.fact(Implies(g, FRESHFROM(nb) == c.pre_brk))
            if not z3.is_int_value(c.count):
                def each(a):
                    k = (a - nb) / 8
                    o, b = c.old('ptr', c.orig_bufs + 8 * k), c.new('ptr', a)
                    return Implies(And(g, k >= 0, k < c.count, a == nb + 8 * k), And(
                        own_facts(c.old, o, ME), self.kept(c, c.new, o, b, c.post_brk),
                        Implies(owner(o) != 0, And(TK(b) == k, Or(b + c.size <= nb, b >= nb + 8 * c.count), b != nb, b > 0))))
                yield 'every-copy', 'ptr', each
        yield 'own-list', Implies(g, And(nb >= c.pre_brk, nb + 8 * c.count <= c.post_brk, c.new('G:live', nb) == 1))
        if not hasattr(c, 'caller'):
            K, K2 = c.K, c.K2
            at = lambda k: c.new('ptr', nb + 8 * k)
            mv = lambda k: And(k >= 0, k < c.count, at(k) != c.old('ptr', c.orig_bufs + 8 * k))
            yield 'one-block-each', Implies(And(g, K < K2, mv(K), mv(K2)), at(K) + c.size <= at(K2))
            yield 'list-separate', Implies(And(g, mv(K)), And(at(K) != nb, Or(at(K) + c.size <= nb, at(K) >= nb + 8 * c.count)))
        for K in self.watch(c):
            o, b = c.old('ptr', c.orig_bufs + 8 * K), c.new('ptr', nb + 8 * K)
            yield 'private-and-faithful', Implies(And(g, K >= 0, K < c.count), self.kept(c, c.new, o, b, c.post_brk))
            if hasattr(c, 'caller'):
                # distinct blocks: some injection back to list positions exists
                c.fact(own_facts(c.old, o, ME))
                yield 'injection', Implies(And(g, K >= 0, K < c.count, owner(o) != 0),
                                           And(TK(b) == K, FRESHFROM(nb) == c.pre_brk, Or(b + c.size <= nb, b >= nb + 8 * c.count), b != nb, b > 0))


@contract('C09', 'C14', 'C15')
class PrepareRead(PrepRead):
    name = 'ARMCII_Buf_prepare_read_vec'


@contract('C09', 'C15')
class PrepareWrite(PrepRead):
    name = 'ARMCII_Buf_prepare_write_vec'
    copies = False


# ---------------------------------------------------------------- finish (read / write)
class FinLoop(LoopSpec):
    events = True

    def modifies(self, L_):
        c = L_.ctx
        con = L_.eng.unit_contract
        return con.freed_mods(c) + con.data_mods(c) + ['nlive'] + L_.counter_mods()

    def lemmas(self, L_):
        con = L_.eng.unit_contract
        if con.hands_back:
            for f in con.pair_facts(L_.ctx, L_.ctx.K, L_.idx()):
                yield f

    def inv(self, L_):
        c = L_.ctx
        con = L_.eng.unit_contract
        i = L_.idx()
        yield 'counter', And(i >= 0, i <= c.count)
        if con.hands_back:
            K = c.K
            o, b = c.old('ptr', c.orig_bufs + 8 * K), c.old('ptr', c.new_bufs + 8 * K)
            yield 'not-yet-overwritten', Implies(And(K >= i, K < c.count, o != b), same_at(L_.mem, c.old, b, b, c.size))
            yield 'written-back', Implies(And(con.sep(c), K >= 0, K < i, o != b), same_at(L_.mem, c.old, o, b, c.size))
            yield 'in-place-data-kept', Implies(And(con.sep(c), K >= 0, K < c.count, o == b), same_at(L_.mem, c.old, o, o, c.size))

        def live(a):
            k = TK(a)
            gone = And(k >= 0, k < i, c.old('ptr', c.new_bufs + 8 * k) == a, c.old('ptr', c.orig_bufs + 8 * k) != a)
            return L_.mem('G:live', a) == If(gone, IntVal(0), c.old('G:live', a))
        yield 'released-so-far', 'G:live', live


class FinRead(VecContract):
    params = 'orig_bufs new_bufs count size'
    loops = {0: FinLoop()}
    hands_back = False

    def setup(self, eng, st, c):
        VecContract.setup(self, eng, st, c)

    def moved(self, c, k):
        return And(k >= 0, k < c.count, c.old('ptr', c.new_bufs + 8 * k) != c.old('ptr', c.orig_bufs + 8 * k))

    def below(self, c, o):
        return Implies(guard(c), Or(o + c.size <= FRESHFROM(c.new_bufs), o >= STACK0))

    def freed(self, c, a):
        k = TK(a)
        return Or(a == c.new_bufs, And(self.moved(c, k), c.old('ptr', c.new_bufs + 8 * k) == a))

    def freed_mods(self, c):
        g = guard(c)
        return [('G:live', lambda a: And(g, self.freed(c, a)))]

    def data_mods(self, c):
        return []

    def modifies(self, c):
        return self.freed_mods(c) + self.data_mods(c) + ['nlive']

    def requires(self, c):
        for x in self.lists(c):
            yield x
        g = guard(c)
        yield 'private-list', If(g, And(c.new_bufs > 0, c.new_bufs != c.orig_bufs, c.old('G:live', c.new_bufs) == 1, buf_ok(c, c.new_bufs, 8 * c.count),
                                        disjoint(c.new_bufs, 8 * c.count, c.orig_bufs, 8 * c.count)), c.new_bufs == c.orig_bufs)

        def f(a):
            k = (a - c.new_bufs) / 8
            o, b = c.old('ptr', c.orig_bufs + 8 * k), c.old('ptr', a)
            return Implies(And(g, k >= 0, k < c.count, a == c.new_bufs + 8 * k), Or(o == b, self.private(c, k, o, b)))
        yield 'private-buffers', 'ptr', f

    def private(self, c, k, o, b):
        return And(b >= FRESHFROM(c.new_bufs), b + c.size < STACK0, b > 0, TK(b) == k, c.old('G:live', b) == 1, b != c.new_bufs)

    def effects(self, c):
        return [('finish', dict(orig=c.orig_bufs, new=c.new_bufs, count=c.count, size=c.size))]

    def ensures(self, c):
        g = guard(c)
        yield 'list-released', Implies(g, c.new('G:live', c.new_bufs) == 0)
        for K in self.watch(c):
            b = c.old('ptr', c.new_bufs + 8 * K)
            yield 'copies-released', Implies(And(g, self.moved(c, K)), c.new('G:live', b) == 0)


@contract('C09', 'C14', 'C15')
class FinishRead(FinRead):
    name = 'ARMCII_Buf_finish_read_vec'


@contract('C09', 'C14', 'C15')
class FinishWrite(FinRead):
    name = 'ARMCII_Buf_finish_write_vec'
    hands_back = True

    def data_mods(self, c):
        # user buffers that were replaced: they lie in global memory
        g = guard(c)
        one = z3.is_int_value(c.count) and c.count.as_long() == 1
        o = c.old('ptr', c.orig_bufs)
        if one:
            return [(k, lambda a: And(g, self.moved(c, IntVal(0)), a >= o, a < o + c.size)) for k in sorted(DATA_KEYS)]
        return [(k, lambda a: And(g, a < c.pre_brk)) for k in sorted(DATA_KEYS)]

    def setup(self, eng, st, c):
        FinRead.setup(self, eng, st, c)
        st.assume(Implies(self.moved(c, c.K), OWN(st.load('ptr', c.orig_bufs + 8 * c.K), ME) != 0))

    def pair_facts(self, c, k, i):
        """Definition of SEPARATE and of a private copy, at positions k and i."""
        o = lambda x: c.old('ptr', c.orig_bufs + 8 * x)
        b = lambda x: c.old('ptr', c.new_bufs + 8 * x)
        both = And(k >= 0, k < c.count, i >= 0, i < c.count)
        yield Implies(And(both, k != i, Or(c.count <= 1, SEPARATE(c.orig_bufs, c.count, c.size))), disjoint(o(k), c.size, o(i), c.size))

    def sep(self, c):
        """The user's segments do not overlap (otherwise their final contents are undefined)."""
        return Or(c.count <= 1, SEPARATE(c.orig_bufs, c.count, c.size))

    def private(self, c, k, o, b):
        rd = c.old
        return And(FinRead.private(self, c, k, o, b), rd('G:bsz', b) >= c.size, buf_ok(c, b, c.size),
                   OWN(o, ME) != 0, disjoint(b, c.size, c.new_bufs, 8 * c.count))

    def ensures(self, c):
        for x in FinRead.ensures(self, c):
            yield x
        g = guard(c)
        for K in self.watch(c):
            o, b = c.old('ptr', c.orig_bufs + 8 * K), c.old('ptr', c.new_bufs + 8 * K)
            yield 'data-handed-back', Implies(And(self.sep(c), g, K >= 0, K < c.count, o != b), same_at(c.new, c.old, o, b, c.size))
            yield 'in-place-data-kept', Implies(And(self.sep(c), K >= 0, K < c.count, Or(o == b, Not(g))), same_at(c.new, c.old, o, o, c.size))


# ---------------------------------------------------------------- accumulate
_lem = []


def mul_lemma(a, b, s):
    """a < b, s >= 0  =>  a*s + s <= b*s ; 0 <= a, s  =>  0 <= a*s"""
    if not _lem:
        x, y, z = z3.Ints('lx ly lz')
        lem(Implies(And(x < y, z >= 0), x * z + z <= y * z), Implies(And(x >= 0, z >= 0), x * z >= 0))
        _lem.append(1)
    return And(Implies(And(a < b, s >= 0), a * s + s <= b * s), Implies(And(a >= 0, s >= 0), a * s >= 0))


class AccPrepLoop(LoopSpec):
    events = True

    def modifies(self, L_):
        c = L_.ctx
        nb = L_.v('new_bufs')
        m = [('ptr', lambda a: And(a >= nb, a < nb + 8 * c.count)), 'nlive'] + L_.counter_mods()
        return m + (L_.eng.unit_contract.extra(c, L_) if self.scaled else [])

    def lemmas(self, L_):
        c = L_.ctx
        i = L_.idx()
        if self.scaled:
            for a, b in ((c.K, i), (c.K, c.count), (i, c.count), (i, c.K)):
                yield mul_lemma(a, b, c.size)

    def inv(self, L_):
        c = L_.ctx
        i, nb = L_.idx(), L_.v('new_bufs')
        con = L_.eng.unit_contract
        yield 'counter', And(i >= 0, i <= c.count)
        K, K2 = c.K, c.K2
        at = lambda k: L_.mem('ptr', nb + 8 * k)
        base = L_.mem('ptr', nb + 8 * c.count)
        o = c.old('ptr', c.orig_bufs + 8 * K)
        if self.scaled:
            yield 'gathered', And(base == L_.emem('ptr', nb + 8 * c.count), Implies(And(K >= 0, K < i), con.gathered(c, L_.mem, o, at(K), base, K)))
            yield 'blocks-live', And(L_.mem('G:live', nb) == 1, L_.mem('G:live', base) == 1)
        else:
            yield 'no-gather', base == 0
            mv = lambda k: And(k >= 0, k < i, at(k) != c.old('ptr', c.orig_bufs + 8 * k))
            yield 'prepared', Implies(And(K >= 0, K < i), con.kept(c, L_.mem, o, at(K), L_.cur.brk))
            yield 'separate-blocks', Implies(And(K < K2, mv(K), mv(K2)), at(K) + c.size <= at(K2))
            yield 'list-block', And(L_.mem('G:live', nb) == 1, Implies(mv(K), at(K) >= nb + 8 * c.count + 8))
            if 'num_moved' in L_.cur.fr.names:
                yield 'moved-count', And(L_.v('num_moved') >= 0, L_.v('num_moved') <= i)


class AccGather(AccPrepLoop):
    scaled = True


class AccCopy(AccPrepLoop):
    scaled = False


@contract('C04', 'C09')
class PrepareAcc(VecContract):
    name = 'ARMCII_Buf_prepare_acc_vec'
    params = 'orig_bufs new_bufs_ptr count size datatype scale'
    allocates = True
    loops = {0: AccGather(), 1: AccCopy()}

    def extra(self, c, L_):
        b = L_.emem('ptr', L_.v('new_bufs') + 8 * c.count)
        return [(k, lambda a: And(a >= b, a < b + c.count * c.size)) for k in sorted(DATA_KEYS)]

    def setup(self, eng, st, c):
        VecContract.setup(self, eng, st, c)
        for a, b in ((c.K, c.count), (c.K, c.K2), (c.K2, c.count)):
            st.assume(mul_lemma(a, b, c.size))

    def gathered(self, c, rd, o, b, base, k):
        return And(b == base + k * c.size, scaled_at(c, rd, c.old, b, o, c.size))

    def kept(self, c, rd, o, b, brk):
        return If(Or(Not(guard(c)), owner(o) == 0), b == o,
                  And(b >= c.pre_brk, rd('G:live', b) == 1, rd('G:bsz', b) >= c.size, b + c.size < brk,
                      same_at(rd, c.old, b, o, c.size)))

    def requires(self, c):
        for x in self.lists(c):
            yield x
        yield 'out', And(c.new_bufs_ptr > 0, disjoint(c.new_bufs_ptr, 8, c.orig_bufs, 8 * c.count), buf_ok(c, c.new_bufs_ptr, 8))
        yield 'scale', And(c.scale > 0, buf_ok(c, c.scale, 16))
        yield 'whole-elements', Implies(Or(c.datatype == acc(c, 'CPL'), c.datatype == acc(c, 'DCP')), c.size % (2 * acc_unit(c, c.datatype)) == 0)
        if not hasattr(c, 'caller'):
            yield 'gather-fits', c.count * c.size < (1 << 60)

    def aborts(self, c):
        return Or(Not(acc_valid(c, c.datatype)), And(c.count > 0, c.size % acc_unit(c, c.datatype) != 0))

    def modifies(self, c):
        return [('ptr', lambda a: a == c.new_bufs_ptr), 'nlive']

    def effects(self, c):
        return [('prepare_acc', dict(orig=c.orig_bufs, count=c.count, size=c.size))]

    def ensures(self, c):
        nb = c.new('ptr', c.new_bufs_ptr)
        n = c.new
        base = n('ptr', nb + 8 * c.count)
        scaled = Not(identity_scale(c, c.old, c.datatype, c.scale))
        yield 'known-type', acc_valid(c, c.datatype)
        yield 'own-list', And(nb >= c.pre_brk, nb + 8 * c.count + 8 <= c.post_brk, n('G:live', nb) == 1)
        yield 'gathers-exactly-when-scaled', (base != 0) == scaled
        yield 'gather-block', Implies(scaled, And(base >= nb + 8 * c.count + 8, n('G:live', base) == 1, base + c.count * c.size <= c.post_brk))
        if not hasattr(c, 'caller'):
            K, K2 = c.K, c.K2
            at = lambda k: n('ptr', nb + 8 * k)
            mv = lambda k: And(k >= 0, k < c.count, at(k) != c.old('ptr', c.orig_bufs + 8 * k))
            yield 'one-block-each', Implies(And(Not(scaled), K < K2, mv(K), mv(K2)), at(K) + c.size <= at(K2))
            yield 'list-separate', Implies(And(Not(scaled), mv(K)), And(at(K) != nb, Or(at(K) + c.size <= nb, at(K) >= nb + 8 * c.count + 8)))
        else:
            c.fact(FRESHFROM(nb) == c.pre_brk)
            if not z3.is_int_value(c.count):
                def each(a):
                    k = (a - nb) / 8
                    o, b = c.old('ptr', c.orig_bufs + 8 * k), n('ptr', a)
                    return Implies(And(k >= 0, k < c.count, a == nb + 8 * k), And(
                        own_facts(c.old, o, ME), mul_lemma(k, c.count, c.size), mul_lemma(IntVal(-1), k, c.size),
                        Implies(scaled, self.gathered(c, n, o, b, base, k)),
                        Implies(Not(scaled), And(self.kept(c, n, o, b, c.post_brk),
                                                 Implies(b != o, And(TK(b) == k, b > 0, b != nb, Or(b + c.size <= nb, b >= nb + 8 * c.count + 8)))))))
                yield 'every-copy', 'ptr', each
        for K in self.watch(c):
            if hasattr(c, 'caller'):
                c.fact(mul_lemma(K, c.count, c.size))
                c.fact(own_facts(c.old, c.old('ptr', c.orig_bufs + 8 * K), ME))
            o, b = c.old('ptr', c.orig_bufs + 8 * K), n('ptr', nb + 8 * K)
            inr = And(K >= 0, K < c.count)
            yield 'scaled-copy', Implies(And(scaled, inr), self.gathered(c, n, o, b, base, K))
            yield 'private-and-faithful', Implies(And(Not(scaled), inr), self.kept(c, n, o, b, c.post_brk))
            if hasattr(c, 'caller'):
                yield 'injection', Implies(And(inr, b != o, Not(scaled)), And(TK(b) == K, b > 0, b != nb, Or(b + c.size <= nb, b >= nb + 8 * c.count + 8)))


class AccFinLoop(LoopSpec):
    events = True

    def modifies(self, L_):
        return L_.eng.unit_contract.freed_mods(L_.ctx) + ['nlive'] + L_.counter_mods()

    def inv(self, L_):
        c = L_.ctx
        i = L_.idx()
        yield 'counter', And(i >= 0, i <= c.count)

        def live(a):
            k = TK(a)
            gone = And(k >= 0, k < i, c.old('ptr', c.new_bufs + 8 * k) == a, c.old('ptr', c.orig_bufs + 8 * k) != a)
            return L_.mem('G:live', a) == If(gone, IntVal(0), c.old('G:live', a))
        yield 'released-so-far', 'G:live', live


@contract('C09')
class FinishAcc(FinRead):
    name = 'ARMCII_Buf_finish_acc_vec'
    loops = {0: AccFinLoop()}

    def base(self, c):
        return c.old('ptr', c.new_bufs + 8 * c.count)

    def below(self, c, o):
        return Or(o + c.size <= FRESHFROM(c.new_bufs), o >= STACK0)

    def freed(self, c, a):
        k = TK(a)
        return Or(a == c.new_bufs, And(self.base(c) != 0, a == self.base(c)),
                  And(self.base(c) == 0, self.moved(c, k), c.old('ptr', c.new_bufs + 8 * k) == a))

    def freed_mods(self, c):
        return [('G:live', lambda a: self.freed(c, a))]

    def requires(self, c):
        for x in self.lists(c):
            yield x
        yield 'private-list', And(c.new_bufs > 0, c.new_bufs != c.orig_bufs, c.old('G:live', c.new_bufs) == 1, buf_ok(c, c.new_bufs, 8 * c.count + 8),
                                  disjoint(c.new_bufs, 8 * c.count + 8, c.orig_bufs, 8 * c.count))
        b = self.base(c)
        yield 'gather-block', Implies(b != 0, And(b > 0, c.old('G:live', b) == 1, b != c.new_bufs))

        def f(a):
            k = (a - c.new_bufs) / 8
            o, b = c.old('ptr', c.orig_bufs + 8 * k), c.old('ptr', a)
            return Implies(And(self.base(c) == 0, k >= 0, k < c.count, a == c.new_bufs + 8 * k), Or(o == b, self.private(c, k, o, b)))
        yield 'private-buffers', 'ptr', f

    def ensures(self, c):
        yield 'list-released', c.new('G:live', c.new_bufs) == 0
        yield 'gather-block-released', Implies(self.base(c) != 0, c.new('G:live', self.base(c)) == 0)
        for K in self.watch(c):
            b = c.old('ptr', c.new_bufs + 8 * K)
            yield 'copies-released', Implies(And(self.base(c) == 0, self.moved(c, K)), c.new('G:live', b) == 0)
