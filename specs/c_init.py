"""Contracts on settings (src/util.c) and on initialisation and finalisation
(src/init_finalize.c)."""
import re
import z3
from z3 import And, Or, Not, If, IntVal, Implies, Int, Function
from engine.vc import Contract, LoopSpec, fresh, TRUE, FALSE, KEYSORT, select, Unsupported, STACK0, V, ISORT
from engine.lib import ret, model
from engine.cparse import PTR, VOID, LONG, INT, CHAR
from . import world as w
from .world import *
from .reg import contract
from .mpi import A, out
from .coll import literal, newcomm, array_len
from .c_groups import ev, gf, gfield_mods, group_ok, G, GF

I = IntVal
ENV = Function('ENV', ISORT, ISORT)             # name (address of the literal) -> value string or 0
NUM = Function('NUM', ISORT, ISORT, ISORT)      # (string, base) -> the long its prefix denotes, clamped to long
OPFN = Function('OPFN', ISORT, ISORT)           # user-defined operator -> its function
MPIINIT, MPIFIN, MPILEVEL = Int('MPIINIT'), Int('MPIFIN'), Int('MPILEVEL')
IMAX, IMIN = (1 << 31) - 1, -(1 << 31)
LMAX, LMIN = (1 << 63) - 1, -(1 << 63)


# ---------------------------------------------------------------- models (trusted)
def env_facts(v):
    return Or(v == 0, And(v > (1 << 29), v + 64 < Int('BRK0')))      # read at most 64 bytes in


@model('getenv', 'secure_getenv')
def m_getenv(eng, st, a, n):
    v = ENV(a[0].i())
    st.assume(env_facts(v))
    return ret(st, v, PTR(CHAR))


def num(st, p, base):
    v = NUM(p, base)
    st.assume(And(v >= LMIN, v <= LMAX))
    return v


@model('atol', 'atoll')
def m_atol(eng, st, a, n):
    return ret(st, num(st, a[0].i(), I(10)), LONG)


@model('atoi')
def m_atoi(eng, st, a, n):
    """The number when it fits; nothing is known when it does not."""
    v, r = num(st, a[0].i(), I(10)), fresh('atoi')
    st.assume(And(r >= IMIN, r <= IMAX, Implies(And(v >= IMIN, v <= IMAX), r == v)))
    return ret(st, r)


@model('strtol', 'strtoll')
def m_strtol(eng, st, a, n):
    if not (z3.is_int_value(a[1].i()) and a[1].i().as_long() == 0):
        e = fresh('endptr')
        st.assume(And(e >= a[0].i(), e < Int('BRK0')))
        st.store('ptr', a[1].i(), e)
    return ret(st, num(st, a[0].i(), a[2].i()), LONG)


@model('strstr')
def m_strstr(eng, st, a, n):
    r = fresh('found')
    st.assume(Or(r == 0, And(r >= a[0].i(), r > 0)))
    return ret(st, r, PTR(CHAR))


def digits(v):
    """Characters %d prints for v (exact up to 9 digits)."""
    x = If(v < 0, -v, v)
    d = I(10)
    for k in range(9, 0, -1):
        d = If(x < 10 ** k, I(k), d)
    return d + If(v < 0, I(1), I(0))


@model('sprintf')
def m_sprintf(eng, st, a, n):
    """Only formats made of %d and ordinary characters, into a whole array: everything printed and
    the terminator must fit it."""
    size, f = array_len(st, n['inner'][1]), literal(n['inner'][2])
    if size is None or f is None:
        raise Unsupported('sprintf of that form')
    tot, i = len(re.sub('%d', '', f).replace('%%', '%')), 2
    if '%' in re.sub('%d', '', f).replace('%%', ''):
        raise Unsupported('sprintf format %r' % f)
    tot = I(tot)
    for _ in re.findall('%d', f):
        tot = tot + digits(a[i].i())
        i += 1
    eng.prove(st, tot + 1 <= size, 'printed-text-fits-its-buffer', n)
    b = a[0].i()
    st.havoc('i1', lambda x: And(x >= b, x < b + size))
    return ret(st, tot)


@model('MPI_Initialized')
def m_inited(eng, st, a, n):
    out(eng, st, a[0], 'i4', MPIINIT)
    return ret(st)


@model('MPI_Finalized')
def m_fined(eng, st, a, n):
    out(eng, st, a[0], 'i4', MPIFIN)
    return ret(st)


@model('MPI_Query_thread')
def m_qthread(eng, st, a, n):
    out(eng, st, a[0], 'i4', MPILEVEL)
    return ret(st)


@model('MPI_Get_version')
def m_getver(eng, st, a, n):
    for v in a[:2]:
        x = fresh('ver')
        st.assume(And(x >= 0, x < 100))
        out(eng, st, v, 'i4', x)
    return ret(st)


@model('MPI_Get_library_version')
def m_libver(eng, st, a, n):
    b, z = a[0].i(), fresh('verlen')
    size = array_len(st, n['inner'][1])
    if size is None:
        raise Unsupported('MPI_Get_library_version into that')
    eng.prove(st, I(size) >= 256, 'version-buffer-large-enough', n)
    st.havoc('i1', lambda x: And(x >= b, x < b + 256))
    st.assume(And(z >= 0, z < 256))
    st.assume(st.load('i1', b + z) == 0)
    out(eng, st, a[1], 'i4', z)
    return ret(st)


@model('MPI_Op_create')
def m_opcreate(eng, st, a, n):
    o = fresh('userop')
    st.assume(And(o > 0, OPFN(o) == A(a, 0)))
    out(eng, st, a[2], 'ptr', o)
    st.event('op_create', fn=A(a, 0), commute=A(a, 1), cell=a[2].i(), op=o)
    return ret(st)


@model('MPI_Op_free')
def m_opfree(eng, st, a, n):
    p = a[0].i()
    v = st.load(a[0].tag or 'ptr', p)
    st.event('op_free', op=v, cell=p)
    out(eng, st, a[0], 'ptr', eng.ga('ompi_mpi_op_null'))
    return ret(st)


@model('pthread_create')
def m_pcreate(eng, st, a, n):
    r = fresh('rc')
    st.event('thread_create', fn=A(a, 2), arg=A(a, 3))
    return ret(st, r)


@model('pthread_join')
def m_pjoin(eng, st, a, n):
    st.event('thread_join', active=st.load('g:progress_active', eng.ga('progress_active')))
    return ret(st, fresh('rc'))


@model('pthread_exit')
def m_pexit(eng, st, a, n):
    return ret(st)


# ---------------------------------------------------------------- settings
def lit(c, s):
    return c.eng.ga('str:"%s"' % s)


TRUTHY = [ord(x) for x in 'Tt1yY']


def v_bool(rd, var, default):
    ch = rd('i1', ENV(var))
    return If(ENV(var) == 0, default, If(Or(*[ch == x for x in TRUTHY]), I(1), I(0)))


def v_long(var, default):
    return If(ENV(var) == 0, default, NUM(ENV(var), I(10)))


def v_int(var, default):
    x = NUM(ENV(var), I(10))
    return If(ENV(var) == 0, default, If(x > IMAX, I(IMAX), If(x < IMIN, I(IMIN), x)))


class Getenv(Contract):
    file = 'util.c'

    def requires(self, c):
        yield 'name-given', c.varname > 0

    def setup(self, eng, st, c):
        st.assume(env_facts(ENV(c.varname)))


@contract('C17')
class GetenvRaw(Getenv):
    name, params = 'ARMCII_Getenv', 'varname'

    def ensures(self, c):
        yield 'value-of-that-variable', And(c.ret == ENV(c.varname), env_facts(c.ret))


@contract('C17')
class GetenvBool(Getenv):
    name, params = 'ARMCII_Getenv_bool', 'varname default_value'

    def ensures(self, c):
        yield 'value-string-readable', env_facts(ENV(c.varname))
        yield 'true-exactly-for-the-documented-spellings', c.ret == v_bool(c.old, c.varname, c.default_value)


@contract('C17')
class GetenvInt(Getenv):
    name, params = 'ARMCII_Getenv_int', 'varname default_value'

    def ensures(self, c):
        yield 'value-string-readable', env_facts(ENV(c.varname))
        yield 'the-number-written-clamped-to-int', c.ret == v_int(c.varname, c.default_value)


@contract('C17')
class GetenvLong(Getenv):
    name, params = 'ARMCII_Getenv_long', 'varname default_value'

    def ensures(self, c):
        yield 'value-string-readable', env_facts(ENV(c.varname))
        yield 'the-number-written', c.ret == v_long(c.varname, c.default_value)


@contract('C17')
class GetenvChar(Contract):
    name, params, file = 'ARMCII_Getenv_char', 'output varname default_value length', 'util.c'

    def setup(self, eng, st, c):
        c.q = fresh('watchbyte')
        st.assume(env_facts(ENV(c.varname)))

    def requires(self, c):
        o, k = c.output, c.length
        src = If(ENV(c.varname) == 0, c.default_value, ENV(c.varname))
        yield 'name-given', c.varname > 0
        yield 'strings', And(c.default_value > 0, k > 0, k < (1 << 20), o > 0)
        yield 'room', buf_ok(c, o, k)
        if not hasattr(c, 'caller'):
            c.src = src

    def modifies(self, c):
        o, k = c.output, c.length
        return [('i1', lambda a: And(a >= o, a < o + k))]

    def ensures(self, c):
        """Byte q is the source's byte q up to its terminator, then zero."""
        o, k = c.output, c.length
        src = If(ENV(c.varname) == 0, c.default_value, ENV(c.varname))
        yield 'value-string-readable', env_facts(ENV(c.varname))
        if hasattr(c, 'caller'):
            # prefix lengths are not tracked: the bytes up to the first zero
            yield 'first-byte', Implies(k > 0, c.new('i1', o) == c.old('i1', src))

            def f(a):
                q = a - o
                v = c.new('i1', a)
                return Implies(And(q >= 0, q < k), Or(v == 0, v == c.old('i1', src + q)))
            yield 'copied', 'i1', f

            def g(a):
                q = a - o
                return Implies(And(q > 0, q < k, c.old('i1', src + q) != 0, c.new('i1', a - 1) != 0), c.new('i1', a) == c.old('i1', src + q))
            yield 'no-byte-dropped', 'i1', g
            return
        q = c.q
        inr = And(q >= 0, q < k)
        v = c.new('i1', o + q)
        yield 'bytes-of-the-value', Implies(inr, Or(v == 0, v == c.old('i1', src + q)))
        yield 'first-byte', c.new('i1', o) == c.old('i1', src)
        yield 'no-byte-dropped', Implies(And(q > 0, q < k, c.old('i1', src + q) != 0, c.new('i1', o + q - 1) != 0), v == c.old('i1', src + q))
        yield 'zero-after-the-end', Implies(And(q > 0, q < k, c.new('i1', o + q - 1) == 0), v == 0)


@contract('C17')
class ShmLimit(Contract):
    name, params, file = 'ARMCI_Set_shm_limit', 'shmemlimit', 'util.c'

    def modifies(self, c):
        f = c.glob('ARMCII_GLOBAL_STATE') + off('global_state_t.memory_limit')
        return [(rec('global_state_t') + '.memory_limit', lambda a: a == f)]

    def ensures(self, c):
        x = fld(c.new, 'global_state_t.memory_limit', c.glob('ARMCII_GLOBAL_STATE'))
        yield 'limit-kept', x == If(c.shmemlimit < (1 << 64) - 1, c.shmemlimit, I(0))


class Scan(LoopSpec):
    """Scratch loops over the version string: only local arrays are written."""

    def modifies(self, L_):
        return [('i1', lambda a: a >= STACK0)] + L_.counter_mods()

    def inv(self, L_):
        i, e = L_.idx(), L_.e(L_.idx_name())
        yield 'counter-range', self.rng(i, e)

    def rng(self, i, e):
        return i >= e


class Down(Scan):
    def rng(self, i, e):
        return i <= e


@contract('C17')
class ParseVersion(Contract):
    name, params, file = 'ARMCII_Parse_library_version', 'library_version impl major minor patch', 'init_finalize.c'

    def loop(self, i):
        # which way a loop counts is read off its own increment
        return ScanAny()

    def requires(self, c):
        yield 'strings', And(c.library_version > 0, buf_ok(c, c.library_version, 1))
        for nm, p, k in (('impl', c.impl, 4), ('major', c.major, 4), ('minor', c.minor, 4), ('patch', c.patch, 8)):
            yield nm, And(p > 0, buf_ok(c, p, k))
        if not hasattr(c, 'caller'):
            for a, b in ((c.impl, c.major), (c.impl, c.minor), (c.major, c.minor)):
                yield 'distinct', Or(a + 4 <= b, b + 4 <= a)

    def modifies(self, c):
        p = c.patch
        return [('i1', lambda a: And(a >= p, a < p + 8)), ('i4', lambda a: Or(a == c.major, a == c.minor, a == c.impl)),
                ('u4', lambda a: Or(a == c.impl))]


class ScanAny(Scan):
    def inv(self, L_):
        i, e = L_.idx(), L_.e(L_.idx_name())
        up = self.up(L_.inc_n)
        yield 'counter-range', (i >= e if up else i <= e)

    def up(self, n):
        stack = [n] if n else []
        while stack:
            x = stack.pop()
            if x.get('opcode') in ('--', '-=', '-'):
                return False
            stack += [y for y in x.get('inner', []) if isinstance(y, dict)]
        return True


# ---------------------------------------------------------------- initialisation
GSK = 'global_state_t'
KEPT = ('init_count',)
SET = ('debug_alloc iov_checks iov_batched_limit iov_dtype_chunk noncollective_groups cache_rank_translation verbose '
       'thread_level progress_thread progress_usleep use_win_allocate msg_barrier_syncs explicit_nb_progress use_alloc_shm '
       'rma_atomicity end_to_end_flush rma_nocheck disable_shm_accumulate use_same_op accumulate_granularity '
       'use_request_atomics flush_request_atomics memory_limit strided_method iov_method shr_buf_method').split()
OPS = (('ARMCI_MPI_ABSMIN_OP', 'ARMCII_Absmin_op'), ('ARMCI_MPI_ABSMAX_OP', 'ARMCII_Absmax_op'),
       ('ARMCI_MPI_SELMIN_OP', 'ARMCII_Msg_sel_min_op'), ('ARMCI_MPI_SELMAX_OP', 'ARMCII_Msg_sel_max_op'))


def cstate(c, rd, f):
    return fld(rd, GSK + '.' + f, c.glob('ARMCII_GLOBAL_STATE'))


def opcell(c, rd, o):
    return rd('g:' + o, c.glob(o))


def str_eq(rd, p, s):
    return And(*[rd('i1', p + i if i else p) == b for i, b in enumerate([ord(x) for x in s] + [0])])


def choice(c, var, opts, default):
    p = ENV(lit(c, var))
    e = I(default)
    for s, v in reversed(opts):
        e = If(str_eq(c.old, p, s), I(v), e)
    return If(p == 0, I(default), e)


@contract('C16', 'C17', 'C14')
class InitThreadComm(Contract):
    name, params, file = 'PARMCI_Init_thread_comm', 'armci_requested comm', 'init_finalize.c'
    uninitialised = True
    allocates = True
    unit_opts = dict(merge=True, budget=700)
    only = [('setting|terminated', ('C17',)), ('absolute-value-operators|selection-operators', ('C14', 'C16')),
            ('fits-its-buffer|index-within-array', ('C17',)), ('.', ('C16',))]
    loops = {0: ScanAny()}

    def setup(self, eng, st, c):
        st.assume(And(MPIINIT >= 0, MPIFIN >= 0, MPIINIT <= 1, MPIFIN <= 1, MPILEVEL >= 0, MPILEVEL < 100))
        s = lit(c, 'rar,raw,war,waw')
        for i, b in enumerate([ord(x) for x in 'rar,raw,war,waw'] + [0]):
            st.assume(st.load('i1', s + i if i else s) == b)
        o = c.glob('ARMCII_GLOBAL_STATE') + off(GSK + '.rma_ordering')
        c.q = fresh('watchbyte')

    def requires(self, c):
        n0 = cstate(c, c.old, 'init_count')
        yield 'count', And(n0 >= 0, n0 < IMAX)
        yield 'communicator', Implies(n0 == 0, And(c.comm > 0, c.comm != w.COMM_NULL(c.eng), GR(c.comm, ME) >= 0, GSZ(c.comm) >= 1,
                                                   GSZ(c.comm) <= NP, NP < (1 << 28)))
        o = c.glob('ARMCII_GLOBAL_STATE') + off(GSK + '.rma_ordering')
        yield 'buffer-still-terminated', c.old('i1', o + 19) == 0

    def aborts(self, c):
        n0 = cstate(c, c.old, 'init_count')
        return And(n0 == 0, Or(MPIINIT == 0, MPIFIN != 0, MPILEVEL < c.armci_requested))

    def modifies(self, c):
        gs = c.glob('ARMCII_GLOBAL_STATE')
        o = gs + off(GSK + '.rma_ordering')
        m = [(rec(GSK) + '.' + f, lambda a, f=f: a == gs + off(GSK + '.' + f)) for f in SET + ['init_count']]
        m += [('i1', lambda a: And(a >= o, a < o + 20)), 'nlive', ('g:progress_active', None)]
        m += [('g:' + x, None) for x, _ in OPS]
        W, D = c.glob('ARMCI_GROUP_WORLD'), c.glob('ARMCI_GROUP_DEFAULT')
        for f in GF:
            x = off(G + '.' + f)
            m.append((rec(G) + '.' + f, lambda a, x=x: Or(a == W + x, a == D + x)))
        return m

    def effects(self, c):
        return None

    def ensures(self, c):
        rd, nw = c.old, c.new
        n0 = cstate(c, rd, 'init_count')
        first = n0 == 0
        yield 'succeeds', c.ret == 0
        yield 'counts-every-initialisation', cstate(c, nw, 'init_count') == n0 + 1
        if hasattr(c, 'caller'):
            return
        W, D = c.glob('ARMCI_GROUP_WORLD'), c.glob('ARMCI_GROUP_DEFAULT')
        for f in SET:
            yield 'later-calls-change-no-setting-%s' % f, Implies(Not(first), cstate(c, nw, f) == cstate(c, rd, f))
        for f in GF:
            yield 'later-calls-keep-the-groups-%s' % f, Implies(Not(first), And(gf(nw, W, f) == gf(rd, W, f), gf(nw, D, f) == gf(rd, D, f)))
        for o, fn in OPS:
            yield 'later-calls-keep-the-operators-%s' % o, Implies(Not(first), opcell(c, nw, o) == opcell(c, rd, o))
        mk = ev(c, 'op_create')
        cm = gf(nw, W, 'comm')
        yield 'world-duplicates-the-given-communicator', Implies(first, And(cm > 0, cm != c.comm, GRPOF(cm) == GRPOF(c.comm)))
        yield 'world-rank-and-size', Implies(first, And(gf(nw, W, 'rank') == GR(c.comm, ME), gf(nw, W, 'size') == GSZ(c.comm)))
        yield 'one-communicator-only', Implies(first, I(len(ev(c, 'comm_dup')) - 0) == 1) if ev(c, 'comm_dup') else Not(first)
        for f in GF:
            yield 'default-group-is-the-world-%s' % f, Implies(first, gf(nw, D, f) == gf(nw, W, f))
        for k, (o, fn) in enumerate(OPS):
            yield ('absolute-value-operators' if k < 2 else 'selection-operators') + ':' + o, \
                Implies(first, OPFN(opcell(c, nw, o)) == c.glob('fn:' + fn))
        yield 'operators-created-once', (Implies(first, I(len(mk)) == 4) if mk else Not(first))
        for e in mk:
            yield 'operators-commute', e['commute'] != 0
        th = ev(c, 'thread_create')
        on = cstate(c, nw, 'progress_thread') != 0
        yield 'progress-thread-exactly-when-enabled', (And(first, on, I(len(th)) == 1) if th else Or(Not(first), Not(on)))
        for e in th:
            yield 'progress-thread-runs', And(e['fn'] == c.glob('fn:progress_function'), e['arg'] == c.glob('progress_active'),
                                              nw('g:progress_active', c.glob('progress_active')) != 0)
        # ---- settings
        S = lambda f: cstate(c, nw, f)
        b = lambda v, d: v_bool(rd, lit(c, v), I(d))
        n = lambda v, d: v_int(lit(c, v), I(d))
        nonneg = lambda v, d: If(n(v, d) < 0, I(d), n(v, d))
        pt = And(b('ARMCI_PROGRESS_THREAD', 0) != 0, MPILEVEL == 3)
        us = n('ARMCI_PROGRESS_USLEEP', 0)
        ml = v_long(lit(c, 'ARMCI_SHM_LIMIT'), I(0))
        want = dict(
            verbose=n('ARMCI_VERBOSE', 0), thread_level=c.armci_requested, debug_alloc=b('ARMCI_DEBUG_ALLOC', 0),
            progress_thread=If(pt, I(1), I(0)),
            progress_usleep=If(And(pt, us < 0), If(us == IMIN, I(IMAX), -us), us),
            noncollective_groups=If(ENV(lit(c, 'ARMCI_NONCOLLECTIVE_GROUPS')) == 0, cstate(c, rd, 'noncollective_groups'), b('ARMCI_NONCOLLECTIVE_GROUPS', 0)),
            cache_rank_translation=b('ARMCI_CACHE_RANK_TRANSLATION', 1), iov_checks=b('ARMCI_IOV_CHECKS', 0),
            iov_batched_limit=nonneg('ARMCI_IOV_BATCHED_LIMIT', 0), iov_dtype_chunk=nonneg('ARMCI_IOV_DTYPE_CHUNK', 0),
            strided_method=choice(c, 'ARMCI_STRIDED_METHOD', (('IOV', enumv(c.eng, 'ARMCII_STRIDED_IOV')), ('DIRECT', enumv(c.eng, 'ARMCII_STRIDED_DIRECT'))),
                                  enumv(c.eng, 'ARMCII_STRIDED_IOV')),
            iov_method=I(enumv(c.eng, 'ARMCII_IOV_BATCHED')),
            shr_buf_method=choice(c, 'ARMCI_SHR_BUF_METHOD', (('COPY', enumv(c.eng, 'ARMCII_SHR_BUF_COPY')), ('NOGUARD', enumv(c.eng, 'ARMCII_SHR_BUF_NOGUARD'))),
                                  enumv(c.eng, 'ARMCII_SHR_BUF_NOGUARD')),
            use_win_allocate=b('ARMCI_USE_WIN_ALLOCATE', 1), msg_barrier_syncs=b('ARMCI_MSG_BARRIER_SYNCS', 0),
            memory_limit=If(ml < 0, ml + (1 << 64), ml),
            explicit_nb_progress=b('ARMCI_EXPLICIT_NB_PROGRESS', 1), use_alloc_shm=b('ARMCI_USE_ALLOC_SHM', 1),
            disable_shm_accumulate=b('ARMCI_DISABLE_SHM_ACC', 0), use_same_op=b('ARMCI_USE_SAME_OP', 0),
            accumulate_granularity=nonneg('ARMCI_ACCUMULATE_GRANULARITY', 1 << 20), rma_atomicity=b('ARMCI_RMA_ATOMICITY', 0),
            end_to_end_flush=b('ARMCI_NO_FLUSH_LOCAL', 0), rma_nocheck=b('ARMCI_RMA_NOCHECK', 1),
            use_request_atomics=b('ARMCI_USE_REQUEST_ATOMICS', 0), flush_request_atomics=b('ARMCI_FLUSH_REQUEST_ATOMICS', 0))
        for f in SET:
            yield 'setting-%s' % f, Implies(first, S(f) == want[f])
        o = c.glob('ARMCII_GLOBAL_STATE') + off(GSK + '.rma_ordering')
        yield 'setting-string-stays-terminated', nw('i1', o + 19) == 0
        src = If(ENV(lit(c, 'ARMCI_RMA_ORDERING')) == 0, lit(c, 'rar,raw,war,waw'), ENV(lit(c, 'ARMCI_RMA_ORDERING')))
        q = c.q
        inr = And(first, q > 0, q < 19)
        yield 'setting-rma-ordering-first', Implies(first, nw('i1', o) == rd('i1', src))
        yield 'setting-rma-ordering', Implies(And(inr, rd('i1', src + q) != 0, nw('i1', o + q - 1) != 0), nw('i1', o + q) == rd('i1', src + q))


class InitWrap(Contract):
    file, allocates = 'init_finalize.c', True
    uninitialised = True
    requested = staticmethod(lambda c: I(0))
    comm_of = staticmethod(lambda c: c.glob('ompi_mpi_comm_world'))
    base = InitThreadComm()

    def proxy(self, c):
        return Sub(c, dict(armci_requested=self.requested(c), comm=self.comm_of(c)))

    def requires(self, c):
        return self.base.requires(self.proxy(c))

    def modifies(self, c):
        return self.base.modifies(self.proxy(c))

    def aborts(self, c):
        return self.base.aborts(self.proxy(c))

    def effects(self, c):
        return None

    def ensures(self, c):
        rd, nw = c.old, c.new
        yield 'succeeds', c.ret == 0
        yield 'counts-every-initialisation', cstate(c, nw, 'init_count') == cstate(c, rd, 'init_count') + 1

    def on_call(self, eng, st, name, args, n, c):
        if name == 'PARMCI_Init_thread_comm':
            eng.prove(st, args[0].i() == self.requested(c), 'requests-that-thread-level', n)
            eng.prove(st, args[1].i() == self.comm_of(c), 'over-that-communicator', n)


class Sub:
    """A context in which a wrapper's parameters are named as its callee's."""
    def __init__(self, c, d):
        self.__dict__['_c'] = c
        self.__dict__['_d'] = d

    def __getattr__(self, k):
        d = self.__dict__['_d']
        return d[k] if k in d else getattr(self.__dict__['_c'], k)


def init_wrap(nm, prm, req=None, comm=None):
    class C(InitWrap):
        name, params = nm, prm
    if req:
        C.requested = staticmethod(req)
    if comm:
        C.comm_of = staticmethod(comm)
    C.__name__ = nm
    contract('C16')(C)


init_wrap('PARMCI_Init_thread', 'armci_requested', req=lambda c: c.armci_requested)
init_wrap('PARMCI_Init_mpi_comm', 'comm', comm=lambda c: c.comm)
init_wrap('PARMCI_Init_args', 'argc argv')
init_wrap('PARMCI_Init', '')


@contract('C16')
class Initialized(Contract):
    name, params, file = 'PARMCI_Initialized', '', 'init_finalize.c'

    def ensures(self, c):
        yield 'reports-whether-initialised', (c.ret != 0) == (cstate(c, c.old, 'init_count') > 0)


@contract('C16')
class Cleanup(Contract):
    name, params, file = 'ARMCI_Cleanup', '', 'init_finalize.c'


@contract('C16')
class Finalize(Contract):
    name, params, file = 'PARMCI_Finalize', '', 'init_finalize.c'

    def world_group(self, c):
        return c.glob('ARMCI_GROUP_WORLD')

    def setup(self, eng, st, c):
        st.assume(And(LEN >= 0, LEN < (1 << 31) - 1))

    def requires(self, c):
        rd, g = c.old, self.world_group(c)
        n0 = cstate(c, rd, 'init_count')
        yield 'count', n0 >= 0
        # postcondition of the first initialisation
        nc, a, b = gf(rd, g, 'noncoll_pgroup_comm'), gf(rd, g, 'abs_to_grp'), gf(rd, g, 'grp_to_abs')
        null = w.COMM_NULL(c.eng)
        from .coll import comm_self
        s = comm_self(c.eng)
        yield 'world-group', Implies(n0 > 0, And(WCOMM > 0, WCOMM != s, WCOMM != null, nc > 0, nc != s,
                                                 Implies(cfg(c, 'noncollective_groups') != 0, And(nc != null, nc != WCOMM)),
                                                 Implies(a != 0, And(a > 0, rd('G:live', a) == 1, BLK(a) != 1)),
                                                 Implies(b != 0, And(b > 0, rd('G:live', b) == 1, a != b, BLK(b) != 1))))

    def modifies(self, c):
        g = self.world_group(c)
        gs = c.glob('ARMCII_GLOBAL_STATE')
        r = rec('gmr_s')
        a, b = gf(c.old, g, 'abs_to_grp'), gf(c.old, g, 'grp_to_abs')
        return gfield_mods(g) + [(rec(GSK) + '.init_count', lambda x: x == gs + off(GSK + '.init_count')), 'nlive',
                                 ('g:gmr_list', None), (r + '.next', None), (r + '.prev', None), (r + '.window', None),
                                 ('G:live', lambda x: Or(BLK(x) == 1, x == a, x == b)), ('G:L.done', None),
                                 ('g:progress_active', None)] + [('g:' + x, None) for x, _ in OPS]

    def effects(self, c):
        return None

    def ensures(self, c):
        rd, nw, g = c.old, c.new, self.world_group(c)
        n0 = cstate(c, rd, 'init_count')
        last = n0 == 1
        yield 'succeeds', c.ret == 0
        yield 'one-finalisation-undone-and-never-below-zero', cstate(c, nw, 'init_count') == If(n0 > 0, n0 - 1, I(0))
        if hasattr(c, 'caller'):
            return
        ds, gfree, of = ev(c, 'destroy_all'), ev(c, 'group_free'), ev(c, 'op_free')
        nev = len([x for x in c.events if x[0] != 'thread_join'])
        yield 'only-the-last-finalisation-releases', TRUE if not nev else last
        yield 'all-allocations-released-once', Implies(last, BoolVal(len(ds) == 1))
        yield 'no-allocation-left', Implies(last, nw('g:gmr_list', c.glob('gmr_list')) == 0)
        yield 'world-group-released-once', Implies(last, And(I(len(gfree)) == 1, gfree[0]['group'] == g) if gfree else FALSE)
        yield 'operators-released-once', Implies(last, I(len(of)) == 4)
        for o, fn in OPS:
            v = opcell(c, rd, o)
            k = sum([If(e['cell'] == c.glob(o), I(1), I(0)) for e in of], I(0))
            yield 'operator-released-once-%s' % o, Implies(last, k == 1)
            yield 'operator-kept-%s' % o, Implies(Not(last), opcell(c, nw, o) == v)
        yield 'world-empty-afterwards', Implies(last, And(gf(nw, g, 'rank') == -1, gf(nw, g, 'size') == 0))
        for f in GF:
            yield 'world-kept-%s' % f, Implies(Not(last), gf(nw, g, f) == gf(rd, g, f))
        yield 'registry-kept', Implies(Not(last), nw('g:gmr_list', c.glob('gmr_list')) == rd('g:gmr_list', c.glob('gmr_list')))
        names = [x[0] for x in c.events]
        if ds and gfree:
            yield 'allocations-released-before-the-world-group', BoolVal(names.index('destroy_all') < names.index('group_free'))
        tj = ev(c, 'thread_join')
        on = cstate(c, rd, 'progress_thread') != 0
        yield 'progress-thread-joined-first', (And(last, on, BoolVal(len(tj) == 1 and names[0] == 'thread_join'), tj[0]['active'] == 0) if tj
                                               else Or(Not(last), Not(on)))


# ---------------------------------------------------------------- progress thread
def m_nanosleep(eng, st, a, n):
    p = a[0].i()
    s, ns = st.load('timespec.tv_sec', p), st.load('timespec.tv_nsec', p + 8)
    us = eng.unit_ctx.us
    eng.prove(st, And(ns >= 0, ns < 10 ** 9), 'setting-pause-is-a-valid-time', n)
    eng.prove(st, s * 1000000000 + ns == us * 1000, 'setting-pause-as-long-as-set', n)
    return ret(st)


class Poll(LoopSpec):
    events = True

    def inv(self, L_):
        yield 'nothing', TRUE


@contract('C17')
class Progress(Contract):
    name, params, file = 'progress_function', 'arg', 'init_finalize.c'
    loops = {0: Poll()}
    models = {'nanosleep': m_nanosleep}

    def setup(self, eng, st, c):
        c.us = cstate(c, st.load, 'progress_usleep')

    def requires(self, c):
        yield 'flag-given', And(c.arg > 0, c.arg < c.pre_brk)
        yield 'pause', c.us >= 0

    def effects(self, c):
        return None


@contract('C17')
class PokeProgress(Contract):
    name, params, file = 'ARMCIX_Progress', '', 'util.c'

    def effects(self, c):
        return None
