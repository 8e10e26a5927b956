"""Models of functions outside /repo/src (C library, pthreads) and of the
library's own abort/print routines.  Everything in this file is trusted."""
import z3
from z3 import And, Or, Not, If, IntVal, Implies
from .vc import V, fresh, IntVal, TRUE, FALSE, Unsupported, BoolVal, DATA_KEYS, select
from .cparse import INT, PTR, VOID, ULONG
from . import cparse

LIB = {}
FREE_HOOK = None
PENDING = None


def model(*names):
    def d(f):
        for n in names:
            LIB[n] = f
        return f
    return d


def ret(st, e=None, t=INT):
    return [(st, V(IntVal(0) if e is None else e, t))]


def do_malloc(eng, st, size, name='heap'):
    b = eng.alloc(st, size, name)
    # ghost: live heap blocks (for exactly-once free and leak accounting)
    st.store('G:live', b, IntVal(1))
    st.store('G:bsz', b, size if not isinstance(size, int) else IntVal(size))
    if 'nlive' in st.gh:
        st.gh['nlive'] = st.gh['nlive'] + 1
    return b


def do_free(eng, st, p, n, what='free'):
    """free(p): p must be NULL or a live block; each block at most once."""
    for s, null in eng.split(st, p == 0):
        if null:
            yield s
            continue
        eng.prove(s, s.load('G:live', p) == 1, '%s-of-live-block' % what, n)
        if FREE_HOOK:
            FREE_HOOK(eng, s, p, n)
        s.store('G:live', p, IntVal(0))
        if 'nlive' in s.gh:
            s.gh['nlive'] = s.gh['nlive'] - 1
        yield s


@model('malloc')
def m_malloc(eng, st, args, n):
    b = do_malloc(eng, st, args[0].i())
    return ret(st, b, PTR(VOID))


@model('calloc')
def m_calloc(eng, st, args, n):
    sz = args[0].i() * args[1].i()
    b = do_malloc(eng, st, sz)
    zero_range(st, b, sz)
    return ret(st, b, PTR(VOID))


def zero_range(st, b, sz, extra=()):
    for key in ('i1', 'i4', 'ptr', 'i8') + tuple(extra):
        st.mapop(key, lambda a, old, sink: If(And(a >= b, a < b + sz), IntVal(0), old))


@model('realloc')
def m_realloc(eng, st, args, n):
    p, sz = args[0].i(), args[1].i()
    mem0 = st.mem
    osz = st.load('G:bsz', p)
    b = do_malloc(eng, st, sz)
    k = If(osz < sz, osz, sz)
    st.copyop(b, p, If(p == 0, IntVal(0), k), DATA_KEYS | {'ptr'})
    return [(s, V(b, PTR(VOID))) for s in do_free(eng, st, p, n, 'realloc')]


@model('free')
def m_free(eng, st, args, n):
    return [(s, V(IntVal(0), VOID)) for s in do_free(eng, st, args[0].i(), n)]


def arg_pointee(st, n, i):
    """Static pointee type of call argument i before conversion to void*."""
    a = n['inner'][1 + i]
    while a['kind'] in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr') and \
            a.get('castKind', 'BitCast') in ('BitCast', 'NoOp', 'ArrayToPointerDecay'):
        if a.get('castKind') == 'ArrayToPointerDecay':
            t = st.fr.tu.node_type(a['inner'][0])
            while t.k == 'arr':
                t = t.to
            return t
        a = a['inner'][0]
    try:
        t = st.fr.tu.node_type(a)
    except cparse.ParseError:
        return VOID
    return t.to if t.k == 'ptr' else VOID


@model('memcpy', 'memmove', '__builtin_memcpy', '__builtin_memmove')
def m_memcpy(eng, st, args, n):
    d, s, k = args[0].i(), args[1].i(), args[2].i()
    t1, t2 = arg_pointee(st, n, 0), arg_pointee(st, n, 1)
    eng.prove(st, k >= 0, 'copy-length-nonnegative', n)
    if t1.k == 'rec' or t2.k == 'rec':
        t = t1 if t1.k == 'rec' else t2
        if not (z3.is_int_value(k) and k.as_long() == t.size):
            raise Unsupported('memcpy of several records')
        eng.copy_rec(st, t, d, s)
        return ret(st, d, PTR(VOID))
    if PENDING:
        PENDING(eng, st, d, k, 'w', n, 'no-write-to-buffer-in-flight')
        PENDING(eng, st, s, k, 'r', n, 'no-read-of-data-in-flight')
    keys = DATA_KEYS
    if t1.k == 'ptr' or t2.k == 'ptr':
        keys = {'ptr'}
    elif eng.opts.get('raw_keys'):
        keys = keys | set(eng.opts['raw_keys']())
    st.copyop(d, s, k, keys)
    return ret(st, d, PTR(VOID))


@model('memset', '__builtin_memset')
def m_memset(eng, st, args, n):
    d, v, k = args[0].i(), args[1].i(), args[2].i()
    if not (z3.is_int_value(v) and v.as_long() == 0):
        raise Unsupported('memset with a nonzero byte')
    t = arg_pointee(st, n, 0)
    extra = []
    if t.k == 'rec':
        for f in t.rec.off:
            extra.append('%s.%s' % (t.rec.name, f))
    zero_range(st, d, k, extra)
    return ret(st, d, PTR(VOID))


@model('ARMCII_Assert_fail')
def m_assert_fail(eng, st, args, n):
    eng.abort_hits += 1
    if eng.opts['noabort']:
        eng.prove(st, FALSE if eng.abort_ok is None else eng.abort_ok, 'rejects-only-invalid-requests', n)
        abort_clean(eng, st, n)
    return []


def abort_clean(eng, st, n):
    """A rejected request must not have started any transfer."""
    if 'Ln' in st.gh and eng.opts.get('abort_clean') and not st.gh['Ln'].eq(eng.entry.gh['Ln']):
        eng.prove(st, FALSE, 'rejected-before-anything-is-issued', n)


@model('ARMCII_Error_impl', 'ARMCII_Error', 'exit', 'abort', '_exit', 'MPI_Abort', '__assert_fail')
def m_error(eng, st, args, n):
    eng.abort_hits += 1
    if eng.opts['noabort']:
        eng.prove(st, FALSE if eng.abort_ok is None else eng.abort_ok, 'rejects-only-invalid-requests', n)
        abort_clean(eng, st, n)
    return []


@model('pthread_mutex_lock', 'pthread_mutex_unlock', 'usleep', 'nanosleep', 'sched_yield')
def m_ok(eng, st, args, n):
    return ret(st)


@model('__builtin_alloca', 'alloca')
def m_alloca(eng, st, args, n):
    return ret(st, eng.alloc(st, args[0].i(), 'alloca'), PTR(VOID))


@model('fabs', '__builtin_fabs')
def m_fabs(eng, st, args, n):
    return [(st, V(z3.fpAbs(args[0].e), cparse.DBL))]


@model('fabsf', '__builtin_fabsf')
def m_fabsf(eng, st, args, n):
    return [(st, V(z3.fpAbs(args[0].e), cparse.FLT))]


@model('abs', 'labs', '__builtin_abs', '__builtin_labs', 'llabs')
def m_abs(eng, st, args, n):
    e = args[0].i()
    return [(st, V(If(e >= 0, e, -e), args[0].t))]
