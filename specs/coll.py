"""Models of the remaining MPI calls: windows, collectives, messages (trusted)."""
import z3
from z3 import And, Or, Not, If, IntVal, Implies, Function
from engine.vc import V, fresh, TRUE, FALSE, select, Unsupported, DATA_KEYS, KEYSORT, reg_key
from engine.cparse import INT, PTR, VOID
from engine import lib
from engine.lib import model, LIB, ret, arg_pointee
from . import world as w
from .world import ISORT, GR, GSZ, ME
from .mpi import out, A


def symmetric(eng, st, what, **kw):
    """Every process runs the same code: facts a unit guarantees about what it contributes
    (proved as postconditions over its events) may be assumed about the others."""
    con = eng.unit_contract
    if hasattr(con, 'collective'):
        for f in con.collective(eng.unit_ctx, st, what, kw):
            st.assume(f)


# ------------------------------------------------------------ windows
def new_win(eng, st, v, comm, size, base):
    wn = fresh('win')
    st.assume(And(wn > 0, wn != w.WIN_NULL(eng)))
    r = GR(comm, ME)
    st.assume(And(w.WINCOMM(wn) == comm, w.WINSZ(wn, r) == size, w.WINBASE(wn, r) == base))
    out(eng, st, v, 'ptr', wn)
    return wn


@model('MPI_Win_allocate')
def win_alloc(eng, st, a, n):
    size, du, comm = A(a, 0), A(a, 1), A(a, 3)
    eng.prove(st, size >= 0, 'window-size-nonnegative', n)
    eng.prove(st, du == 1, 'byte-displacements', n)
    b = eng.alloc(st, size, 'winmem')
    st.assume(b > 0)
    out(eng, st, a[4], 'ptr', b)
    wn = new_win(eng, st, a[5], comm, size, b)
    st.event('win_create', win=wn, comm=comm, size=size, base=b, own=TRUE)
    return ret(st)


@model('MPI_Win_create')
def win_create(eng, st, a, n):
    base, size, du, comm = A(a, 0), A(a, 1), A(a, 2), A(a, 4)
    eng.prove(st, size >= 0, 'window-size-nonnegative', n)
    eng.prove(st, du == 1, 'byte-displacements', n)
    eng.prove(st, Or(size == 0, base != 0), 'window-has-memory', n)
    eng.prove(st, Or(size == 0, st.load('G:bsz', base) >= size), 'window-memory-large-enough', n)
    wn = new_win(eng, st, a[5], comm, size, base)
    st.event('win_create', win=wn, comm=comm, size=size, base=base, own=FALSE)
    return ret(st)


@model('MPI_Win_free')
def win_free(eng, st, a, n):
    k = a[0].tag or 'ptr'
    wn = st.load(k, a[0].e)
    eng.prove(st, And(wn != w.WIN_NULL(eng), wn > 0), 'window-freed-once', n)
    st.store(k, a[0].e, w.WIN_NULL(eng))
    st.event('win_free', win=wn)
    return ret(st)


@model('MPI_Win_get_attr', 'MPI_Comm_get_attr')
def get_attr(eng, st, a, n):
    p = fresh('attr')
    st.assume(And(p > 0, p < st.brk))
    out(eng, st, a[2], 'ptr', p)
    f = fresh('flag')
    st.assume(Or(f == 0, f == 1))
    out(eng, st, a[3], 'i4', f)
    return ret(st)


@model('MPI_Win_set_name', 'MPI_Comm_set_name')
def set_name(eng, st, a, n):
    return ret(st)


# ------------------------------------------------------------ collectives
def moved(eng, st, n, i, buf, count, t, tag):
    """Cell classes and byte extent of a message buffer."""
    return buf, count * w.tsize(eng, t)


def data_fns(nm):
    return {k: Function('%s_%s' % (nm, k), ISORT, KEYSORT.get(k, {'f4': w.F32, 'f8': w.F64}.get(k, ISORT)))
            for k in sorted(DATA_KEYS) + ['ptr']}


def overwrite(st, buf, nbytes, nm, when=TRUE, tag=None):
    """[buf, buf+nbytes) := message data nm(offset); other memory unchanged."""
    fns = data_fns(nm)
    keys = sorted(DATA_KEYS) + ['ptr']
    for k in keys:
        f = fns[k]
        st.havoc(k, lambda a: And(when, a >= buf, a < buf + nbytes), [lambda a, v, s, f=f: [v == f(a - buf)]])
    if tag and tag not in keys:
        kk = {w.F32: 'f4', w.F64: 'f8'}.get(KEYSORT.get(tag), None)
        st.havoc(tag, lambda a: And(when, a >= buf, a < buf + nbytes))
    return fns


_n = [0]


def nm(prefix):
    _n[0] += 1
    return '%s%d' % (prefix, _n[0])


@model('MPI_Bcast')
def mpi_bcast(eng, st, a, n):
    buf, cnt, t, root, comm = [A(a, i) for i in range(5)]
    size = cnt * w.tsize(eng, t)
    eng.prove(st, And(root >= 0, root < GSZ(comm)), 'broadcast-root-exists', n)
    k = a[0].tag
    val = st.load(k or 'ptr', buf) if (k or arg_pointee(st, n, 0).k == 'ptr') else None
    name = nm('BC')
    if arg_pointee(st, n, 0).k == 'rec':
        raise Unsupported('broadcast of a record')
    mem0 = st.mem
    st.event('bcast', buf=buf, count=cnt, type=t, root=root, comm=comm, value=val, size=size, fn=name, mem=mem0)
    overwrite(st, buf, size, name, GR(comm, ME) != root, k)
    if val is not None:
        symmetric(eng, st, 'bcast', value=st.load(k or 'ptr', buf), root=root, comm=comm)
    return ret(st)


@model('MPI_Allreduce', 'MPI_Reduce')
def mpi_allreduce(eng, st, a, n):
    red = eng_callee(n) == 'MPI_Reduce'
    src, dst, cnt, t, op = [A(a, i) for i in range(5)]
    root = A(a, 5) if red else None
    comm = A(a, 6 if red else 5)
    size = cnt * w.tsize(eng, t)
    name = nm('RED')
    one = z3.is_int_value(cnt) and cnt.as_long() == 1
    val = None
    pt = arg_pointee(st, n, 0)
    kin = a[0].tag or ({'int': {1: 'i1', 4: 'i4', 8: 'i8'}}.get(pt.k, {}).get(pt.size) if pt.k == 'int' else None)
    if one and kin:
        val = st.load(kin, src)
    mem0 = st.mem
    st.event('reduce' if red else 'allreduce', src=src, dst=dst, count=cnt, type=t, op=op, comm=comm, root=root,
             value=val, size=size, fn=name, mem=mem0)
    pt2 = arg_pointee(st, n, 1)
    kout = a[1].tag or (pt2.k == 'int' and {1: 'i1', 4: 'i4', 8: 'i8'}.get(pt2.size)) or None
    when = TRUE if not red else GR(comm, ME) == root
    fns = overwrite(st, dst, size, name, when, a[1].tag)
    if one and kout and val is not None:
        r = st.load(kout, dst)
        who = fresh('contributor')
        CV = Function(name + '_in', ISORT, ISORT)
        st.assume(And(who >= 0, who < GSZ(comm), CV(GR(comm, ME)) == val))
        for mx, rel in ((eng.ga('ompi_mpi_op_max'), r >= val), (eng.ga('ompi_mpi_op_min'), r <= val)):
            st.assume(Implies(And(when, op == mx), And(rel, r == CV(who))))
        symmetric(eng, st, 'allreduce', value=r, who=who, comm=comm, op=op)
    return ret(st)


def eng_callee(n):
    c = n['inner'][0]
    while c['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr'):
        c = c['inner'][0]
    return c['referencedDecl']['name']


@model('MPI_Allgather')
def mpi_allgather(eng, st, a, n):
    s, sc, stp, r, rc, rt, comm = [A(a, i) for i in range(7)]
    if any(e[0] == 'allgather' for e in (st.events or ())):
        raise Unsupported('two allgathers')
    pt = arg_pointee(st, n, 0)
    size = sc * w.tsize(eng, stp)
    eng.prove(st, size == rc * w.tsize(eng, rt), 'allgather-lengths-match', n)
    me = GR(comm, ME)
    csz = GSZ(comm)
    mem0 = st.mem
    if pt.k == 'rec':
        eng.prove(st, size == pt.size, 'allgather-whole-record', n)
        for f, (o, ft) in pt.rec.off.items():
            key = '%s.%s' % (pt.rec.name, f)
            reg_key(key, ft)
            F = Function('AG_' + f, ISORT, KEYSORT[key])
            sv = st.load(key, s + o if o else s)
            st.assume(F(me) == sv)

            def hook(addr, v, snk, F=F, o=o):
                q = (addr - r - o) / pt.size
                return [Implies(And(q >= 0, q < csz, addr == r + o + q * pt.size), v == F(q))]
            st.havoc(key, lambda x: And(x >= r, x < r + csz * pt.size), [hook])
    else:
        key = a[0].tag or {1: 'i1', 4: 'i4', 8: 'i8'}[pt.size]
        kout = a[3].tag or {1: 'i1', 4: 'i4', 8: 'i8'}[arg_pointee(st, n, 3).size]
        eng.prove(st, size == pt.size, 'allgather-one-item', n)
        F = Function('AG_item', ISORT, ISORT)
        st.assume(F(me) == st.load(key, s))

        def hook(addr, v, snk):
            q = (addr - r) / pt.size
            return [Implies(And(q >= 0, q < csz, addr == r + q * pt.size), v == F(q))]
        st.havoc(kout, lambda x: And(x >= r, x < r + csz * pt.size), [hook])
    st.event('allgather', comm=comm)
    return ret(st)


# ------------------------------------------------------------ strings
def fmt_unbounded(n):
    """Does the format contain a string conversion (or is it not a literal)?"""
    stack, lits = [n], []
    while stack:
        x = stack.pop()
        if x.get('kind') == 'StringLiteral':
            lits.append(x['value'])
        stack += x.get('inner', [])
    return not lits or any('s' in f.split('%', 1)[-1] and '%s' in f for f in lits)


@model('snprintf', 'sprintf')
def m_snprintf(eng, st, a, n):
    buf = a[0].i()
    k = fresh('printed')
    st.assume(k >= 0)
    if eng_callee(n) == 'snprintf':
        size = a[1].i()
        st.havoc('i1', lambda x: And(x >= buf, x < buf + size))
        st.assume(k < ((1 << 31) if fmt_unbounded(n['inner'][3]) else 200))
    else:
        raise Unsupported('sprintf')
    return ret(st, k)


@model('strlen')
def m_strlen(eng, st, a, n):
    """Number of bytes before the first zero byte."""
    k = fresh('strlen')
    st.assume(And(k >= 0, k < (1 << 40)))
    p = a[0].i()
    key = a[0].tag or 'i1'
    st.assume(st.load(key, p + k) == 0)
    st.assume((k == 0) == (st.load(key, p) == 0))
    return ret(st, k)


def array_len(st, n):
    """Number of elements of the array a (decayed) argument expression names, if it names one whole."""
    while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr'):
        if n.get('castKind') == 'ArrayToPointerDecay':
            t = st.fr.tu.node_type(n['inner'][0])
            return t.n if t.k == 'arr' and isinstance(t.n, int) and t.to.size == 1 else None
        n = n['inner'][0]
    return None


@model('strncpy')
def m_strncpy(eng, st, a, n):
    """At most k bytes are written: the source up to its terminator, then zeros."""
    d, s, k = a[0].i(), a[1].i(), a[2].i()
    room = array_len(st, n['inner'][1])
    if room is not None:
        eng.prove(st, k <= room, 'string-copy-fits-its-buffer', n)
    z = fresh('strlen')
    st.assume(z >= 0)
    st.assume(st.load('i1', s + z) == 0)
    mem0 = st.mem

    def fn(x, old, sink):
        q = x - d
        v = select(mem0, 'i1', s + q, sink)
        sink.add(Implies(And(q >= 0, q < z), v != 0))
        return If(And(q >= 0, q < k), If(q < z, v, IntVal(0)), old)
    st.mapop('i1', fn)
    return ret(st, d)


# ------------------------------------------------------------ communicators
INCL = Function('INCL', ISORT, ISORT, ISORT, ISORT)     # (group, list, n) -> group with those ranks, in order
SPLITG = Function('SPLITG', ISORT, ISORT, ISORT, ISORT)  # (group, color, key) -> the caller's part
BLO = Function('BLO', ISORT, ISORT)      # communicator holds the list positions BLO .. BLO+BN-1, in order
BN = Function('BN', ISORT, ISORT)


def comm_self(eng):
    return eng.ga('ompi_mpi_comm_self')


def newcomm(eng, st, grp):
    c = fresh('comm')
    st.assume(And(c > 0, c != w.COMM_NULL(eng), c != comm_self(eng), c != w.WCOMM, w.GRPOF(c) == grp))
    return c


def valid_comm(eng, st, c, n):
    eng.prove(st, And(c > 0, c != w.COMM_NULL(eng)), 'communicator-valid', n)


@model('MPI_Comm_dup')
def m_cdup(eng, st, a, n):
    c = A(a, 0)
    valid_comm(eng, st, c, n)
    d = newcomm(eng, st, w.GRPOF(c))
    st.assume(d != c)
    out(eng, st, a[1], 'ptr', d)
    st.event('comm_dup', comm=c, new=d)
    return ret(st)


@model('MPI_Group_incl')
def m_gincl(eng, st, a, n):
    g, k, lst = A(a, 0), A(a, 1), A(a, 2)
    eng.prove(st, k >= 0, 'group-size-nonnegative', n)
    x = INCL(g, lst, k)
    st.assume(And(w.COMMSZ(x) == k, w.group_facts(x, ME)))
    out(eng, st, a[3], 'ptr', x)
    st.event('incl', group=g, n=k, list=lst, mem=st.mem)
    return ret(st)


@model('MPI_Comm_create')
def m_ccreate(eng, st, a, n):
    c, g = A(a, 0), A(a, 1)
    valid_comm(eng, st, c, n)
    res = []
    for s, mem in eng.split(st, w.GRg(g, ME) >= 0):
        d = newcomm(eng, s, g) if mem else w.COMM_NULL(eng)
        out(eng, s, a[2], 'ptr', d)
        s.event('comm_create', comm=c, group=g, new=d)
        res += ret(s)
    return res


@model('MPI_Comm_split')
def m_csplit(eng, st, a, n):
    c, col, key = A(a, 0), A(a, 1), A(a, 2)
    valid_comm(eng, st, c, n)
    res = []
    for s, und in eng.split(st, col == w.UNDEF):
        if und:
            d = w.COMM_NULL(eng)
        else:
            g = SPLITG(w.GRPOF(c), col, key)
            s.assume(And(w.GRg(g, ME) >= 0, w.group_facts(g, ME), w.COMMSZ(g) >= 1))
            d = newcomm(eng, s, g)
        out(eng, s, a[3], 'ptr', d)
        s.event('comm_split', comm=c, color=col, key=key, new=d)
        res += ret(s)
    return res


@model('MPI_Comm_free')
def m_cfree(eng, st, a, n):
    k = a[0].tag or 'ptr'
    c = st.load(k, a[0].e)
    eng.prove(st, And(c > 0, c != w.COMM_NULL(eng), c != comm_self(eng)), 'communicator-freed-once', n)
    st.store(k, a[0].e, w.COMM_NULL(eng))
    st.event('comm_free', comm=c)
    return ret(st)


@model('MPI_Intercomm_create')
def m_icreate(eng, st, a, n):
    c, ll, pc, rl, tag = [A(a, i) for i in range(5)]
    valid_comm(eng, st, c, n)
    valid_comm(eng, st, pc, n)
    d = fresh('intercomm')
    st.assume(And(d > 0, d != w.COMM_NULL(eng), d != comm_self(eng), d != w.WCOMM))
    out(eng, st, a[5], 'ptr', d)
    st.event('intercomm', comm=c, leader=ll, peer=pc, remote=rl, tag=tag, new=d)
    return ret(st)


@model('MPI_Intercomm_merge')
def m_imerge(eng, st, a, n):
    d = newcomm(eng, st, fresh('grp'))
    g = st.gh
    if 'RLO' in g:
        lo = If(g['RLO'] < g['MLO'], g['RLO'], g['MLO'])
        hi = If(g['RLO'] < g['MLO'], g['MHI'], g['RHI'])
        st.assume(And(BLO(d) == lo, BN(d) == hi - lo))
    out(eng, st, a[2], 'ptr', d)
    st.event('merge', inter=A(a, 0), high=A(a, 1), new=d)
    return ret(st)


# ------------------------------------------------------------ two-sided messages
STAT = 'ompi_status_public_t'
ANY = -1                  # MPI_ANY_SOURCE, MPI_ANY_TAG of this MPI


def stat_key(f):
    reg_key('%s.%s' % (STAT, f), INT)
    return '%s.%s' % (STAT, f)


def stat_off(eng, f):
    for tu in eng.tus.values():
        if STAT in tu.rec_by_name:
            r = tu.recs[tu.rec_by_name[STAT]]
            tu.layout(r)
            o, t = r.off[f]
            reg_key('%s.%s' % (STAT, f), t)
            return o
    raise Unsupported('no status record')


def stat_at(eng, p, f):
    o = stat_off(eng, f)
    return '%s.%s' % (STAT, f), (p + o if o else p)


@model('MPI_Send')
def m_send(eng, st, a, n):
    buf, cnt, t, dest, tag, comm = [A(a, i) for i in range(6)]
    valid_comm(eng, st, comm, n)
    eng.prove(st, And(dest >= 0, dest < GSZ(comm)), 'message-destination-exists', n)
    eng.prove(st, cnt >= 0, 'message-length-nonnegative', n)
    st.event('send', buf=buf, count=cnt, type=t, size=cnt * w.tsize(eng, t), dest=dest, tag=tag, comm=comm, mem=st.mem)
    return ret(st)


@model('MPI_Recv')
def m_recv(eng, st, a, n):
    buf, cnt, t, src, tag, comm, stat = [A(a, i) for i in range(7)]
    valid_comm(eng, st, comm, n)
    eng.prove(st, And(Or(src == ANY, And(src >= 0, src < GSZ(comm)))), 'message-source-exists', n)
    eng.prove(st, cnt >= 0, 'message-length-nonnegative', n)
    cap = cnt * w.tsize(eng, t)
    m, frm, tg = fresh('msglen'), fresh('sender'), fresh('msgtag')
    st.assume(And(m >= 0, m <= cap, frm >= 0, frm < GSZ(comm), Implies(src != ANY, frm == src), Implies(tag != ANY, tg == tag)))
    name = nm('MSG')
    overwrite(st, buf, m, name, TRUE, a[0].tag)
    st.event('recv', buf=buf, count=cnt, type=t, src=src, tag=tag, comm=comm, size=m, sender=frm, fn=name, cap=cap)
    if not (z3.is_int_value(stat) and stat.as_long() == 0):
        for f, v in (('MPI_SOURCE', frm), ('MPI_TAG', tg), ('_ucount', m)):
            k, x = stat_at(eng, stat, f)
            st.store(k, x, v)
    return ret(st)


@model('MPI_Get_count')
def m_getcount(eng, st, a, n):
    stat, t = A(a, 0), A(a, 1)
    k, x = stat_at(eng, stat, '_ucount')
    b = st.load(k, x)
    sz = w.tsize(eng, t)
    out(eng, st, a[2], 'i4', If(b % sz == 0, b / sz, IntVal(w.UNDEF)))
    return ret(st)


# ------------------------------------------------------------ string comparison
def literal(n):
    """Text of a string-literal argument, or None."""
    while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr'):
        n = n['inner'][0]
    if n.get('kind') == 'StringLiteral':
        import ast
        return ast.literal_eval(n['value'])
    return None


def str_is(rd, p, s, upto=None):
    """The characters at p begin with s (upto None: the whole string is s)."""
    bs = [ord(ch) for ch in s] + ([0] if upto is None else [])
    return And(*[rd('i1', p + i if i else p) == b for i, b in enumerate(bs)])


@model('strncmp', 'strcmp', 'strcasecmp', 'strncasecmp')
def m_strncmp(eng, st, a, n):
    fn = eng_callee(n)
    if 'case' in fn:
        raise Unsupported(fn)
    l0, l1 = literal(n['inner'][1]), literal(n['inner'][2])
    if (l0 is None) == (l1 is None):
        raise Unsupported('%s without one literal' % fn)
    p, s = (a[0].i(), l1) if l0 is None else (a[1].i(), l0)
    k = len(s) + 1
    if fn == 'strncmp':
        m = a[2].i()
        if not z3.is_int_value(m):
            raise Unsupported('strncmp with a variable length')
        k = min(k, m.as_long())
    eq = str_is(st.load, p, s[:k], k) if k <= len(s) else str_is(st.load, p, s)
    r = fresh('cmp')
    st.assume((r == 0) == eq)
    return ret(st, r)
