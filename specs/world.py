"""The vocabulary of the specifications: what a live allocation, a process
group, an outstanding operation and a user buffer are.

Everything here is either a definition, or a *type invariant* of a library data
structure (assumed when a function under contract starts, and itself the
postcondition of the functions that build or change that structure)."""
import z3
from z3 import And, Or, Not, If, IntVal, Implies, Int, Function, BoolVal
from engine.vc import (ISORT, F32, F64, fresh, TRUE, FALSE, add_base_hook, Contract, LoopSpec,
                       KEYSORT, KEYRANGE, select, norm, STACK0, DATA_KEYS)

B = z3.BoolSort()
NP = Int('NP')            # world size
ME = Int('ME')            # calling process, absolute id
WCOMM = Int('WCOMM')      # the library's world communicator
OWN = Function('OWN', ISORT, ISORT, ISORT)      # (ptr, proc) -> allocation or 0
POS = Function('POS', ISORT, ISORT)             # position of a live allocation in the registry
AT = Function('AT', ISORT, ISORT)               # allocation at a position
BLK = Function('BLK', ISORT, ISORT)             # 1: heap block that belongs to a live allocation
LEN = Int('LEN')                                # number of live allocations
GOFW = Function('GOFW', ISORT, ISORT)           # window -> the live allocation that uses it
GRPOF = Function('GRPOF', ISORT, ISORT)         # communicator -> MPI group
COMMSZ = Function('COMMSZ', ISORT, ISORT)       # MPI group -> size
GRg = Function('GRg', ISORT, ISORT, ISORT)      # (MPI group, absolute id) -> rank or UNDEF
GABSg = Function('GABSg', ISORT, ISORT, ISORT)  # (MPI group, rank) -> absolute id
WINSZ = Function('WINSZ', ISORT, ISORT, ISORT)  # bytes exposed by a rank of a window
WINBASE = Function('WINBASE', ISORT, ISORT, ISORT)
WINCOMM = Function('WINCOMM', ISORT, ISORT)
UNDEF = -32766            # MPI_UNDEFINED of this MPI
REQ = Function('REQ', ISORT, ISORT)             # request of log entry j
RJ = Function('RJ', ISORT, ISORT)
WOFF = Int('WOFF')        # watched byte offset (arbitrary)
WEL = Int('WEL')          # watched element (arbitrary)
TSIZE = Function('TSIZE', ISORT, ISORT)         # datatype -> size
TEXT = Function('TEXT', ISORT, ISORT)           # datatype -> true extent
TLB = Function('TLB', ISORT, ISORT)             # datatype -> true lower bound
DERIV = Function('DERIV', ISORT, ISORT)         # 0: the elements lie back to back from the start, else 1
NSEG = Function('NSEG', ISORT, ISORT)           # derived datatype -> number of segments
SEGO = Function('SEGO', ISORT, ISORT, ISORT)    # derived datatype, segment -> byte offset
SEGL = Function('SEGL', ISORT, ISORT)           # derived datatype -> bytes per segment
RB = {k: Function('RB_' + k, ISORT, ISORT, {'f4': F32, 'f8': F64}.get(k, ISORT)) for k in sorted(DATA_KEYS)}
                                                # data returned by log entry j at byte offset

PUT, GET, ACC, GETACC, FOP = 1, 2, 3, 4, 5

LOGF = ['kind', 'win', 'rank', 'disp', 'org', 'oc', 'ot', 'tc', 'tt', 'op', 'res', 'len', 'rlen', 'done', 'req',
        'wb', 'wi', 'wl', 'wf', 'wd']
for _f in LOGF:
    KEYSORT['G:L.' + _f] = {'wf': F32, 'wd': F64}.get(_f, ISORT)
for _k in ('G:live', 'G:bsz', 'G:isg', 'G:rel'):
    KEYSORT[_k] = ISORT
WATCH = {'wb': ('i1', 1), 'wi': ('i4', 4), 'wl': ('i8', 8), 'wf': ('f4', 4), 'wd': ('f8', 8)}


def watch_addr(f, org):
    key, sz = WATCH[f]
    return key, (org + WOFF if f == 'wb' else org + WEL * sz)


def watched_inside(f, n):
    """The watched byte/element lies inside a buffer of n bytes."""
    return WOFF < n if f == 'wb' else WEL * WATCH[f][1] + WATCH[f][1] <= n


def buf_ok(c, a, n):
    """[a, a+n) is memory that existed before the call."""
    return And(a >= 0, Or(a + n <= c.pre_brk, a >= STACK0))


def disjoint(a, n, b, m):
    return Or(n <= 0, m <= 0, a + n <= b, b + m <= a)


_off = {}


def load_layout(eng):
    if _off:
        return
    tu = eng.tus.get('gmr.c') or next(iter(eng.tus.values()))
    for t in list(eng.tus.values()):
        for name in ('gmr_s', 'gmr_slice_t', 'ARMCI_Group', 'global_state_t', 'armci_hdl_t',
                     'armci_giov_t', 'armcix_mutex_hdl_s', 'ctree_node_s', 'armcii_iov_iter_t', 'sel_data_t'):
            r = None
            if name in t.rec_by_name:
                r = t.recs[t.rec_by_name[name]]
            elif isinstance(t.typedefs.get(name), tuple):
                r = t.recs[t.typedefs[name][1]]
            if r is None:
                continue
            t.layout(r)
            from engine.vc import reg_key
            for f, (o, ft) in r.off.items():
                k = '%s.%s' % (r.name, f)
                _off[k] = o
                _off['%s.%s' % (name, f)] = o
                if ft.k not in ('rec',):
                    try:
                        reg_key(k, ft)
                    except Exception:
                        pass
            _off['sizeof ' + (r.name or name)] = r.size
            _off['sizeof ' + name] = r.size
            _off['name ' + name] = r.name


def rec(n):
    return _off.get('name ' + n, n)


def off(k):
    return _off[k]


def fld(rd, key, a):
    """Field `Rec.f` of the record at address a, read with rd."""
    o = off(key)
    r, f = key.split('.')
    key = rec(r) + '.' + f
    return rd(key, a + o if o else a)


def SZ(n):
    return _off['sizeof ' + n]


GS = 'gmr_s'


def GGRP():
    return [k for k in _off if k.endswith('.abs_to_grp')][0].split('.')[0]


# ---------------------------------------------------------------- derived notions
def isg(rd, m):
    return rd('G:isg', m) == 1


def gwin(rd, m):
    return fld(rd, 'gmr_s.window', m)


def ggrp(m):
    return m + off('gmr_s.group')


def grp_comm(rd, g):
    return fld(rd, 'ARMCI_Group.comm', g)


def gcomm(rd, m):
    return grp_comm(rd, ggrp(m))


def gslices(rd, m):
    return fld(rd, 'gmr_s.slices', m)


def sbase(rd, m, p):
    return fld(rd, 'gmr_slice_t.base', gslices(rd, m) + p * SZ('gmr_slice_t'))


def ssize(rd, m, p):
    return fld(rd, 'gmr_slice_t.size', gslices(rd, m) + p * SZ('gmr_slice_t'))


def contains(rd, m, p, ptr):
    b, z = sbase(rd, m, p), ssize(rd, m, p)
    return And(ptr >= b, ptr < b + z)


def in_range(rd, m, p, ptr, n):
    """[ptr, ptr+n) starts inside and does not leave the memory of p in m."""
    b, z = sbase(rd, m, p), ssize(rd, m, p)
    return And(ptr >= b, ptr < b + z, ptr + n <= b + z)


def GR(comm, p):
    return GRg(GRPOF(comm), p)


def GSZ(comm):
    return COMMSZ(GRPOF(comm))


def member(comm, p):
    return GR(comm, p) >= 0


def isproc(p):
    return And(p >= 0, p < NP)


def group_facts(g, p):
    """Membership of absolute process p in MPI group g: rank or MPI_UNDEFINED, invertible."""
    r = GRg(g, p)
    return And(Or(And(r >= 0, r < COMMSZ(g)), r == UNDEF),
               Implies(And(r >= 0, isproc(p)), GABSg(g, r) == p),
               COMMSZ(g) >= 0, COMMSZ(g) <= NP)


def rank_facts(g, r):
    return Implies(And(r >= 0, r < COMMSZ(g)),
                   And(GABSg(g, r) >= 0, GABSg(g, r) < NP, GRg(g, GABSg(g, r)) == r))


def gmr_facts(rd, m, p):
    """Type invariant of a live allocation, instantiated at process p."""
    c, w = gcomm(rd, m), gwin(rd, m)
    b, z = sbase(rd, m, p), ssize(rd, m, p)
    r = GR(c, p)
    return Implies(And(isg(rd, m), isproc(p)),
                   And(z >= 0, b >= 0, Implies(z > 0, b > 0), b + z < Int('BRK0'),
                       group_facts(GRPOF(c), p),
                       Implies(r < 0, z == 0),
                       Implies(r >= 0, And(WINSZ(w, r) == z, WINBASE(w, r) == b)),
                       WINCOMM(w) == c, w > 0, c > 0, GR(c, ME) >= 0,
                       fld(rd, 'ARMCI_Group.size', ggrp(m)) == GSZ(c),
                       group_facts(GRPOF(c), ME)))


def own_facts(rd, ptr, p):
    o = OWN(ptr, p)
    return Implies(isproc(p), Or(o == 0, And(isg(rd, o), contains(rd, o, p, ptr), o > 0)))


def wcomm_facts(p):
    return And(Implies(isproc(p), GR(WCOMM, p) == p), GSZ(WCOMM) == NP,
               Implies(isproc(p), GABSg(GRPOF(WCOMM), p) == p))


PREDEF = [('byte', 1), ('char', 1), ('int', 4), ('long', 8), ('float', 4), ('double', 8),
          ('long_long_int', 8), ('2int', 8)]


_enum = {}


def enumv(eng, name):
    """Value of an enumeration constant of the code."""
    if not _enum:
        for tu in eng.tus.values():
            _enum.update(tu.enum_consts)
    return _enum[name]


def tsize(eng, t):
    """Size of a datatype: a number for a predefined type."""
    if z3.is_int_value(t):
        for nm, sz in PREDEF:
            if eng.ga('ompi_mpi_' + nm).eq(t):
                return IntVal(sz)
    return TSIZE(t)


def type_facts(eng):
    """Sizes of the predefined MPI datatypes on this platform."""
    out = []
    for nm, sz in PREDEF:
        a = eng.ga('ompi_mpi_' + nm)
        out.append(And(TSIZE(a) == sz, TEXT(a) == sz, TLB(a) == 0, DERIV(a) == 0, a > 0))
    return out


def contig(t):
    return DERIV(t) == 0


def contig_facts(t):
    return Implies(DERIV(t) == 0, And(TLB(t) == 0, TEXT(t) == TSIZE(t)))


def T(eng, nm):
    return eng.ga('ompi_mpi_' + nm)


REQUEST_NULL = lambda eng: eng.ga('ompi_request_null')
WIN_NULL = lambda eng: eng.ga('ompi_mpi_win_null')
COMM_NULL = lambda eng: eng.ga('ompi_mpi_comm_null')


# ---------------------------------------------------------------- initial world
def hook_field(eng, key, fn):
    o = off(key)
    r, f = key.split('.')
    k = rec(r) + '.' + f

    def h(a, v, sink):
        m = norm(a - o) if o else a
        return fn(m, v, lambda kk, aa: select(eng.unit_base, kk, aa, sink), sink)
    add_base_hook(eng.unit_base, k, h)


def world(eng, st):
    """Assumptions every unit starts from."""
    load_layout(eng)
    st.gh['Ln'] = fresh('Ln0')
    st.assume(st.gh['Ln'] >= 0)
    st.gh['nlive'] = fresh('nlive0')
    st.gh['clock'] = fresh('clock0')
    for f in type_facts(eng):
        st.assume(f)
    st.assume(And(NP >= 1, ME >= 0, ME < NP, WCOMM > 0, NP < (1 << 31)))
    st.assume(wcomm_facts(ME))
    st.assume(And(WOFF >= 0, WEL >= 0))
    gw = eng.ga('ARMCI_GROUP_WORLD')

    def at_world(fname, val):
        def fn(m, v, rd, sink):
            return [Implies(m == gw, v == val)]
        hook_field(eng, 'ARMCI_Group.' + fname, fn)
    if not getattr(getattr(eng, 'unit_contract', None), 'uninitialised', False):
        at_world('comm', WCOMM)
        at_world('rank', ME)
        at_world('size', NP)
    null = [WIN_NULL(eng), COMM_NULL(eng)]
    st.assume(WCOMM != COMM_NULL(eng))

    def gfield(f, fact):
        def fn(m, v, rd, sink):
            return [Implies(isg(rd, m), fact(m, v, rd))]
        hook_field(eng, 'gmr_s.' + f, fn)
    gfield('window', lambda m, v, rd: And(v > 0, v != WIN_NULL(eng), GOFW(v) == m))

    def hisg(a, v, sink):
        return [Implies(v == 1, And(a > 0, a + SZ('gmr_s') <= Int('BRK0'), POS(a) >= 0, POS(a) < LEN, AT(POS(a)) == a))]
    add_base_hook(eng.unit_base, 'G:isg', hisg)
    gfield('slices', lambda m, v, rd: And(v > 0, v + NP * SZ('gmr_slice_t') <= Int('BRK0')))
    gfield('nslices', lambda m, v, rd: v == NP)
    gfield('next', lambda m, v, rd: And(
        POS(m) >= 0, POS(m) < LEN, AT(POS(m)) == m, m > 0,
        If(POS(m) + 1 < LEN, And(v == AT(POS(m) + 1), isg(rd, v), POS(v) == POS(m) + 1, v > 0), v == 0)))
    gfield('prev', lambda m, v, rd: And(
        POS(m) >= 0, POS(m) < LEN, AT(POS(m)) == m, m > 0,
        If(POS(m) > 0, And(v == AT(POS(m) - 1), isg(rd, v), POS(v) == POS(m) - 1, v > 0), v == 0)))

    def ghead(a, v, sink):
        i = select(eng.unit_base, 'G:isg', v, sink)
        return [Implies(a == eng.ga('gmr_list'),
                        And(LEN >= 0, If(LEN > 0, And(v == AT(0), i == 1, POS(v) == 0, v > 0), v == 0)))]
    add_base_hook(eng.unit_base, 'g:gmr_list', ghead)
    KEYSORT.setdefault('g:gmr_list', ISORT)
    # configuration: only the values the parser can produce
    for f, vals in [('shr_buf_method', (0, 1)), ('strided_method', (0, 1)), ('iov_method', (0, 1, 2, 3))]:
        def fn(m, v, rd, sink, vals=vals):
            return [Implies(m == eng.ga('ARMCII_GLOBAL_STATE'), Or(*[v == x for x in vals]))]
        hook_field(eng, 'global_state_t.' + f, fn)


def at_facts(rd, i):
    """The allocation at registry position i."""
    return Implies(And(i >= 0, i < LEN), And(AT(i) > 0, isg(rd, AT(i)), POS(AT(i)) == i, AT(i) + SZ('gmr_s') <= Int('BRK0')))


def cfg(c, f):
    return fld(c.old, 'global_state_t.' + f, c.eng.ga('ARMCII_GLOBAL_STATE'))


# ---------------------------------------------------------------- the operation log
def L(rd, f, j):
    return rd('G:L.' + f, j)


def logged(c, j, **kw):
    """Log entry j (in the post-state) has the given fields."""
    out = []
    for f, v in kw.items():
        x = L(c.new, f, j)
        out.append(z3.fpEQ(x, v) if False else x == v)
    return And(*out)


def log_modifies(lo, hi, skip=()):
    """Log entries lo..hi-1 are written (lo, hi terms)."""
    return [('G:L.' + f, (lambda a: And(a >= lo, a < hi))) for f in LOGF if f not in skip]


def data_mods(lo, n):
    return [(k, (lambda a: And(a >= lo, a < lo + n))) for k in sorted(DATA_KEYS)]


def all_data(region):
    return [(k, region) for k in sorted(DATA_KEYS)]
