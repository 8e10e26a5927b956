"""Contract verifier: forward symbolic execution of clang's AST of the real
functions, with contracts at calls, invariants at loops, a lazily instantiated
typed memory, and one SMT query (z3) per obligation.

All formulas sent to the solver are quantifier free: "for all" clauses are
Skolemised when they are proved and instantiated at the addresses that are
actually read when they are used.
"""
import re, time
import z3
from z3 import And, Or, Not, If, IntVal, BoolVal, Int, Implies
from . import cparse
from .cparse import T, PTR, INT, ULONG, LONG


class Unsupported(Exception):
    """A construct (or callee) the verifier has no semantics for."""


class Unattachable(Exception):
    """A loop without a usable invariant / a spec naming a vanished local."""


TRUE, FALSE = BoolVal(True), BoolVal(False)
RNE = z3.RNE()
F32, F64 = z3.Float32(), z3.Float64()
ISORT = z3.IntSort()
_ctr = [0]


def fresh(name, sort=ISORT):
    _ctr[0] += 1
    return z3.Const('%s!%d' % (name, _ctr[0]), sort)


def reset_names():
    _ctr[0] = 0


# ------------------------------------------------------------------ values
class V:
    __slots__ = ('e', 'b', 't', 'tag')

    def __init__(self, e=None, t=None, tag=None, b=None):
        self.e, self.t, self.tag, self.b = e, t, tag, b

    def i(self):
        if self.e is None:
            self.e = If(self.b, IntVal(1), IntVal(0))
        return self.e

    def cond(self):
        if self.b is not None:
            return self.b
        if z3.is_int_value(self.e):
            return BoolVal(self.e.as_long() != 0)
        if z3.is_fp(self.e):
            return Not(z3.fpIsZero(self.e))
        return self.e != 0


def typekey(t):
    if t.k == 'ptr':
        return 'ptr'
    if t.k == 'int':
        if t.size == 1:
            return 'i1'
        return ('i%d' if t.signed else 'u%d') % t.size
    if t.k == 'flt':
        return 'f%d' % t.size
    if t.k == 'func':
        return 'ptr'
    raise Unsupported('no cell key for %r' % (t,))


KEYSORT = {}
PTRRANGE = (0, (1 << 63) - 1)
KEYRANGE = {}


def keysort(key):
    if key in KEYSORT:
        return KEYSORT[key]
    if key == 'f4':
        return F32
    if key == 'f8':
        return F64
    return ISORT


def reg_key(key, t):
    """Remember sort and range of a field / global key from its C type."""
    if key in KEYSORT:
        return
    while t.k == 'arr':
        t = t.to
    if t.k == 'flt':
        KEYSORT[key] = F32 if t.size == 4 else F64
    else:
        KEYSORT[key] = ISORT
        r = trange(t)
        if r:
            KEYRANGE[key] = r


def trange(t):
    if t.k == 'int':
        if t.name in ('_Bool', 'bool'):
            return (0, 1)
        b = t.size * 8
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t.signed else (0, (1 << b) - 1)
    if t.k == 'ptr':
        return PTRRANGE
    return None


for _k, _r in {'i1': (-128, 127), 'i2': (-32768, 32767), 'u2': (0, 65535),
               'i4': (-2**31, 2**31 - 1), 'u4': (0, 2**32 - 1),
               'i8': (-2**63, 2**63 - 1), 'u8': (0, 2**64 - 1), 'ptr': (0, 2**63 - 1)}.items():
    KEYRANGE[_k] = _r


# ------------------------------------------------------------------ memory
class Op:
    __slots__ = ('kind', 'prev', 'key', 'addr', 'val', 'src', 'n', 'region', 'base', 'hooks',
                 'memo', 'fn', 'depth')

    def __init__(self, kind, prev):
        self.kind, self.prev = kind, prev
        self.memo = {}
        self.hooks = []
        self.depth = prev.depth + 1 if prev is not None else 0


# cells that user data may live in: memcpy-like operations move all of these
DATA_KEYS = {'i1', 'i4', 'i8', 'f4', 'f8'}     # cell classes user data is viewed through
STACK0 = 1 << 40                   # automatic objects live above every heap block


def is_data_key(key):
    return key in DATA_KEYS


_diffcache = {}


def addr_cmp(a, b):
    """True: equal, False: provably different by constant offset, None: unknown."""
    if a.eq(b):
        return True
    k = (a.get_id(), b.get_id())
    r = _diffcache.get(k)
    if r is None:
        d = z3.simplify(a - b)
        if z3.is_int_value(d):
            v = d.as_long() == 0
        else:
            v = None
        _diffcache[k] = (v, a, b)
        return v
    return r[0]


class Sink:
    """Collects facts produced by lazy instantiation."""

    def __init__(self):
        self.facts = []
        self.ids = set()

    def add(self, f):
        if z3.is_true(f):
            return
        i = f.get_id()
        if i not in self.ids:
            self.ids.add(i)
            self.facts.append(f)


_normcache = {}


def norm(a):
    """Canonical form of an address term."""
    if z3.is_int_value(a) or z3.is_const(a):
        return a
    i = a.get_id()
    r = _normcache.get(i)
    if r is None:
        r = (z3.simplify(a), a)
        _normcache[i] = r
        _normcache[r[0].get_id()] = (r[0], r[0])
    return r[0]


def select(op, key, addr, sink):
    """Value of cell `addr` of class `key` in the memory whose last op is `op`."""
    a = norm(addr)
    pend = []            # list of (cond, value) from stores above
    while True:
        k = op.kind
        if k == 'store':
            if op.key == key:
                c = addr_cmp(op.addr, a)
                if c is True:
                    v = op.val
                    break
                if c is None:
                    pend.append((op.addr == a, op.val))
            op = op.prev
        elif k == 'havoc':
            if op.key == key:
                inreg = op.region(a) if op.region is not None else TRUE
                inreg = z3.simplify(inreg) if not isinstance(inreg, bool) else BoolVal(inreg)
                if z3.is_false(inreg):
                    op = op.prev
                    continue
                fv = _fresh_read(op, key, a, sink)
                if z3.is_true(inreg):
                    v = fv
                    break
                pend.append((inreg, fv))
            op = op.prev
        elif k == 'fresh':
            if not key.startswith('G:L.') and not key.startswith('g:') and not (
                    z3.is_int_value(a) and not (1 << 30) < a.as_long() < STACK0):
                inreg = z3.simplify(And(a >= op.addr, a < op.n))
                if not z3.is_false(inreg):
                    fv = _fresh_read(op, key, a, sink)
                    if z3.is_true(inreg):
                        v = fv
                        break
                    pend.append((inreg, fv))
            op = op.prev
        elif k == 'copy':
            if key in op.val:
                inr = z3.simplify(And(a >= op.addr, a < op.addr + op.n))
                if z3.is_false(inr):
                    op = op.prev
                    continue
                sv = select(op.prev, key, z3.simplify(a - op.addr + op.src), sink)
                if z3.is_true(inr):
                    v = sv
                    break
                pend.append((inr, sv))
            op = op.prev
        elif k == 'map':
            if op.key == key:
                old = select(op.prev, key, a, sink)
                v = op.fn(a, old, sink)
                break
            op = op.prev
        elif k == 'base':
            v = _fresh_read(op, key, a, sink)
            break
        elif k == 'mark':
            op = op.prev
        else:
            raise AssertionError(k)
    for c, x in reversed(pend):
        v = If(c, x, v)
    return v


def _fresh_read(op, key, a, sink):
    mk = (key, a.get_id())
    m = op.memo.get(mk)
    if m is None:
        f = z3.Function('%s@%s' % (key, op.base), ISORT, keysort(key))
        v = f(a)
        if _depth[0] > 3:
            _trunc[0] += 1
            return v                          # instantiation bound: facts dropped, never added
        sub = Sink()
        op.memo[mk] = (v, sub.facts, a)      # set first: hooks may re-read
        r = KEYRANGE.get(key)
        if r:
            if r == PTRRANGE and op.kind == 'base':
                sub.add(And(v >= 0, v < Int('BRK0')))
            else:
                sub.add(And(v >= r[0], v <= r[1]))
        hooks = op.hooks.get(key, []) if isinstance(op.hooks, dict) else op.hooks
        _depth[0] += 1
        tr = _trunc[0]
        try:
            for h in hooks:
                for f2 in h(a, v, sub):
                    sub.add(f2)
        finally:
            _depth[0] -= 1
        m = op.memo[mk]
        if _trunc[0] != tr and _depth[0] > 0:
            del op.memo[mk]                   # incomplete: complete it when read at top level
    v, facts, _ = m
    for f2 in facts:
        sink.add(f2)
    return v


_basecount = [0]
_depth = [0]
_trunc = [0]


class Frame:
    def __init__(self, fn, tu):
        self.fn, self.tu = fn, tu
        self.vars = {}       # declid -> V (register) or ('mem', addr, key, T)
        self.names = {}      # name -> declid (latest declared)
        self.addr_taken = None
        self.vla = {}        # declid -> length term of a variable array

    def copy(self):
        f = Frame(self.fn, self.tu)
        f.vars = dict(self.vars)
        f.names = dict(self.names)
        f.addr_taken = self.addr_taken
        f.vla = self.vla
        return f


class State:
    def __init__(self):
        self.pc = []
        self.pcids = set()
        self.mem = None
        self.frames = []
        self.gh = {}
        self.brk = None
        self.trace = []
        self.guard = []       # temporary guards for pure sub-expressions
        self.dead = False
        self.events = ()      # MPI events on this path (None: unknown)

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.pcids = set(self.pcids)
        s.mem = self.mem
        s.frames = [f.copy() for f in self.frames]
        s.gh = dict(self.gh)
        s.brk = self.brk
        s.trace = list(self.trace)
        s.guard = list(self.guard)
        s.events = self.events
        return s

    # Sink protocol
    def add(self, f):
        if z3.is_true(f):
            return
        i = f.get_id()
        if i not in self.pcids:
            self.pcids.add(i)
            self.pc.append(f)

    def assume(self, f):
        if isinstance(f, bool):
            f = BoolVal(f)
        if self.guard:
            f = Implies(And(*self.guard), f)
        self.add(f)

    def load(self, key, addr):
        if key == '?mixed':
            raise Unsupported('access through a pointer of unknown class')
        return select(self.mem, key, addr, self)

    def store(self, key, addr, val):
        if key == '?mixed':
            raise Unsupported('access through a pointer of unknown class')
        o = Op('store', self.mem)
        o.key, o.addr, o.val = key, norm(addr), val
        self.mem = o

    def havoc(self, key, region, hooks=()):
        o = Op('havoc', self.mem)
        _ctr[0] += 1
        o.key, o.region, o.base, o.hooks = key, region, 'h%d' % _ctr[0], list(hooks)
        self.mem = o
        return o

    def freshop(self, lo, hi):
        """Memory allocated by a callee: arbitrary contents."""
        o = Op('fresh', self.mem)
        _ctr[0] += 1
        o.addr, o.n, o.base, o.hooks = lo, hi, 'f%d' % _ctr[0], {}
        self.mem = o
        return o

    def copyop(self, dst, src, n, keys=None):
        o = Op('copy', self.mem)
        o.addr, o.src, o.n = dst, src, n
        o.val = DATA_KEYS if keys is None else keys
        self.mem = o

    def mapop(self, key, fn):
        o = Op('map', self.mem)
        o.key, o.fn = key, fn
        self.mem = o

    def event(self, name, **kw):
        if self.events is not None:
            self.events = self.events + ((name, kw),)

    @property
    def fr(self):
        return self.frames[-1]


class LV:
    __slots__ = ('kind', 'id', 'addr', 'key', 't')

    def __init__(self, kind, t, id=None, addr=None, key=None):
        self.kind, self.t, self.id, self.addr, self.key = kind, t, id, addr, key


# ------------------------------------------------------------------ obligations
class Oblig:
    __slots__ = ('name', 'func', 'status', 'time', 'line', 'model', 'detail', 'pc', 'goal')

    def __init__(self, name, func, status, t, line, model=None, detail=''):
        self.name, self.func, self.status, self.time, self.line = name, func, status, t, line
        self.model, self.detail = model, detail


class Stats:
    def __init__(self):
        self.obl = []
        self.queries = 0
        self.solver_time = 0.0
        self.paths = 0
        self.assumptions = set()
        self.inlined = set()
        self.called = set()
        self.external = set()


def wrap_int(e, t):
    """C integer conversion to type t of a mathematical integer."""
    r = trange(t)
    if r is None:
        return e
    if z3.is_int_value(e):
        v = e.as_long()
        m = 1 << (t.size * 8)
        if t.name in ('_Bool', 'bool'):
            return IntVal(1 if v else 0)
        v %= m
        if t.signed and v >= m // 2:
            v -= m
        return IntVal(v)
    if t.name in ('_Bool', 'bool'):
        return If(e != 0, IntVal(1), IntVal(0))
    m = 1 << (t.size * 8)
    if t.signed:
        w = (e + m // 2) % m - m // 2
    else:
        w = e % m
    return If(And(e >= r[0], e <= r[1]), e, w)


MULF = z3.Function('mul', ISORT, ISORT, ISORT)


def split_goal(g, hyp):
    """Sequents (hypotheses, conclusion) whose conjunction is the goal."""
    if z3.is_and(g):
        h = list(hyp)
        for x in g.children():
            yield from split_goal(x, h)
            h = h + [x]
        return
    if z3.is_or(g):
        ch = g.children()
        c = [x for x in ch if z3.is_and(x)]
        if c:
            yield from split_goal(c[-1], hyp + [Not(x) for x in ch if not x.eq(c[-1])])
            return
    if z3.is_not(g) and z3.is_or(g.arg(0)):
        yield from split_goal(And(*[Not(x) for x in g.arg(0).children()]), hyp)
        return
    yield hyp, g


class Engine:
    def __init__(self, contracts, lib, stats=None, opts=None):
        self.contracts = contracts        # name -> Contract instance
        self.lib = lib                    # name -> fn(engine, state, args, node) -> [(state, V)]
        self.stats = stats or Stats()
        self.opts = dict(timeout=20000, overflow=True, unroll=12, inline_depth=6,
                         feas_timeout=3000, max_paths=4000, noabort=True)
        if opts:
            self.opts.update(opts)
        self.tus = {}
        self.funcs = {}
        self.cur = '?'
        self.failed = []
        self.gaddr = {}
        self.addr_taken_cache = {}
        self.strs = {}
        self.abort_hits = 0
        self.rets = 0
        self.world = None
        self.deadline = None
        self.stk = STACK0
        self.gnext = 1 << 20
        self.abort_ok = None

    # ---------------------------------------------------------- sources
    def load_all(self):
        for f, tu in sorted(cparse.parse_all().items()):
            self.tus[f] = tu
            for n, fn in tu.funcs.items():
                if n.startswith('__'):
                    continue
                if fn.get('storageClass') == 'static':
                    self.funcs[(f, n)] = (tu, fn)
                    self.funcs.setdefault(n, (tu, fn))
                else:
                    self.funcs[n] = (tu, fn)

    def find(self, name, tu=None):
        if tu is not None and name in tu.funcs:
            return tu, tu.funcs[name]
        return self.funcs.get(name)

    # ---------------------------------------------------------- solver
    def solver(self, pc, timeout):
        s = z3.Solver()
        s.set('timeout', timeout)
        for f in pc:
            s.add(f)
        return s

    def check(self, pc, extra, timeout, arith=None, seed=0, linear=False):
        if self.deadline and time.time() > self.deadline:
            raise Unattachable('unit time budget exhausted')
        t0 = time.time()
        s = self.solver(pc, timeout)
        if linear:                       # products as opaque terms: unsat stays sound
            s.set('arith.nl', False)
        if arith is not None:
            s.set('arith.solver', arith)
            s.set('random_seed', seed)
        for x in extra:
            s.add(x)
        r = s.check()
        self.stats.queries += 1
        self.stats.solver_time += time.time() - t0
        return r, s

    def feasible(self, st, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        g = list(st.guard)
        r, _ = self.check(st.pc, g + [c], self.opts['feas_timeout'], linear=self.opts.get('linear', False))
        return r != z3.unsat

    def strategies(self, fs, timeout):
        r, s2 = z3.unknown, None
        for tac in ('smt2', 'qfnia'):
            s2 = z3.Then('simplify', 'solve-eqs', 'smt').solver() if tac == 'smt2' else z3.SolverFor('QF_UFNIA')
            s2.set('timeout', timeout)
            for f in fs:
                s2.add(f)
            t0 = time.time()
            r = s2.check()
            self.stats.queries += 1
            self.stats.solver_time += time.time() - t0
            if r != z3.unknown:
                break
        return r, s2

    def prove(self, st, goal, name, node=None):
        """One obligation: st.pc (and the current guards) entail goal."""
        if isinstance(goal, bool):
            goal = BoolVal(goal)
        line = cparse.sloc(node) if node is not None else (st.trace[-1] if st.trace else 0)
        g = z3.simplify(goal)
        if z3.is_true(g):
            self.stats.obl.append(Oblig(name, self.cur, 'proved', 0.0, line))
            return True
        t0 = time.time()
        full = self.opts['timeout']
        r = z3.unknown
        if self.opts.get('linear'):
            r, s = self.check(st.pc, list(st.guard) + [Not(g)], min(4000, full), linear=True)
        if r != z3.unsat:
            r, s = self.check(st.pc, list(st.guard) + [Not(g)], min(4000, full))
        if r == z3.unknown:
            for seed in (0, 5, 9):      # z3's older arithmetic
                r, s = self.check(st.pc, list(st.guard) + [Not(g)], min(8000, full), arith=2, seed=seed)
                if r != z3.unknown:
                    break
        if r == z3.unknown:
            # piece by piece, each with the full time and several strategies
            base = list(st.pc) + list(st.guard)
            for hyp, piece in split_goal(g, []):
                r, s = self.check(base, hyp + [Not(piece)], full)
                if r == z3.unknown:
                    r, s = self.strategies(base + hyp + [Not(piece)], full)
                if r != z3.unsat:
                    break
        dt = time.time() - t0
        self.stats.solver_time += 0
        if r == z3.unsat:
            self.stats.obl.append(Oblig(name, self.cur, 'proved', dt, line))
            st.assume(goal)
            return True
        model = None
        if r == z3.sat:
            model = s.model()
        o = Oblig(name, self.cur, 'failed' if r == z3.sat else 'unknown', dt, line, model,
                  'path lines: %s' % st.trace[-40:])
        o.pc = list(st.pc)
        o.goal = g
        self.stats.obl.append(o)
        self.failed.append((o, st))
        st.assume(goal)
        return False

    # ---------------------------------------------------------- globals
    def global_lv(self, tu, decl, t):
        nm = decl['name']
        if decl.get('storageClass') == 'static':
            nm = tu.path.split('/')[-1] + ':' + nm + ':' + (decl['id'] if decl['id'] not in tu.globals else '')
        a = self.ga(nm)
        if t.k == 'rec':
            return LV('mem', t, addr=a, key=None)
        key = 'g:' + nm
        reg_key(key, t)
        return LV('mem', t, addr=a, key=key)

    def gkey(self, name):
        return 'g:' + name

    def ga(self, nm):
        """Concrete, distinct address of a global / string / function."""
        a = self.gaddr.get(nm)
        if a is None:
            a = IntVal(self.gnext)
            self.gnext += 4096
            self.gaddr[nm] = a
        return a

    # ---------------------------------------------------------- lvalues
    def addr_taken(self, fn):
        k = fn['id']
        r = self.addr_taken_cache.get(k)
        if r is not None:
            return r
        r = set()

        def base(n):
            kk = n['kind']
            if kk == 'DeclRefExpr':
                r.add(n['referencedDecl']['id'])
            elif kk in ('ParenExpr',):
                base(n['inner'][0])
            elif kk == 'MemberExpr' and not n.get('isArrow'):
                base(n['inner'][0])

        def go(n):
            if n.get('kind') == 'UnaryOperator' and n.get('opcode') == '&':
                base(n['inner'][0])
            for c in n.get('inner', []):
                if isinstance(c, dict) and c:
                    go(c)
        go(fn)
        self.addr_taken_cache[k] = r
        return r

    def alloc(self, st, size, name='blk', counted=False):
        """Heap block: above every address that existed before."""
        b = fresh('&' + name)
        st.assume(b >= st.brk)
        st.assume(b % 16 == 0)
        nb = fresh('brk')
        if isinstance(size, int):
            st.assume(nb >= b + size + 16)
        else:
            st.assume(nb >= b + 16)
            st.assume(Implies(size >= 0, nb >= b + size + 16))
        st.assume(nb < STACK0)
        st.brk = nb
        return b

    def salloc(self, st, size, name='loc'):
        """Automatic object: a concrete address never used before."""
        if not isinstance(size, int) and not z3.is_int_value(size):
            a = self.stk
            self.stk += 1 << 36
            st.assume(size < (1 << 36))
            return IntVal(a)
        n = size if isinstance(size, int) else size.as_long()
        a = self.stk
        self.stk += (max(n, 1) + 31) // 16 * 16
        return IntVal(a)

    def declare(self, st, d, init=None):
        """Create local variable d in the current frame; returns its LV."""
        tu = st.fr.tu
        t = tu.node_type(d)
        did = d['id']
        st.fr.names[d['name']] = did
        if d.get('storageClass') == 'static':
            return self.global_lv(tu, d, t)
        if t.k in ('arr', 'rec') or did in st.fr.addr_taken:
            size = t.size
            if t.k == 'arr' and not isinstance(t.n, int):
                n = self.vla_len(st, t.n)
                size = n * t.to.size
                st.fr.vla = dict(st.fr.vla, **{did: n})
            a = self.salloc(st, size, d['name'])
            if t.k == 'rec':
                key = None
            elif t.k == 'arr':
                key = self._arrkey(t)
            else:
                key = typekey(t)
            st.fr.vars[did] = ('mem', a, key, t)
            return LV('mem', t, addr=a, key=key)
        st.fr.vars[did] = V(fresh(d['name'], self._sort(t)), t)
        r = trange(t)
        if r:
            e = st.fr.vars[did].e
            st.assume(And(e >= r[0], e <= r[1]))
        return LV('loc', t, id=did)

    def _arrkey(self, t):
        x = t
        while x.k == 'arr':
            x = x.to
        return None if x.k == 'rec' else typekey(x)

    def _sort(self, t):
        if t.k == 'flt':
            return F32 if t.size == 4 else F64
        return ISORT

    def index_bound(self, st, base, i, n):
        """Subscript of a declared array of known length stays inside it."""
        x = base
        while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr') and x.get('castKind') in (None, 'NoOp'):
            x = x['inner'][0]
        if x.get('castKind') != 'ArrayToPointerDecay':
            return
        try:
            t = st.fr.tu.node_type(x['inner'][0])
        except cparse.ParseError:
            return
        if t.k != 'arr':
            return
        ln = t.n
        if not isinstance(ln, int):
            ln = st.fr.vla.get(x['inner'][0].get('referencedDecl', {}).get('id'))
        if ln is None or isinstance(ln, int) and ln <= 1:
            return
        self.prove(st, And(i >= 0, i < ln), 'index-within-array', n)

    def vla_len(self, st, s):
        """Length of a VLA from its source text (simple sums only)."""
        tot = IntVal(0)
        for part in s.split('+'):
            part = part.strip()
            if re.fullmatch(r'\d+', part):
                tot = tot + int(part)
            elif part in st.fr.names:
                tot = tot + self.read_local(st, st.fr.names[part]).i()
            else:
                raise Unsupported('VLA length %r' % s)
        return tot

    def read_local(self, st, did):
        v = st.fr.vars[did]
        if isinstance(v, tuple):
            return V(st.load(v[2], v[1]), v[3])
        return v

    def lv_of_decl(self, st, node):
        rd = node['referencedDecl']
        did = rd['id']
        tu = st.fr.tu
        if did in st.fr.vars:
            v = st.fr.vars[did]
            if isinstance(v, tuple):
                return LV('mem', v[3], addr=v[1], key=v[2])
            return LV('loc', v.t, id=did)
        d = tu.decls.get(did)
        if d is None:
            d = rd
        t = tu.node_type(node)
        if d['kind'] == 'VarDecl':
            if d.get('storageClass') != 'static':
                # a file-scope definition elsewhere in the TU may be static
                for g in tu.globals.values():
                    if g['name'] == d['name'] and g.get('storageClass') == 'static' and did in (g['id'], g.get('previousDecl')):
                        d = g
                        break
            return self.global_lv(tu, d, t)
        raise Unsupported('lvalue of %s %s' % (d['kind'], d.get('name')))

    def lval(self, st, n):
        k = n['kind']
        if k == 'DeclRefExpr':
            return [(st, self.lv_of_decl(st, n))]
        if k == 'ParenExpr':
            return self.lval(st, n['inner'][0])
        if k == 'MemberExpr':
            return self.lval_member(st, n)
        if k == 'ArraySubscriptExpr':
            out = []
            tu = st.fr.tu
            t = tu.node_type(n)
            a, b = n['inner']
            for s1, pv in self.ev(st, a):
                for s2, iv in self.ev(s1, b):
                    if pv.t.k != 'ptr':
                        pv, iv = iv, pv
                        a, b = b, a
                    self.index_bound(s2, a, iv.i(), n)
                    addr = pv.e + iv.i() * t.size if not (z3.is_int_value(iv.i()) and iv.i().as_long() == 0) else pv.e
                    out.append((s2, self._deref_lv(s2, addr, t, pv.tag, n)))
            return out
        if k == 'UnaryOperator' and n['opcode'] == '*':
            out = []
            t = st.fr.tu.node_type(n)
            for s, pv in self.ev(st, n['inner'][0]):
                out.append((s, self._deref_lv(s, pv.e, t, pv.tag, n)))
            return out
        if k == 'CompoundLiteralExpr':
            t = st.fr.tu.node_type(n)
            a = self.salloc(st, t.size, 'complit')
            lv = LV('mem', t, addr=a, key=None if t.k == 'rec' else self._arrkey(t) if t.k == 'arr' else typekey(t))
            return [(s, lv) for s in self.init(st, lv, n['inner'][0])]
        if k == 'StringLiteral':
            return [(st, self.strlit(st, n))]
        if k == 'ImplicitCastExpr' and n.get('castKind') == 'NoOp':
            return self.lval(st, n['inner'][0])
        if k == 'PredefinedExpr':
            return self.lval(st, n['inner'][0])
        if k in ('UnaryOperator',) and n['opcode'] in ('__extension__', '__real', '__imag'):
            if n['opcode'] == '__extension__':
                return self.lval(st, n['inner'][0])
            out = []
            for s, lv in self.lval(st, n['inner'][0]):
                w = lv.t.size // 2
                ft = cparse.DBL if w == 8 else cparse.FLT
                if lv.kind != 'mem':
                    raise Unsupported('complex register')
                out.append((s, LV('mem', ft, addr=lv.addr + (w if n['opcode'] == '__imag' else 0), key=typekey(ft))))
            return out
        raise Unsupported('lvalue kind %s line %s' % (k, cparse.sloc(n)))

    def strlit(self, st, n):
        s = n['value']
        self.strs[s] = self.ga('str:' + s)
        t = st.fr.tu.node_type(n)
        return LV('mem', t, addr=self.strs[s], key='i1')

    def _deref_lv(self, st, addr, t, tag, n):
        if not self.opts.get('nonull_off'):
            if not z3.is_true(z3.simplify(addr > 0)):
                self.prove(st, addr != 0, 'no-null-deref', n)
        if t.k == 'rec':
            return LV('mem', t, addr=addr, key=None)
        if t.k == 'arr':
            return LV('mem', t, addr=addr, key=tag or self._arrkey(t))
        if t.k == 'cplx':
            return LV('mem', t, addr=addr, key=None)
        return LV('mem', t, addr=addr, key=tag or typekey(t))

    def lval_member(self, st, n):
        tu = st.fr.tu
        rec, fname = tu.fields[n['referencedMemberDecl']]
        tu.layout(rec)
        if rec.kind == 'union':
            raise Unsupported('union member')
        off, ft = rec.off[fname]
        out = []

        def mk(s, addr):
            key = None
            if ft.k != 'rec':
                key = '%s.%s' % (rec.name, fname)
                reg_key(key, ft)
                if ft.k == 'arr' and ft.to.k == 'rec':
                    key = None
            a = addr + off if off else addr
            return LV('mem', ft, addr=a, key=key)
        if n.get('isArrow'):
            for s, pv in self.ev(st, n['inner'][0]):
                if not z3.is_true(z3.simplify(pv.e > 0)) and not self.opts.get('nonull_off'):
                    self.prove(s, pv.e != 0, 'no-null-deref', n)
                out.append((s, mk(s, pv.e)))
        else:
            for s, lv in self.lval(st, n['inner'][0]):
                out.append((s, mk(s, lv.addr)))
        return out

    def load(self, st, lv):
        if lv.kind == 'loc':
            return st.fr.vars[lv.id]
        t = lv.t
        if t.k in ('rec', 'arr', 'cplx'):
            return V(lv.addr, t)       # aggregate: value is its address
        e = st.load(lv.key, lv.addr)
        if t.k == 'int' and lv.key == 'i1' and not t.signed:
            e = If(e < 0, e + 256, e)
        return V(e, t)

    def store(self, st, lv, v):
        t = lv.t
        if lv.kind == 'loc':
            st.fr.vars[lv.id] = V(v.e, t, v.tag, v.b)
            return
        if t.k in ('rec', 'cplx'):
            self.copy_rec(st, t, lv.addr, v.e)
            return
        if v.tag is not None and t.k == 'ptr' and v.tag not in ('ptr', 'i1', 'i4', 'u4', 'i8', 'u8', 'f4', 'f8'):
            to = t.to
            if not (to.k in ('void', 'rec', 'func', 'opaque')):
                raise Unsupported('address of a field or global escapes into memory (%s)' % v.tag)
        e = v.i() if v.e is None else v.e
        if lv.key == 'i1' and not t.signed:
            e = If(e > 127, e - 256, e)
        st.store(lv.key, lv.addr, e)

    def copy_rec(self, st, t, dst, srca):
        if t.k == 'cplx':
            w = t.size // 2
            k = 'f%d' % w
            a, b = st.load(k, srca), st.load(k, srca + w)
            st.store(k, dst, a)
            st.store(k, dst + w, b)
            return
        rec = t.rec
        if rec.kind == 'union':
            raise Unsupported('union copy')
        for fname, (off, ft) in rec.off.items():
            if ft.k == 'rec':
                self.copy_rec(st, ft, dst + off, srca + off)
            elif ft.k == 'arr':
                for i in range(ft.n):
                    key = '%s.%s' % (rec.name, fname)
                    reg_key(key, ft)
                    o = off + i * ft.to.size
                    st.store(key, dst + o, st.load(key, srca + o))
            else:
                key = '%s.%s' % (rec.name, fname)
                reg_key(key, ft)
                st.store(key, dst + off, st.load(key, srca + off))

    # ---------------------------------------------------------- expressions
    def ev(self, st, n):
        """Evaluate to a list of (state, V)."""
        k = n['kind']
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            raise Unsupported('expression %s line %s' % (k, cparse.sloc(n)))
        return m(st, n)

    def ev_IntegerLiteral(self, st, n):
        return [(st, V(IntVal(int(n['value'])), st.fr.tu.node_type(n)))]

    def ev_CharacterLiteral(self, st, n):
        return [(st, V(IntVal(int(n['value'])), st.fr.tu.node_type(n)))]

    def ev_FloatingLiteral(self, st, n):
        t = st.fr.tu.node_type(n)
        return [(st, V(z3.FPVal(n['value'], F32 if t.size == 4 else F64), t))]

    def ev_StringLiteral(self, st, n):
        lv = self.strlit(st, n)
        return [(st, V(lv.addr, PTR(cparse.CHAR)))]

    def ev_ParenExpr(self, st, n):
        return self.ev(st, n['inner'][0])

    def ev_ConstantExpr(self, st, n):
        if 'value' in n and re.fullmatch(r'-?\d+', n['value']):
            return [(st, V(IntVal(int(n['value'])), st.fr.tu.node_type(n)))]
        return self.ev(st, n['inner'][0])

    def ev_PredefinedExpr(self, st, n):
        return self.ev(st, n['inner'][0])

    def ev_StmtExpr(self, st, n):
        body = n['inner'][0]
        out = []
        for s, oc, v in self.ex(st, body):
            if oc != 'n':
                raise Unsupported('control flow out of statement expression')
            out.append((s, V(IntVal(0), cparse.VOID)))
        return out

    def ev_DeclRefExpr(self, st, n):
        rd = n['referencedDecl']
        if rd['kind'] == 'EnumConstantDecl':
            return [(st, V(IntVal(st.fr.tu.enums[rd['id']]), INT))]
        if rd['kind'] == 'FunctionDecl':
            a = self.ga('fn:' + rd['name'])
            return [(st, V(a, PTR(cparse.VOID)))]
        lv = self.lv_of_decl(st, n)
        return [(st, self.load(st, lv))]

    def ev_MemberExpr(self, st, n):
        return [(s, self.load(s, lv)) for s, lv in self.lval(st, n)]

    ev_ArraySubscriptExpr = ev_MemberExpr
    ev_CompoundLiteralExpr = ev_MemberExpr

    def ev_ImplicitValueInitExpr(self, st, n):
        t = st.fr.tu.node_type(n)
        if t.k == 'flt':
            return [(st, V(z3.FPVal(0.0, self._sort(t)), t))]
        return [(st, V(IntVal(0), t))]

    def ev_UnaryExprOrTypeTraitExpr(self, st, n):
        tu = st.fr.tu
        if n.get('name') != 'sizeof':
            raise Unsupported(n.get('name'))
        if 'argType' in n:
            try:
                t = tu.typ(n['argType']['qualType'])
            except cparse.ParseError:
                t = tu.typ(n['argType']['desugaredQualType'])
        else:
            t = tu.node_type(n['inner'][0])
        sz = t.size
        if t.k == 'arr' and not isinstance(t.n, int):
            return [(st, V(self.vla_len(st, t.n) * t.to.size, ULONG))]
        if sz == 0:
            raise Unsupported('sizeof %r' % t)
        return [(st, V(IntVal(sz), ULONG))]

    def ev_ImplicitCastExpr(self, st, n):
        ck = n['castKind']
        sub = n['inner'][0]
        tu = st.fr.tu
        if ck == 'LValueToRValue':
            out = []
            for s, lv in self.lval(st, sub):
                v = self.load(s, lv)
                out.append((s, v))
            return out
        if ck == 'ArrayToPointerDecay':
            out = []
            for s, lv in self.lval(st, sub):
                tag = lv.key
                if tag == self._tk(lv.t.to) or self._tk(lv.t.to) == 'i1':
                    tag = None      # byte arrays inside records are raw storage
                out.append((s, V(lv.addr, PTR(lv.t.to), tag)))
            return out
        if ck == 'FunctionToPointerDecay' or ck == 'BuiltinFnToFnPtr':
            return self.ev(st, sub)
        t = tu.node_type(n)
        return [(s, self.cast(s, v, t, ck, n)) for s, v in self.ev(st, sub)]

    def _tk(self, t):
        try:
            return typekey(t)
        except Unsupported:
            return None

    ev_CStyleCastExpr = ev_ImplicitCastExpr

    def cast(self, st, v, t, ck, n=None):
        if ck in ('NoOp', 'LValueBitCast'):
            return V(v.e, t, v.tag, v.b)
        if ck == 'ToVoid':
            return V(IntVal(0), cparse.VOID)
        if ck == 'NullToPointer':
            return V(IntVal(0), t)
        if ck == 'BitCast':
            return V(v.e, t, v.tag)
        if ck in ('IntegralToPointer', 'PointerToIntegral'):
            e = v.i() if v.e is None else v.e
            if ck == 'PointerToIntegral' and t.size < 8:
                e = wrap_int(e, t)
            return V(e, t, v.tag)
        if ck == 'IntegralCast':
            if v.b is not None and v.e is None:
                return V(None, t, b=v.b)
            src = v.t
            rs, rt = trange(src), trange(t)
            if rs and rt and rs[0] >= rt[0] and rs[1] <= rt[1]:
                return V(v.e, t, b=v.b)
            return V(wrap_int(v.e, t), t)
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            return V(None, t, b=v.cond())
        if ck == 'IntegralToFloating':
            e = v.i()
            so = self._sort(t)
            if z3.is_int_value(e):
                return V(z3.FPVal(e.as_long(), so), t)
            return V(z3.fpRealToFP(RNE, z3.ToReal(e), so), t)
        if ck == 'FloatingCast':
            so = self._sort(t)
            if v.e.sort() == so:
                return V(v.e, t)
            if z3.is_fp_value(v.e):
                return V(z3.simplify(z3.fpFPToFP(RNE, v.e, so)), t)
            return V(z3.fpFPToFP(RNE, v.e, so), t)
        if ck == 'FloatingToIntegral':
            return V(fresh('f2i'), t)
        if ck == 'ArrayToPointerDecay':
            return V(v.e, t, v.tag)
        raise Unsupported('cast %s' % ck)

    def ev_UnaryOperator(self, st, n):
        op = n['opcode']
        sub = n['inner'][0]
        tu = st.fr.tu
        if op == '&':
            out = []
            for s, lv in self.lval(st, sub) if sub['kind'] != 'DeclRefExpr' or \
                    sub['referencedDecl']['kind'] != 'FunctionDecl' else [(st, None)]:
                if lv is None:
                    return self.ev(st, sub)
                if lv.kind != 'mem':
                    raise Unsupported('address of register')
                tag = lv.key
                if tag is not None and tag == self._tk(lv.t if lv.t.k != 'arr' else lv.t.to):
                    tag = None
                out.append((s, V(lv.addr, PTR(lv.t), tag)))
            return out
        if op == '*':
            return [(s, self.load(s, lv)) for s, lv in self.lval(st, n)]
        if op in ('++', '--'):
            out = []
            for s, lv in self.lval(st, sub):
                v = self.load(s, lv)
                step = 1
                if v.t.k == 'ptr':
                    step = v.t.to.size
                nv = v.e + step if op == '++' else v.e - step
                if v.t.k == 'int':
                    self.ovf(s, nv, v.t, n)
                    if not v.t.signed:
                        nv = wrap_int(nv, v.t)
                nv = z3.simplify(nv) if z3.is_int_value(v.e) else nv
                r = V(nv, v.t, v.tag)
                self.store(s, lv, r)
                out.append((s, v if n.get('isPostfix') else r))
            return out
        out = []
        for s, v in self.ev(st, sub):
            t = tu.node_type(n)
            if op == '!':
                out.append((s, V(None, INT, b=Not(v.cond()))))
            elif op == '-':
                if z3.is_fp(v.e if v.e is not None else IntVal(0)):
                    out.append((s, V(z3.fpNeg(v.e), t)))
                else:
                    e = z3.simplify(-v.i())
                    self.ovf(s, e, t, n)
                    out.append((s, V(e if t.signed else wrap_int(e, t), t)))
            elif op == '+' or op == '__extension__':
                out.append((s, v))
            elif op == '~':
                e = -v.i() - 1
                out.append((s, V(wrap_int(z3.simplify(e), t), t)))
            elif op in ('__real', '__imag'):
                return [(s2, self.load(s2, lv)) for s2, lv in self.lval(st, n)]
            else:
                raise Unsupported('unary ' + op)
        return out

    def ovf(self, st, e, t, n):
        if not self.opts['overflow'] or t.k != 'int' or not t.signed or t.size < 4:
            return
        if t.size == 8:
            return
        if z3.is_int_value(e):
            return
        r = trange(t)
        self.prove(st, And(e >= r[0], e <= r[1]), 'no-signed-overflow', n)

    def ev_ConditionalOperator(self, st, n):
        c, a, b = n['inner']
        out = []
        for s, cv in self.ev(st, c):
            cond = cv.cond()
            base_n = len(s.pc)
            parts = [self.ev(s2, a if truth else b) for s2, truth in self.split(s, cond)]
            if self.opts.get('merge') and len(parts) == 2 and all(len(p) == 1 for p in parts):
                (sa, va), (sb, vb) = parts[0][0], parts[1][0]
                if va.e is not None and vb.e is not None and va.e.sort().eq(vb.e.sort()) and va.tag == vb.tag:
                    m = self.merge(z3.simplify(cond), [(sa, 'n', None)], [(sb, 'n', None)], base_n)
                    if len(m) == 1:
                        out.append((m[0][0], V(va.e if va.e.eq(vb.e) else If(cond, va.e, vb.e), va.t, va.tag)))
                        continue
            for p in parts:
                out += p
        return out

    def split(self, st, cond):
        """Fork on cond; infeasible sides are dropped."""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        t = self.feasible(st, c)
        f = self.feasible(st, Not(c)) if t else True
        out = []
        if t and f:
            s2 = st.copy()
            st.assume(c)
            s2.assume(z3.simplify(Not(c)))
            return [(st, True), (s2, False)]
        if t:
            st.assume(c)
            return [(st, True)]
        st.assume(z3.simplify(Not(c)))
        return [(st, False)]

    def is_pure(self, n):
        k = n.get('kind')
        if k in ('CallExpr', 'CompoundAssignOperator', 'StmtExpr', 'ConditionalOperator', 'CompoundLiteralExpr'):
            if k == 'CallExpr' and self.callee_name(n) in ('__builtin_expect', 'strcmp', 'strncmp'):
                pass
            else:
                return False
        if k == 'BinaryOperator' and n.get('opcode') in ('=', ','):
            return False
        if k == 'UnaryOperator' and n.get('opcode') in ('++', '--'):
            return False
        return all(self.is_pure(c) for c in n.get('inner', []) if isinstance(c, dict) and c)

    def ev_BinaryOperator(self, st, n):
        op = n['opcode']
        a, b = n['inner']
        if op == '=':
            out = []
            for s, rv in self.ev(st, b):
                for s2, lv in self.lval(s, a):
                    self.store(s2, lv, rv)
                    out.append((s2, V(rv.e, lv.t, rv.tag, rv.b)))
            return out
        if op == ',':
            out = []
            for s, _ in self.ev(st, a):
                out += self.ev(s, b)
            return out
        if op in ('&&', '||'):
            out = []
            for s, av in self.ev(st, a):
                c = z3.simplify(av.cond())
                if z3.is_true(c) or z3.is_false(c):
                    if z3.is_true(c) == (op == '||'):
                        out.append((s, V(None, INT, b=c)))
                    else:
                        out += [(s2, V(None, INT, b=bv.cond())) for s2, bv in self.ev(s, b)]
                    continue
                if self.is_pure(b):
                    g = c if op == '&&' else Not(c)
                    s.guard.append(g)
                    try:
                        rs = self.ev(s, b)
                    finally:
                        pass
                    assert len(rs) == 1 and rs[0][0] is s
                    s.guard.pop()
                    bc = rs[0][1].cond()
                    out.append((s, V(None, INT, b=And(c, bc) if op == '&&' else Or(c, bc))))
                else:
                    for s2, truth in self.split(s, c):
                        if truth == (op == '||'):
                            out.append((s2, V(None, INT, b=BoolVal(truth))))
                        else:
                            out += [(s3, V(None, INT, b=bv.cond())) for s3, bv in self.ev(s2, b)]
            return out
        out = []
        t = st.fr.tu.node_type(n)
        for s, av in self.ev(st, a):
            for s2, bv in self.ev(s, b):
                out.append((s2, self.binop(s2, op, av, bv, t, n)))
        return out

    def binop(self, st, op, a, b, t, n):
        if a.t.k == 'ptr' or b.t.k == 'ptr':
            ae, be = a.i(), b.i()
            if op in ('+', '-') and not (a.t.k == 'ptr' and b.t.k == 'ptr'):
                if a.t.k != 'ptr':
                    a, b, ae, be = b, a, be, ae
                sz = a.t.to.size
                if sz == 0:
                    raise Unsupported('arithmetic on pointer to incomplete type')
                off = be if sz == 1 else be * sz
                return V(ae + off if op == '+' else ae - off, a.t, a.tag)
            if op == '-':
                sz = a.t.to.size or 1
                d = ae - be
                return V(d if sz == 1 else self.divmod_(st, d, IntVal(sz), n)[0], LONG)
            return V(None, INT, b=self.cmp(op, ae, be))
        if a.t.k == 'flt' or b.t.k == 'flt':
            ae, be = a.e, b.e
            if op in ('<', '<=', '>', '>=', '==', '!='):
                f = {'<': z3.fpLT, '<=': z3.fpLEQ, '>': z3.fpGT, '>=': z3.fpGEQ,
                     '==': z3.fpEQ, '!=': z3.fpNEQ}[op]
                return V(None, INT, b=f(ae, be))
            return V(self.fpop(op, ae, be), t)
        ae, be = a.i(), b.i()
        if op in ('==', '!=') and a.b is not None and z3.is_int_value(be):
            v = be.as_long()
            c = a.b if v == 1 else Not(a.b) if v == 0 else FALSE
            return V(None, INT, b=c if op == '==' else Not(c))
        if op in ('<', '<=', '>', '>=', '==', '!='):
            return V(None, INT, b=self.cmp(op, ae, be))
        if op == '+':
            e = ae + be
        elif op == '-':
            e = ae - be
        elif op == '*':
            e = self.mul(st, ae, be)
        elif op in ('/', '%'):
            q, r = self.divmod_(st, ae, be, n)
            return V(q if op == '/' else r, t)
        elif op in ('<<', '>>', '&', '|', '^'):
            return V(self.bitop(st, op, ae, be, t), t)
        else:
            raise Unsupported('binary ' + op)
        e = z3.simplify(e) if z3.is_int_value(ae) and z3.is_int_value(be) else e
        if t.signed:
            self.ovf(st, e, t, n)
            return V(e, t)
        return V(wrap_int(e, t), t)

    def fpop(self, op, a, b):
        """IEEE arithmetic; uninterpreted unless the unit asks for the FP theory."""
        if self.opts.get('fp_theory') or (z3.is_fp_value(a) and z3.is_fp_value(b)):
            return {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul, '/': z3.fpDiv}[op](RNE, a, b)
        so = a.sort()
        if op in '+*':
            # IEEE + and * commute (NaN payloads ignored): a function of the
            # unordered pair, given by sum and distance of injective codes
            u = z3.Function('fcode%d' % so.ebits(), so, ISORT)
            x, y = u(a), u(b)
            f = z3.Function({'+': 'fadd', '*': 'fmul'}[op] + str(so.ebits()), ISORT, ISORT, so)
            return f(x + y, If(x >= y, x - y, y - x))
        return z3.Function({'+': 'fadd', '-': 'fsub', '*': 'fmul', '/': 'fdiv'}[op] + str(so.ebits()), so, so, so)(a, b)

    def mul(self, st, a, b):
        return a * b

    def cmp(self, op, a, b):
        return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b,
                '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b}[op]()

    def divmod_(self, st, a, b, n):
        """C division: truncation toward zero."""
        if z3.is_int_value(a) and z3.is_int_value(b) and b.as_long() != 0:
            x, y = a.as_long(), b.as_long()
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return IntVal(q), IntVal(x - q * y)
        self.prove(st, b != 0, 'no-division-by-zero', n)
        if z3.is_int_value(b) and b.as_long() > 0:
            bb = b
            q = If(a >= 0, a / bb, -((-a) / bb))
            return q, a - q * bb
        Q = z3.Function('cdiv', ISORT, ISORT, ISORT)
        R = z3.Function('cmod', ISORT, ISORT, ISORT)
        q, r = Q(a, b), R(a, b)
        ab = If(b >= 0, b, -b)
        st.add(Implies(b != 0, And(a == q * b + r,
                                   Implies(a >= 0, And(r >= 0, r < ab)),
                                   Implies(a <= 0, And(r <= 0, -r < ab)),
                                   Implies(And(b > 0, a >= 0, a < b), And(q == 0, r == a)),
                                   Implies(And(b > 0, a >= b, a - b < b), And(q == 1, r == a - b)))))
        return q, r

    def bitop(self, st, op, a, b, t):
        if z3.is_int_value(a) and z3.is_int_value(b):
            x, y = a.as_long(), b.as_long()
            v = {'<<': lambda: x << y, '>>': lambda: x >> y, '&': lambda: x & y,
                 '|': lambda: x | y, '^': lambda: x ^ y}[op]()
            return wrap_int(IntVal(v), t)
        if op == '<<' and z3.is_int_value(b):
            return wrap_int(a * (1 << b.as_long()), t)
        if op == '>>' and z3.is_int_value(b):
            return a / (1 << b.as_long())
        if op == '&' and z3.is_int_value(b) and b.as_long() >= 0 and (b.as_long() & (b.as_long() + 1)) == 0:
            return a % (b.as_long() + 1)
        if op == '&' and z3.is_int_value(a) and a.as_long() >= 0 and (a.as_long() & (a.as_long() + 1)) == 0:
            return b % (a.as_long() + 1)
        f = z3.Function('bit' + {'<<': 'shl', '>>': 'shr', '&': 'and', '|': 'or', '^': 'xor'}[op],
                        ISORT, ISORT, ISORT)
        if op in '&|^':
            r = f(a + b, If(a >= b, a - b, b - a))      # symmetric
        else:
            r = f(a, b)
        lim = trange(t)
        st.add(And(r >= lim[0], r <= lim[1]))
        if op == '&':
            st.add(Implies(a >= 0, And(r >= 0, r <= a)))
            st.add(Implies(b >= 0, And(r >= 0, r <= b)))
        if op == '|':
            st.add(Implies(And(a >= 0, b >= 0), And(r >= a, r >= b, r <= a + b)))
            st.add(Implies(r == 0, And(a == 0, b == 0)))
        return r

    def ev_CompoundAssignOperator(self, st, n):
        op = n['opcode'][:-1]
        a, b = n['inner']
        out = []
        tu = st.fr.tu
        ct = tu.typ(n['computeResultType']['qualType']) if n['computeResultType']['qualType'] else None
        for s, rv in self.ev(st, b):
            for s2, lv in self.lval(s, a):
                v = self.load(s2, lv)
                if lv.t.k == 'ptr':
                    r = self.binop(s2, op, v, rv, lv.t, n)
                else:
                    lt = ct or lv.t
                    v2 = v
                    if lt.k == 'flt' and v.t.k == 'int':
                        v2 = self.cast(s2, v, lt, 'IntegralToFloating')
                    elif lt.k == 'flt' and v.t.k == 'flt' and v.t.size != lt.size:
                        v2 = self.cast(s2, v, lt, 'FloatingCast')
                    elif lt.k == 'int' and v.t.k == 'int' and (lt.size, lt.signed) != (v.t.size, v.t.signed):
                        v2 = self.cast(s2, v, lt, 'IntegralCast')
                    r = self.binop(s2, op, v2, rv, lt, n)
                    if lv.t.k == 'flt' and lt.k == 'flt' and lv.t.size != lt.size:
                        r = self.cast(s2, r, lv.t, 'FloatingCast')
                    elif lv.t.k == 'int' and lt.k == 'int' and (lt.size, lt.signed) != (lv.t.size, lv.t.signed):
                        r = self.cast(s2, r, lv.t, 'IntegralCast')
                    elif lv.t.k == 'int' and lt.k == 'flt':
                        r = self.cast(s2, r, lv.t, 'FloatingToIntegral')
                self.store(s2, lv, V(r.i() if r.e is None else r.e, lv.t, r.tag))
                out.append((s2, V(r.e, lv.t, r.tag, r.b)))
        return out

    # ---------------------------------------------------------- calls
    def callee_name(self, n):
        c = n['inner'][0]
        while c['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr'):
            c = c['inner'][0]
        if c['kind'] == 'DeclRefExpr' and c['referencedDecl']['kind'] == 'FunctionDecl':
            return c['referencedDecl']['name']
        return None

    def ev_CallExpr(self, st, n):
        name = self.callee_name(n)
        if name is None:
            raise Unsupported('indirect call line %s' % cparse.sloc(n))
        if name == '__builtin_expect':
            return self.ev(st, n['inner'][1])
        if name in NOEVAL:
            return [(st, V(IntVal(0), INT))]
        sts = [(st, [])]
        for a in n['inner'][1:]:
            nxt = []
            for s, acc in sts:
                for s2, v in self.ev(s, a):
                    if v.t.k == 'rec':
                        # by-value aggregate: snapshot
                        blk = self.salloc(s2, v.t.size, 'byval')
                        self.copy_rec(s2, v.t, blk, v.e)
                        v = V(blk, v.t)
                    nxt.append((s2, acc + [v]))
            sts = nxt
        out = []
        for s, args in sts:
            out += self.call(s, name, args, n)
        return out

    def call(self, st, name, args, n):
        self.stats.called.add(name)
        oc = getattr(self, 'unit_contract', None)
        if oc is not None and hasattr(oc, 'on_call'):
            oc.on_call(self, st, name, args, n, self.unit_ctx)
        st.trace.append(cparse.sloc(n))
        c = self.contracts.get(name)
        if c is not None and not (getattr(c, 'inline', False)):
            return self.call_contract(st, c, args, n)
        if name in self.lib:
            self.stats.external.add(name)
            return self.lib[name](self, st, args, n)
        # the real body, executed at the call
        f = self.find(name, st.fr.tu)
        if f is None and name.startswith('ARMCI') and not name.startswith('ARMCII') and self.find('P' + name):
            # weak alias ARMCI_x = PARMCI_x
            return self.call(st, 'P' + name, args, n)
        if f is None:
            raise Unsupported('call to %s: no contract, no model, no body' % name)
        if len(st.frames) > self.opts['inline_depth']:
            raise Unsupported('inline depth at %s' % name)
        if any(fr.fn['name'] == name for fr in st.frames):
            raise Unattachable('recursive call of %s without a contract' % name)
        self.stats.inlined.add(name)
        tu, fn = f
        outs = self.run_body(st, tu, fn, args)
        return outs

    def run_body(self, st, tu, fn, args):
        fr = Frame(fn, tu)
        fr.addr_taken = self.addr_taken(fn)
        params = [c for c in fn.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        st.frames.append(fr)
        for p, a in zip(params, args):
            lv = self.declare(st, p)
            t = lv.t
            if t.k == 'rec':
                self.copy_rec(st, t, lv.addr, a.e)
            else:
                self.store(st, lv, V(a.e if a.e is not None else a.i(), t, a.tag, a.b))
        body = [c for c in fn['inner'] if c.get('kind') == 'CompoundStmt'][0]
        res = []
        for s, oc, v in self.ex(st, body):
            s.frames.pop()
            if oc in ('r', 'n'):
                res.append((s, v if v is not None else V(IntVal(0), cparse.VOID)))
            else:
                raise Unsupported('outcome %s at function end' % oc)
        return res

    def call_contract(self, st, c, args, n):
        ctx = Ctx(self, c, args, st)
        ctx.node = n
        line = cparse.sloc(n)
        ctx.caller = True
        for cl in c.requires(ctx):
            if len(cl) == 2:
                self.prove(st, cl[1], 'pre(%s):%s' % (c.name, cl[0]), n)
            else:
                sub = st.copy()
                ctx.freeze_pre(sub)
                ctx._sink = sub
                self.prove(sub, cl[2](fresh('sk_' + cl[0])), 'pre(%s):%s' % (c.name, cl[0]), n)
                ctx._sink = st
        ctx.freeze_pre(st)
        ab = c.aborts(ctx)
        if ab is not None and self.opts['noabort']:
            mine = self.abort_ok if self.abort_ok is not None else FALSE
            self.prove(st, Or(Not(ab), mine), 'no-abort-in(%s)' % c.name, n)
            ctx.freeze_pre(st)
        mods = list(c.modifies(ctx))
        clauses = None
        freshmem = None
        post_ops = []
        for m in mods:
            if isinstance(m, str):
                st.gh[m] = fresh('g_' + m, st.gh[m].sort())
            elif m[0] == 'copy':
                st.copyop(m[1], m[2], m[3])
            else:
                post_ops.append(st.havoc(m[0], m[1]))
        if c.rtype_hint(self, st) is not None:
            rt = c.rtype_hint(self, st)
            if rt.k == 'void':
                ret = V(IntVal(0), rt)
            else:
                ret = V(fresh('ret_' + c.name, self._sort(rt)), rt)
                r = trange(rt)
                if r:
                    st.assume(And(ret.e >= r[0], ret.e <= r[1]))
        else:
            ret = V(fresh('ret_' + c.name), INT)
        if getattr(c, 'allocates', None):
            b2 = fresh('brk')
            st.assume(And(b2 >= st.brk, b2 < STACK0))
            freshmem = st.freshop(st.brk, b2)
            st.brk = b2
        ctx.ret = ret.e
        ctx.freeze_post(st)
        effs = c.effects(ctx)
        if effs is None:
            st.events = None
        else:
            for en, kw in effs:
                st.event(en, **kw)
        for cl in c.ensures(ctx):
            if len(cl) == 2:
                st.assume(cl[1])
            else:
                nm, key, fn = cl
                for o in post_ops:
                    if o.key == key or (not isinstance(key, str) and o.key in key):
                        o.hooks.append(_mkhook(ctx, fn))
                        o.memo.clear()
                if freshmem is not None:
                    for kk in ([key] if isinstance(key, str) else key):
                        freshmem.hooks.setdefault(kk, []).append(_mkhook(ctx, fn))
                    freshmem.memo.clear()
        return [(st, ret)]

    # ---------------------------------------------------------- statements
    def ex(self, st, n):
        """Execute; list of (state, outcome, value); outcome n/b/c/r."""
        if self.deadline and time.time() > self.deadline:
            raise Unattachable('unit time budget exhausted')
        k = n['kind']
        m = getattr(self, 'ex_' + k, None)
        if m is not None:
            return m(st, n)
        # expression statement
        return [(s, 'n', None) for s, _ in self.ev(st, n)]

    def ex_NullStmt(self, st, n):
        return [(st, 'n', None)]

    def ex_CompoundStmt(self, st, n):
        return self.seq(st, n.get('inner', []))

    def seq(self, st, stmts):
        live = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in live:
                for r in self.ex(x, s):
                    if r[1] == 'n':
                        nxt.append(r[0])
                    else:
                        done.append(r)
            live = nxt
            if len(live) + len(done) > self.opts['max_paths']:
                raise Unattachable('too many paths')
            if not live:
                break
        return done + [(x, 'n', None) for x in live]

    def ex_DeclStmt(self, st, n):
        sts = [st]
        for d in n.get('inner', []):
            if d['kind'] != 'VarDecl':
                continue
            nxt = []
            for s in sts:
                lv = self.declare(s, d)
                inits = [c for c in d.get('inner', []) if not c.get('kind', '').endswith('Attr')]
                if inits and d.get('storageClass') != 'static':
                    nxt += self.init(s, lv, inits[-1])
                else:
                    nxt.append(s)
            sts = nxt
        return [(s, 'n', None) for s in sts]

    def init(self, st, lv, e):
        if e['kind'] == 'InitListExpr':
            t = lv.t
            tu = st.fr.tu
            items = e.get('inner', [])
            sts = [st]
            if t.k == 'arr':
                n = t.n
                filler = None
                if 'array_filler' in e:
                    items = [x for x in e['array_filler'] if x.get('kind') != 'ImplicitValueInitExpr']
                for i in range(n):
                    sub = LV('mem', t.to, addr=lv.addr + i * t.to.size, key=None if t.to.k == 'rec' else lv.key)
                    if i < len(items):
                        sts = [s2 for s in sts for s2 in self.init(s, sub, items[i])]
                    elif n - i > 8 and t.to.k in ('int', 'ptr'):
                        for s in sts:
                            self.zero(s, LV('mem', cparse.T('arr', (n - i) * t.to.size, to=t.to, n=n - i), addr=sub.addr, key=lv.key))
                        break
                    else:
                        for s in sts:
                            self.zero(s, sub)
                return sts
            if t.k == 'rec':
                for (fid, fname, ts), it in zip(t.rec.fields, items):
                    off, ft = t.rec.off[fname]
                    key = None
                    if ft.k != 'rec':
                        key = '%s.%s' % (t.rec.name, fname)
                        reg_key(key, ft)
                    sub = LV('mem', ft, addr=lv.addr + off, key=key)
                    sts = [s2 for s in sts for s2 in self.init(s, sub, it)]
                return sts
            return self.init(st, lv, items[0])
        if e['kind'] == 'ImplicitValueInitExpr':
            self.zero(st, lv)
            return [st]
        if e['kind'] == 'StringLiteral' and lv.t.k == 'arr':
            return [st]
        out = []
        for s, v in self.ev(st, e):
            self.store(s, lv, v)
            out.append(s)
        return out

    def zero(self, st, lv):
        t = lv.t
        if t.k == 'rec':
            for fname, (off, ft) in t.rec.off.items():
                key = None if ft.k == 'rec' else '%s.%s' % (t.rec.name, fname)
                if key:
                    reg_key(key, ft)
                self.zero(st, LV('mem', ft, addr=lv.addr + off, key=key))
        elif t.k == 'arr' and t.n > 8 and t.to.k in ('int', 'ptr'):
            b, e = lv.addr, lv.addr + t.n * t.to.size
            st.mapop(lv.key, lambda a, old, sink: If(And(a >= b, a < e), IntVal(0), old))
        elif t.k == 'arr':
            for i in range(t.n):
                self.zero(st, LV('mem', t.to, addr=lv.addr + i * t.to.size, key=lv.key))
        elif t.k == 'flt':
            self.store(st, lv, V(z3.FPVal(0.0, self._sort(t)), t))
        else:
            self.store(st, lv, V(IntVal(0), t))

    def ex_IfStmt(self, st, n):
        inner = n['inner']
        c, a = inner[0], inner[1]
        b = inner[2] if len(inner) > 2 else None
        st.trace.append(cparse.sloc(n))
        if self.inert(a) and (b is None or self.inert(b)) and self.is_pure(c):
            return [(s, 'n', None) for s, _ in self.ev(st, c)]     # only diagnostic output depends on it
        out = []
        for s, cv in self.ev(st, c):
            base_n = len(s.pc)
            parts = []
            for s2, truth in self.split(s, cv.cond()):
                if truth:
                    parts.append(self.ex(s2, a))
                elif b is not None:
                    parts.append(self.ex(s2, b))
                else:
                    parts.append([(s2, 'n', None)])
            if len(parts) == 2 and (self.opts.get('merge') or self.no_effect(parts)):
                out += self.merge(z3.simplify(cv.cond()), parts[0], parts[1], base_n)
            else:
                for p in parts:
                    out += p
        return out

    def inert(self, n):
        """A statement that can do nothing but print."""
        k = n.get('kind')
        if k == 'CompoundStmt':
            return all(self.inert(x) for x in n.get('inner', []))
        if k == 'NullStmt':
            return True
        if k == 'IfStmt':
            return self.is_pure(n['inner'][0]) and all(self.inert(x) for x in n['inner'][1:])
        return k == 'CallExpr' and self.callee_name(n) in NOEVAL

    def no_effect(self, parts):
        """Both branches fall through and neither changed anything."""
        if any(len(p) != 1 or p[0][1] != 'n' for p in parts):
            return False
        a, b = parts[0][0][0], parts[1][0][0]
        return a.mem is b.mem and all(a.gh[g] is b.gh.get(g) for g in a.gh) and len(a.frames) == len(b.frames) and \
            all(x.vars.get(d) is y.vars.get(d) for x, y in zip(a.frames, b.frames) for d in list(x.vars) + list(y.vars))

    def merge(self, cond, pa, pb, base_n):
        """Join the two single normal outcomes of an if (sound: plain ite)."""
        if len(pa) != 1 or len(pb) != 1 or pa[0][1] != 'n' or pb[0][1] != 'n':
            return pa + pb
        a, b = pa[0][0], pb[0][0]
        if (a.events is None) != (b.events is None):
            return pa + pb
        if a.events is not None and (len(a.events) != len(b.events) or
                                     any(x is not y for x, y in zip(a.events, b.events))):
            return pa + pb
        # memory: only stores since the fork point may differ
        common = set()
        o = a.mem
        while o is not None:
            common.add(id(o))
            o = o.prev
        o = b.mem
        while id(o) not in common:
            o = o.prev
        join = o

        def tail(x):
            r = []
            while x is not join:
                r.append(x)
                x = x.prev
            return r
        ta, tb = tail(a.mem), tail(b.mem)
        if any(x.kind not in ('store', 'mark', 'map') for x in ta + tb):
            return pa + pb
        maps = any(x.kind == 'map' for x in ta + tb)
        m = a.copy()
        ga, gb = cond, Not(cond)
        base = a.pc[:base_n]
        m.pc = list(base)
        m.pcids = set(f.get_id() for f in base)
        for f in a.pc[base_n:]:
            m.add(Implies(ga, f))
        for f in b.pc[base_n:]:
            m.add(Implies(gb, f))
        m.mem = join
        cells = []
        for x in list(reversed(ta)) + list(reversed(tb)):
            if x.kind == 'store' and not any(y[0] == x.key and y[1].eq(x.addr) for y in cells):
                cells.append((x.key, x.addr))
        if maps:
            # replay both sides' writes, each guarded by its side
            cells = []
            for side, g in ((ta, ga), (tb, gb)):
                for x in reversed(side):
                    if x.kind == 'store':
                        m.mapop(x.key, lambda ad, old, sink, x=x, g=g: If(And(g, ad == x.addr), x.val, old))
                    elif x.kind == 'map':
                        m.mapop(x.key, lambda ad, old, sink, x=x, g=g: If(g, x.fn(ad, old, sink), old))
        if any(c1[0] == c2[0] and addr_cmp(c1[1], c2[1]) is None for i, c1 in enumerate(cells) for c2 in cells[:i]):
            return pa + pb
        newops = []
        for key, addr in cells:
            va, vb = select(a.mem, key, addr, m), select(b.mem, key, addr, m)
            newops.append((key, addr, va if va.eq(vb) else If(cond, va, vb)))
        for key, addr, v in newops:
            m.store(key, addr, v)
        for g in m.gh:
            if not a.gh[g].eq(b.gh[g]):
                m.gh[g] = If(cond, a.gh[g], b.gh[g])
        for fa, fb, fm in zip(a.frames, b.frames, m.frames):
            for did in list(fm.vars):
                x, y = fa.vars.get(did), fb.vars.get(did)
                if y is None or isinstance(x, tuple):
                    if y is None:
                        del fm.vars[did]
                    continue
                if x.e is not None and y.e is not None and x.e.eq(y.e):
                    continue
                xe, ye = x.i() if x.e is None else x.e, y.i() if y.e is None else y.e
                if xe.eq(ye):
                    continue
                if x.tag != y.tag and (x.tag or y.tag):
                    nz = [t for t in (x, y) if not (z3.is_int_value(t.e) and t.e.as_long() == 0)]
                    # pointers of different classes (opaque handles): not to be dereferenced
                    tag = nz[0].tag if len(set(t.tag for t in nz)) == 1 else '?mixed' if nz else None
                else:
                    tag = x.tag
                fm.vars[did] = V(If(cond, xe, ye), x.t, tag)
            for did, y in fb.vars.items():
                pass
        if not a.brk.eq(b.brk):
            nb = fresh('brk')
            m.add(And(nb >= a.brk, nb >= b.brk)) if False else None
            m.brk = If(cond, a.brk, b.brk)
        return [(m, 'n', None)]

    def ex_ReturnStmt(self, st, n):
        st.trace.append(cparse.sloc(n))
        if n.get('inner'):
            return [(s, 'r', v) for s, v in self.ev(st, n['inner'][0])]
        return [(st, 'r', None)]

    def ex_BreakStmt(self, st, n):
        return [(st, 'b', None)]

    def ex_ContinueStmt(self, st, n):
        return [(st, 'c', None)]

    def ex_SwitchStmt(self, st, n):
        cond, body = n['inner'][-2], n['inner'][-1]
        st.trace.append(cparse.sloc(n))
        items = []          # flat statements
        labels = []         # (value or None, index)

        def flat(c):
            if c['kind'] == 'CaseStmt':
                ch = c['inner']
                labels.append((ch[0], len(items)))
                flat(ch[-1])
            elif c['kind'] == 'DefaultStmt':
                labels.append((None, len(items)))
                flat(c['inner'][0])
            else:
                items.append(c)
        if body['kind'] != 'CompoundStmt':
            raise Unsupported('switch body')
        for c in body.get('inner', []):
            flat(c)
        out = []
        for s, v in self.ev(st, cond):
            rest = [s]
            starts = []
            default = None
            ve = v.i()
            for lab, idx in labels:
                if lab is None:
                    default = idx
                    continue
                nr = []
                for x in rest:
                    for x2, cv in self.ev(x, lab):
                        for x3, truth in self.split(x2, ve == cv.i()):
                            if truth:
                                starts.append((x3, idx))
                            else:
                                nr.append(x3)
                rest = nr
            for x in rest:
                if default is not None:
                    starts.append((x, default))
                else:
                    out.append((x, 'n', None))
            for x, idx in starts:
                for r in self.seq(x, items[idx:]):
                    out.append((r[0], 'n', None) if r[1] == 'b' else r)
        return out

    # ---------------------------------------------------------- loops
    def ex_ForStmt(self, st, n):
        init, _, cond, inc, body = n['inner']
        out = []
        sts = [st]
        if init:
            sts = [r[0] for r in self.ex(st, init)]
        for s in sts:
            out += self.loop(s, n, cond or None, inc or None, body, False)
        return out

    def ex_WhileStmt(self, st, n):
        cond, body = n['inner'][-2], n['inner'][-1]
        return self.loop(st, n, cond, None, body, False)

    def ex_DoStmt(self, st, n):
        body, cond = n['inner'][0], n['inner'][1]
        if z3.is_int_value(IntVal(0)) and cond['kind'] == 'IntegerLiteral' and cond['value'] == '0':
            out = []
            for r in self.ex(st, body):      # do { } while (0)
                out.append((r[0], 'n', None) if r[1] in ('b', 'c') else r)
            return out
        return self.loop(st, n, cond, None, body, True)

    def loop_ordinal(self, fn, node):
        cnt = [0]
        res = [None]

        def go(x):
            if x.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt'):
                if x['kind'] == 'DoStmt' and x['inner'][1].get('kind') == 'IntegerLiteral':
                    pass
                else:
                    if x['id'] == node['id']:
                        res[0] = cnt[0]
                    cnt[0] += 1
            for c in x.get('inner', []):
                if isinstance(c, dict) and c:
                    go(c)
        go(fn)
        return res[0]

    def assigned(self, fr, nodes):
        """Locals (register ids) assigned anywhere in the given ASTs."""
        out = set()

        def tgt(x):
            while x['kind'] == 'ParenExpr':
                x = x['inner'][0]
            if x['kind'] == 'DeclRefExpr':
                out.add(x['referencedDecl']['id'])

        def go(x):
            if x.get('kind') in ('BinaryOperator', 'CompoundAssignOperator') and \
                    (x['kind'] == 'CompoundAssignOperator' or x.get('opcode') == '='):
                tgt(x['inner'][0])
            if x.get('kind') == 'UnaryOperator' and x.get('opcode') in ('++', '--'):
                tgt(x['inner'][0])
            for c in x.get('inner', []):
                if isinstance(c, dict) and c:
                    go(c)
        for x in nodes:
            if x:
                go(x)
        return out

    def loop(self, st, n, cond, inc, body, isdo):
        fn = st.fr.fn
        ordn = self.loop_ordinal(fn, n)
        spec = None
        c = self.contracts.get(fn['name'])
        owner = self.unit_contract if fn['name'] == getattr(self, 'unit_func', None) else c
        if owner is not None and not self.opts.get('no_loop_specs'):
            spec = owner.loop(ordn)
        if spec is None:
            return self.loop_unroll(st, n, cond, inc, body, isdo)
        if isdo:
            raise Unsupported('loop contract on do-while')
        st.trace.append(cparse.sloc(n))
        L = LoopCtx(self, st, n, cond, inc, body, fn)
        entry_stk = self.stk
        entry_state = st.copy()
        L.entry_state = entry_state
        L.at(st)
        tag = '%s:loop%d' % (fn['name'], ordn)
        # 1. invariant holds on entry
        self.prove_clauses(st, spec.inv(L), tag + ':entry', n, L)
        # 2. arbitrary iteration
        head = st
        asg = self.assigned(st.fr, [cond, inc, body])
        for did in asg:
            if did in head.fr.vars and not isinstance(head.fr.vars[did], tuple):
                v = head.fr.vars[did]
                e = fresh(self._dname(head.fr, did), self._sort(v.t))
                head.fr.vars[did] = V(e, v.t, v.tag)
                r = trange(v.t)
                if r:
                    head.assume(And(e >= r[0], e <= r[1]))
        mods = [m for m in spec.modifies(L)]
        # address-taken locals assigned in the loop body must be listed by the spec
        marker = Op('mark', head.mem)
        head.mem = marker
        hops = []
        for m in mods:
            if isinstance(m, str):
                head.gh[m] = fresh('g_' + m, head.gh[m].sort())
            else:
                hops.append(head.havoc(m[0], m[1]))
        b2 = fresh('brk')
        head.assume(b2 >= entry_state.brk)
        head.brk = b2
        headsnap = head.mem
        L.head_gh = dict(head.gh)
        L.at(head)
        for cl in spec.inv(L):
            if len(cl) == 2:
                head.assume(cl[1])
            else:
                nm, key, fnc = cl
                for o in hops:
                    if o.key == key:
                        o.hooks.append(_mkloophook(self, L, spec, head, fnc))
                        o.memo.clear()
        for f in spec.lemmas(L):
            head.assume(f)
        # 3. one iteration / exit
        if getattr(spec, 'events', False):
            head.events = None
        ev0 = len(head.events) if head.events is not None else 0
        out = []
        entries = [(head, TRUE)]
        conds = self.ev(head, cond) if cond else [(head, V(None, INT, b=TRUE))]
        for s, cv in conds:
            for s2, truth in self.split(s, cv.cond()):
                if not truth:
                    s2.trace.append('exit@%d' % cparse.sloc(n))
                    out.append((s2, 'n', None))
                    continue
                for r in self.ex(s2, body):
                    if r[1] in ('n', 'c'):
                        ends = [r[0]]
                        if inc:
                            ends = [x for x, _ in self.ev(r[0], inc)]
                        for x in ends:
                            L.at(x)
                            for f in spec.step_lemmas(L):
                                x.assume(f)
                            self.prove_clauses(x, spec.inv(L), tag + ':step', n, L)
                            if x.events is not None and len(x.events) != ev0 and not getattr(spec, 'events', False):
                                self.prove(x, FALSE, tag + ':frame:events', n)
                            self.check_frame(x, headsnap, mods, entry_state, L.head_gh, tag + ':frame', n, entry_stk)
                    elif r[1] == 'b':
                        out.append((r[0], 'n', None))
                    else:
                        out.append(r)
        if len(out) == 2 and self.opts.get('merge') and all(o[1] == 'n' for o in out):
            # join the two ways of leaving the loop under a free boolean
            a, b = out[0][0], out[1][0]
            k = 0
            while k < len(a.pc) and k < len(b.pc) and a.pc[k].eq(b.pc[k]):
                k += 1
            return self.merge(z3.FreshBool('left'), [out[0]], [out[1]], k)
        return out

    def _dname(self, fr, did):
        d = fr.tu.decls.get(did)
        return d['name'] if d else 'v'

    def prove_clauses(self, st, clauses, tag, n, L):
        for cl in list(clauses):
            if len(cl) == 2:
                self.prove(st, cl[1], '%s:%s' % (tag, cl[0]), n)
            else:
                nm, key, fnc = cl
                j = fresh('sk_' + nm)
                sub = st.copy()
                if L is not None:
                    L.at(sub)
                g = fnc(j)
                self.prove(sub, g, '%s:%s' % (tag, nm), n)
                if L is not None:
                    L.at(st)

    def check_frame(self, st, upto, mods, entry_state, head_gh, tag, n, entry_stk=STACK0):
        """Every write since `upto` stays inside mods or in memory allocated since entry."""
        regs = {}
        for m in mods:
            if isinstance(m, str):
                continue
            if m[0] == 'copy':
                continue
            regs.setdefault(m[0], []).append(m[1])
        ghs = set(m for m in mods if isinstance(m, str))
        for g in st.gh:
            if g not in ghs and not st.gh[g].eq(head_gh[g]):
                self.prove(st, st.gh[g] == head_gh[g], tag + ':ghost-' + g, n)

        def ok(key, a, guard):
            rs = regs.get(key, [])
            if any(r is None for r in rs):
                return TRUE
            new = FALSE if key.startswith('G:') and key not in ('G:live', 'G:bsz') else \
                Or(And(a >= entry_state.brk, a < STACK0), a >= entry_stk)
            return Or(*([r(a) for r in rs] + [new]))
        o = st.mem
        seen = set()
        while o is not upto and o is not None:
            if o.kind == 'store':
                kk = (o.key, o.addr.get_id())
                if kk not in seen:
                    seen.add(kk)
                    old = select(upto, o.key, o.addr, st)
                    self.prove(st, Or(ok(o.key, o.addr, TRUE), old == st.load(o.key, o.addr)
                                      if not z3.is_fp(old) else FALSE), tag + ':' + o.key, n)
            elif o.kind == 'havoc':
                if o.region is None:
                    if not any(r is None for r in regs.get(o.key, [])):
                        self.prove(st, FALSE, tag + ':' + o.key, n)
                else:
                    a = fresh('sk_frame')
                    self.prove(st, Implies(o.region(a), ok(o.key, a, TRUE)), tag + ':' + o.key, n)
            elif o.kind == 'map':
                if not any(r is None for r in regs.get(o.key, [])):
                    a = fresh('sk_frame')
                    old = select(o.prev, o.key, a, st)
                    self.prove(st, Or(o.fn(a, old, st) == old, ok(o.key, a, TRUE)), tag + ':' + o.key, n)
            elif o.kind == 'copy':
                # all data classes; only those the contract mentions, or fresh memory
                a = fresh('sk_frame')
                dk = [k for k in regs if k in o.val]
                for key in (dk or [sorted(o.val)[0]]):
                    self.prove(st, Implies(And(a >= o.addr, a < o.addr + o.n), ok(key, a, TRUE)),
                               tag + ':copy-' + key, n)
            o = o.prev

    def loop_unroll(self, st, n, cond, inc, body, isdo):
        lim = self.opts['unroll']
        out = []
        live = [st]
        first = isdo
        for it in range(lim + 1):
            nxt = []
            for s in live:
                if first:
                    branch = [(s, True)]
                else:
                    branch = []
                    for s1, cv in (self.ev(s, cond) if cond else [(s, V(None, INT, b=TRUE))]):
                        branch += self.split(s1, cv.cond())
                for s2, truth in branch:
                    if not truth:
                        out.append((s2, 'n', None))
                        continue
                    if it == lim:
                        if self.opts.get('bounded'):
                            self.bounded_cut = True
                            continue
                        raise Unattachable('loop at %s:%s has no invariant and exceeds unrolling %d' %
                                           (s2.fr.fn['name'], cparse.sloc(n), lim))
                    s2.trace.append(cparse.sloc(n))
                    for r in self.ex(s2, body):
                        if r[1] in ('n', 'c'):
                            if inc:
                                nxt += [x for x, _ in self.ev(r[0], inc)]
                            else:
                                nxt.append(r[0])
                        elif r[1] == 'b':
                            out.append((r[0], 'n', None))
                        else:
                            out.append(r)
            first = False
            live = nxt
            if not live:
                break
            if len(live) + len(out) > self.opts['max_paths']:
                raise Unattachable('too many paths in unrolled loop')
        return out


NOEVAL = {'ARMCII_Dbg_print_impl', 'ARMCII_Warning', 'printf', 'fprintf', 'fflush', 'perror', 'vprintf',
          'ARMCII_Dbg_print', 'puts', 'putchar'}


def _mkhook(ctx, fn):
    def h(a, v, sink):
        with ctx.sinking(sink):
            r = fn(a)
        return [r]
    return h


def _mkloophook(eng, L, spec, head, fn):
    frozen = L.freeze(head)

    def h(a, v, sink):
        with L.frozen(frozen, sink):
            r = fn(a)
        return [r]
    return h


class _Sinking:
    def __init__(self, ctx, sink):
        self.ctx, self.sink = ctx, sink

    def __enter__(self):
        self.old = self.ctx._sink
        self.ctx._sink = self.sink

    def __exit__(self, *a):
        self.ctx._sink = self.old


class Ctx:
    """What contract clauses may talk about."""

    def __init__(self, eng, contract, args, st):
        self.eng = eng
        self.c = contract
        self.names = contract.params.split()
        self.args = {}
        for nm, a in zip(self.names, args):
            self.args[nm] = a.i() if a.e is None else a.e
            setattr(self, nm, self.args[nm])
        self.argv = dict(zip(self.names, args))
        self.varargs = args[len(self.names):]
        self.st = st
        self._sink = st
        self.pre_mem = st.mem
        self.pre_gh = dict(st.gh)
        self.pre_brk = st.brk
        self.post_mem = None
        self.post_brk = None
        self.post_gh = None
        self.ret = None

    def sinking(self, sink):
        return _Sinking(self, sink)

    def freeze_pre(self, st):
        self.pre_mem = st.mem
        self.pre_gh = dict(st.gh)
        self.pre_brk = st.brk

    def freeze_post(self, st):
        self.post_mem = st.mem
        self.post_gh = dict(st.gh)
        self.post_brk = st.brk
        self._sink = st

    def old(self, key, addr):
        return select(self.pre_mem, key, addr, self._sink)

    def new(self, key, addr):
        return select(self.post_mem, key, addr, self._sink)

    def g0(self, name):
        return self.pre_gh[name]

    def g1(self, name):
        return self.post_gh[name]

    def fact(self, f):
        self._sink.add(f)

    def glob(self, name):
        return self.eng.ga(name)


class LoopCtx:
    def __init__(self, eng, st, n, cond, inc, body, fn):
        self.eng, self.node, self.cond_n, self.inc_n, self.body_n, self.fn = eng, n, cond, inc, body, fn
        self.cur = st
        self.entry_state = None
        self.ctx = getattr(eng, 'unit_ctx', None)
        self._mem = None
        self._gh = None
        self._vars = None
        self._sink = None

    def at(self, st):
        self.cur = st
        if self.ctx is not None:
            self.ctx._sink = st

    def freeze(self, st):
        return (st.mem, dict(st.gh), [dict(f.vars) for f in st.frames], dict(st.fr.names))

    def frozen(self, fz, sink):
        L = self

        class W:
            def __enter__(s):
                s.old = (L._mem, L._gh, L._vars, L._sink)
                L._mem, L._gh, L._vars, L._sink = fz[0], fz[1], fz[2][-1], sink
                if L.ctx is not None:
                    s.cs = L.ctx._sink
                    L.ctx._sink = sink

            def __exit__(s, *a):
                L._mem, L._gh, L._vars, L._sink = s.old
                if L.ctx is not None:
                    L.ctx._sink = s.cs
        return W()

    def _var(self, name, st, vars_, mem, sink):
        did = st.fr.names.get(name)
        if did is None:
            raise Unattachable('invariant names local %r, which %s no longer has' % (name, self.fn['name']))
        v = vars_.get(did)
        if v is None:
            raise Unattachable('local %r not in scope' % name)
        if isinstance(v, tuple):
            return select(mem, v[2], v[1], sink)
        return v.i() if v.e is None else v.e

    def v(self, name):
        if self._mem is not None:
            return self._var(name, self.cur, self._vars, self._mem, self._sink)
        return self._var(name, self.cur, self.cur.fr.vars, self.cur.mem, self.cur)

    def counter_mods(self):
        """The loop counter's own cell, when its address is taken somewhere in the function."""
        v = self.cur.fr.vars.get(self.cur.fr.names.get(self.idx_name()))
        if isinstance(v, tuple):
            x = v[1]
            return [(v[2], lambda a: a == x)]
        return []

    def addr(self, name):
        """Address of a memory-resident local (array, struct, &-taken)."""
        did = self.cur.fr.names.get(name)
        if did is None:
            raise Unattachable('invariant names local %r, which %s no longer has' % (name, self.fn['name']))
        v = self.cur.fr.vars.get(did)
        if not isinstance(v, tuple):
            raise Unattachable('local %r is not in memory' % name)
        return v[1]

    def e(self, name):
        return self._var(name, self.entry_state, self.entry_state.fr.vars, self.entry_state.mem, self.entry_state)

    def mem(self, key, addr):
        if self._mem is not None:
            return select(self._mem, key, addr, self._sink)
        return select(self.cur.mem, key, addr, self.cur)

    def emem(self, key, addr):
        return select(self.entry_state.mem, key, addr, self._sink or self.cur)

    def g(self, name):
        return (self._gh if self._gh is not None else self.cur.gh)[name]

    def eg(self, name):
        return self.entry_state.gh[name]

    # ------- role lookup: the loop's own counter, whatever it is called
    def idx_name(self):
        cands = []

        def refs(x, acc):
            if x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['kind'] in ('VarDecl', 'ParmVarDecl'):
                acc.append(x['referencedDecl'])
            for c in x.get('inner', []):
                if isinstance(c, dict) and c:
                    refs(c, acc)
        inc = self.eng.assigned(self.cur.fr, [self.inc_n] if self.inc_n else [self.body_n])
        acc = []
        if self.cond_n:
            refs(self.cond_n, acc)
        for d in acc:
            if d['id'] in inc and d['name'] not in cands:
                cands.append(d['name'])
        if not cands and self.inc_n:
            acc = []
            refs(self.inc_n, acc)
            cands = [d['name'] for d in acc if d['id'] in inc]
        if not cands:
            raise Unattachable('no loop counter found in %s' % self.fn['name'])
        return cands[0]

    def idx(self):
        return self.v(self.idx_name())

    def ptr_name(self, what):
        """The local pointer (to a type whose name contains `what`) the loop advances."""
        asg = self.eng.assigned(self.cur.fr, [self.cond_n, self.inc_n, self.body_n])
        for nm, did in self.cur.fr.names.items():
            v = self.cur.fr.vars.get(did)
            if did in asg and v is not None and not isinstance(v, tuple) and v.t.k == 'ptr' and what in repr(v.t.to):
                return nm
        raise Unattachable('no list cursor found in %s' % self.fn['name'])


class LoopSpec:
    def inv(self, L):
        return []

    def modifies(self, L):
        return []

    def lemmas(self, L):
        return []

    def step_lemmas(self, L):
        return []


SILENT = {'rma'}        # events no specification speaks of


class Contract:
    name = None
    params = ''
    file = None
    loops = {}
    inline = False
    unit_opts = {}

    def requires(self, c):
        return []

    def modifies(self, c):
        return []

    def ensures(self, c):
        return []

    def aborts(self, c):
        """Condition (on the pre-state) under which the function may abort;
        None: never allowed."""
        return None

    emits = ()      # events left out of a default effects(): no caller's specification speaks of them

    def effects(self, c):
        """Events the function adds to the trace (None: unspecified)."""
        return []

    def setup(self, eng, st, c):
        """Extra assumptions for verifying the body (world axioms)."""

    def loop(self, i):
        s = self.loops.get(i)
        return s

    _rt = None

    def rtype_hint(self, eng, st):
        if self._rt is None:
            f = eng.find(self.name, st.fr.tu if st.frames else None) or eng.find(self.name)
            ts = None
            if f:
                tu, fn = f
                ts = fn['type']['qualType']
            else:
                tu = st.fr.tu
                for d in tu.decls.values():
                    if d['kind'] == 'FunctionDecl' and d['name'] == self.name:
                        ts = d['type']['qualType']
                        break
            if ts is None:
                return None
            r = ts[:ts.index('(')].strip()
            try:
                self._rt = tu.typ(r)
            except cparse.ParseError:
                self._rt = INT
        return self._rt


def add_base_hook(base, key, h):
    for k in ([key] if isinstance(key, str) else key):
        base.hooks.setdefault(k, []).append(h)


def ncases(eng, con):
    """Number of separate runs `verify` splits the unit into."""
    cases = con.cases(eng) if hasattr(con, 'cases') else None
    return len(cases) + (not getattr(con, 'cases_total', False)) if cases else 1


def verify(eng, con, world=None, only=None):
    """Check the real body of con.name against con.  Returns list of failures.
    `cases` on a contract splits the work on the value of parameters: a list of
    {parameter: constant}; one more run covers every other value."""
    cases = con.cases(eng) if hasattr(con, 'cases') else None
    if not cases:
        return verify_case(eng, con, world, {}, [])
    for i, k in enumerate(cases):
        if only is None or only == i:
            verify_case(eng, con, world, k, [])
    if only is not None and only < len(cases):
        return eng.failed
    if not getattr(con, 'cases_total', False):
        verify_case(eng, con, world, {}, cases)
    return eng.failed


def verify_case(eng, con, world, case, others):
    if hasattr(con, 'lemma'):
        eng.cur = con.name
        st = State()
        for name, hyp, goal in con.lemma(eng):
            s = State()
            for h in hyp:
                s.assume(h)
            r, _ = eng.check(s.pc, [], 20000)
            eng.stats.obl.append(Oblig(name + ':hypotheses-satisfiable', con.name, 'proved' if r == z3.sat else 'failed', 0, 0))
            eng.prove(s, goal, name)
        eng.rets = 1
        return eng.failed
    f = eng.find(con.name)
    if con.file:
        tu = eng.tus.get(con.file)
        if tu and con.name in tu.funcs:
            f = (tu, tu.funcs[con.name])
    if f is None:
        raise Unattachable('function %s not found in the sources' % con.name)
    tu, fn = f
    if getattr(con, 'models', None):
        eng.lib = dict(eng.lib, **con.models)
    eng.cur = con.name
    st = State()
    base = Op('base', None)
    _basecount[0] += 1
    base.base = '0'
    base.hooks = {}
    base.depth = 0
    st.mem = base
    st.brk = Int('BRK0')
    st.assume(And(st.brk > (1 << 30), st.brk < STACK0))
    eng.unit_base = base
    eng.unit_func = con.name
    eng.unit_contract = con
    fr = Frame(fn, tu)
    fr.addr_taken = set()
    st.frames.append(fr)
    params = [c for c in fn.get('inner', []) if c.get('kind') == 'ParmVarDecl']
    if len(params) != len(con.params.split()):
        raise Unattachable('%s takes %d parameters, contract names %d' %
                           (con.name, len(params), len(con.params.split())))
    args = []
    byname = {}
    for p, nm in zip(params, con.params.split()):
        t = tu.node_type(p)
        if t.k == 'arr':
            t = PTR(t.to)
        e = fresh(nm, eng._sort(t))
        if nm in case:
            e = case[nm]
        r = trange(t)
        if r:
            st.assume(And(e >= r[0], e <= r[1]))
        if t.k == 'ptr':
            st.assume(e < st.brk)
        args.append(V(e, t))
        byname[nm] = e
    for k in others:
        st.assume(Or(*[byname[nm] != e for nm, e in k.items()]))
    if world:
        world(eng, st)
    ctx = Ctx(eng, con, args, st)
    eng.unit_ctx = ctx
    con.setup(eng, st, ctx)
    ctx.freeze_pre(st)
    for cl in con.requires(ctx):
        if len(cl) == 2:
            st.assume(cl[1])
        else:
            add_base_hook(base, cl[1], _mkhook(ctx, cl[2]))
    base.memo.clear()                        # cells read before the clauses were known
    ctx.freeze_pre(st)
    eng.abort_ok = con.aborts(ctx)
    # vacuity guard: the precondition has a model
    r, _ = eng.check(st.pc, [], 20000)
    eng.stats.obl.append(Oblig('precondition-satisfiable', con.name,
                               'proved' if r == z3.sat else 'failed' if r == z3.unsat else 'unknown', 0, 0))
    if r == z3.unsat:
        eng.failed.append((eng.stats.obl[-1], st))
        return eng.failed
    entry = st.copy()
    eng.entry = entry
    st.frames.pop()
    pre_mem = st.mem
    outs = eng.run_body(st, tu, fn, args)
    rets = 0
    for s, v in outs:
        r, _ = eng.check(s.pc, [], eng.opts['feas_timeout'])
        if r == z3.unsat:
            continue
        rets += 1
        eng.stats.paths += 1
        s.frames.append(fr)
        ctx.ret = (v.i() if v.e is None else v.e) if v is not None else None
        ctx.freeze_post(s)
        ctx.events = s.events
        if type(con).effects is Contract.effects:
            names = None if s.events is None else set(x[0] for x in s.events) - set(con.emits) - SILENT
            eng.prove(s, TRUE if names == set() else FALSE, 'trace:nothing-undeclared-%s' % ('*' if names is None else '-'.join(sorted(names))))
        for cl in con.ensures(ctx):
            ctx.freeze_post(s)
            if len(cl) == 2:
                eng.prove(s, cl[1], 'post:' + cl[0])
            else:
                nm, key, fnc = cl
                sub = s.copy()
                ctx.freeze_post(sub)
                j = fresh('sk_' + nm)
                eng.prove(sub, fnc(j), 'post:' + nm)
                ctx.freeze_post(s)
        mods = list(con.modifies(ctx)) if not getattr(con, 'noframe', False) else None
        if mods is not None:
            eng.check_frame(s, pre_mem, mods, entry, ctx.pre_gh, 'frame', None)
    eng.rets = rets
    # vacuity guard: some path returns (or the contract says it must not)
    ok = rets > 0 or getattr(con, 'noreturn', False) or bool(others)
    eng.stats.obl.append(Oblig('some-path-returns', con.name, 'proved' if ok else 'failed', 0, 0))
    if not ok:
        eng.failed.append((eng.stats.obl[-1], entry))
    return eng.failed
