"""Contracts on messages and broadcasts (src/message.c)."""
import z3
from z3 import And, Or, Not, If, IntVal, Implies, Int, Function
from engine.vc import Contract, LoopSpec, fresh, TRUE, FALSE, KEYSORT, select, STACK0
from . import world as w
from .world import *
from .reg import contract
from .coll import data_fns
from .c_gmr import cache_hooks, slice_hooks
from .c_groups import ev, gf, group_ok

I = IntVal
MAXCALL = 1 << 27


def private_ok(c, a, n):
    """A user's message buffer: memory that existed before the call, of n bytes."""
    return And(n >= 0, a > 0, buf_ok(c, a, n), Or(a < STACK0, a >= STACK0))


def bytes_sent(c, e, src, n):
    """The data handed to the transfer is the caller's, at the watched byte."""
    sub = z3.Solver
    k = 'i1'
    rd = select(e['mem'], k, e['buf'] + WOFF, c._sink)
    return Implies(WOFF < n, rd == c.old(k, src + WOFF))


def bytes_stored(c, e, dst, n):
    return Implies(WOFF < n, c.new('i1', dst + WOFF) == data_fns(e['fn'])['i1'](WOFF))


def released(c):
    """Private copies are handed back exactly once: every list obtained is finished."""
    p, f = ev(c, 'prepare'), ev(c, 'finish')
    return TRUE if len(p) == len(f) and len(p) <= 1 else FALSE


def msg_mods(c, buf, n):
    return data_mods(buf, n) + ['nlive']


class Msg(Contract):
    file = 'message.c'

    def setup(self, eng, st, c):
        slice_hooks(eng, ME)
        for x in ('buf_in', 'buf_out', 'x'):
            if hasattr(c, x):
                st.assume(own_facts(st.load, getattr(c, x), ME))
        st.assume(group_facts(GRPOF(WCOMM), ME))


def one(c, name):
    l = ev(c, name)
    return l[0] if len(l) == 1 else None


def byte(c):
    return w.T(c.eng, 'byte')


class SendRecv(Msg):
    pass


@contract('C15', 'C09')
class Snd(Msg):
    name, params = 'armci_msg_snd', 'tag buf_in nbytes dest'
    emits = ('send', 'prepare', 'finish')

    def requires(self, c):
        yield 'buffer', private_ok(c, c.buf_in, c.nbytes)
        yield 'process id', isproc(c.dest)

    def modifies(self, c):
        return ['nlive']

    def ensures(self, c):
        e = one(c, 'send')
        if e is None:
            yield 'exactly-one-message', FALSE
            return
        yield 'to-that-process-with-that-tag', And(e['dest'] == c.dest, e['tag'] == c.tag, e['comm'] == WCOMM)
        yield 'whole-message', And(e['size'] == c.nbytes)
        yield 'exactly-those-bytes', bytes_sent(c, e, c.buf_in, c.nbytes)
        yield 'copies-handed-back', released(c)


class RecvBase(Msg):
    def requires(self, c):
        yield 'buffer', private_ok(c, c.buf_out, c.nbytes_buf)
        yield 'length-out', Or(c.nbytes_msg == 0, And(c.nbytes_msg > 0, buf_ok(c, c.nbytes_msg, 4), disjoint(c.nbytes_msg, 4, c.buf_out, c.nbytes_buf)))
        if 'src' in self.params:
            yield 'process id', isproc(c.src)

    def modifies(self, c):
        return [(k, lambda a, k=k: Or(And(a >= c.buf_out, a < c.buf_out + c.nbytes_buf), And(c.nbytes_msg != 0, a == c.nbytes_msg) if k == 'i4' else FALSE))
                for k in sorted(DATA_KEYS) + ['ptr']] + ['nlive']

    def ensures(self, c):
        e = one(c, 'recv')
        if e is None:
            yield 'exactly-one-message', FALSE
            return
        yield 'that-tag-in-the-world', And(e['tag'] == c.tag, e['comm'] == WCOMM)
        yield 'that-source', e['src'] == (c.src if 'src' in self.params else I(-1))
        yield 'room-for-the-whole-buffer', e['cap'] == c.nbytes_buf
        yield 'exactly-those-bytes', bytes_stored(c, e, c.buf_out, e['size'])
        yield 'true-length', Implies(c.nbytes_msg != 0, c.new('i4', c.nbytes_msg) == e['size'])
        if 'src' not in self.params:
            yield 'true-sender', c.ret == e['sender']
        yield 'copies-handed-back', released(c)


@contract('C15', 'C09')
class Rcv(RecvBase):
    name, params = 'armci_msg_rcv', 'tag buf_out nbytes_buf nbytes_msg src'
    emits = ('recv', 'prepare', 'finish')


@contract('C15', 'C09')
class RcvAny(RecvBase):
    name, params = 'armci_msg_rcvany', 'tag buf_out nbytes_buf nbytes_msg'
    emits = ('recv', 'prepare', 'finish')


# ---------------------------------------------------------------- broadcast
class BcastBase(Msg):
    def comm(self, c):
        return WCOMM

    def root(self, c):
        return c.root

    def buf(self, c):
        return c.buf_in

    def requires(self, c):
        yield 'buffer', private_ok(c, self.buf(c), c.len)
        yield 'process id', isproc(self.root(c))

    def modifies(self, c):
        b = self.buf(c)
        return [(k, lambda a: And(self.root(c) != ME, a >= b, a < b + c.len)) for k in sorted(DATA_KEYS) + ['ptr']] + ['nlive']

    def active(self, c):
        return TRUE

    def effects(self, c):
        return [('broadcast', dict(comm=self.comm(c), root=self.root(c), buf=self.buf(c), len=c.len))]

    def ensures(self, c):
        if hasattr(c, 'caller'):
            return
        es = ev(c, 'bcast')
        act = self.active(c)
        yield 'exactly-one-broadcast', If(act, z3.BoolVal(len(es) == 1), z3.BoolVal(len(es) == 0))
        yield 'copies-handed-back', released(c)
        if not es:
            return
        e = es[0]
        yield 'over-exactly-that-scope', e['comm'] == self.comm(c)
        yield 'from-that-process', And(e['root'] == GR(self.comm(c), self.root(c)), e['root'] >= 0)
        yield 'whole-message', e['size'] == c.len
        yield 'root-sends-exactly-those-bytes', Implies(ME == self.root(c), bytes_sent(c, e, self.buf(c), c.len))
        yield 'others-get-exactly-those-bytes', Implies(ME != self.root(c), bytes_stored(c, e, self.buf(c), c.len))


@contract('C15', 'C09')
class Bcast(BcastBase):
    name, params = 'armci_msg_bcast', 'buf_in len root'

    def setup(self, eng, st, c):
        Msg.setup(self, eng, st, c)
        st.assume(wcomm_facts(c.root))


class Forward(BcastBase):
    """Hands the request on unchanged."""

    def buf(self, c):
        return c.buffer

    def ensures(self, c):
        if hasattr(c, 'caller'):
            return
        e = one(c, 'broadcast')
        if e is None:
            yield 'exactly-one-broadcast', FALSE
            return
        yield 'that-broadcast', And(e['comm'] == self.comm(c), e['root'] == self.root(c), e['buf'] == c.buffer, e['len'] == c.len)
        if 'scope' in self.params:
            yield 'that-scope', e['scope'] == c.scope


@contract('C15')
class Brdcst(Forward):
    name, params = 'armci_msg_brdcst', 'buffer len root'


@contract('C15', 'C09')
class GroupBcast(BcastBase):
    name, params = 'armci_msg_group_bcast_scope', 'scope buf_in len abs_root group'

    def root(self, c):
        return c.abs_root

    def comm(self, c):
        return gf(c.old, c.group, 'comm')

    def active(self, c):
        return Or(c.scope == I(enumv(c.eng, 'SCOPE_ALL')), c.scope == I(enumv(c.eng, 'SCOPE_MASTERS')))

    def setup(self, eng, st, c):
        Msg.setup(self, eng, st, c)
        g = GRPOF(gf(st.load, c.group, 'comm'))
        st.assume(And(wcomm_facts(c.abs_root), group_facts(g, ME), group_facts(g, c.abs_root)))
        cache_hooks(eng, c.group)

    def requires(self, c):
        for x in BcastBase.requires(self, c):
            yield x
        yield 'group', And(c.group > 0, buf_ok(c, c.group, SZ('ARMCI_Group')), group_ok(c, c.old, c.group))

    def aborts(self, c):
        return And(self.active(c), GR(self.comm(c), c.abs_root) < 0)

    def effects(self, c):
        return [('broadcast', dict(comm=self.comm(c), root=c.abs_root, buf=c.buf_in, len=c.len, scope=c.scope))]


@contract('C15')
class BcastScope(Forward):
    name, params = 'armci_msg_bcast_scope', 'scope buffer len root'

    def setup(self, eng, st, c):
        Forward.setup(self, eng, st, c)
        st.assume(wcomm_facts(c.root))


# ---------------------------------------------------------------- barriers
class MsgBarrier(Contract):
    file = 'message.c'

    def comm(self, c):
        return WCOMM

    def setup(self, eng, st, c):
        slice_hooks(eng, ME)
        st.gh['barriers'] = I(0)

    def modifies(self, c):
        return [] if hasattr(c, 'caller') else ['barriers']

    def effects(self, c):
        return None

    def on_call(self, eng, st, name, args, n, c):
        if name == 'MPI_Barrier':
            eng.prove(st, args[0].i() == self.comm(c), 'synchronises-that-group', n)
            st.gh['barriers'] = st.gh['barriers'] + 1

    def ensures(self, c):
        if not hasattr(c, 'caller'):
            yield 'synchronises', c.post_gh['barriers'] >= 1


@contract('C15')
class WorldBarrier(MsgBarrier):
    name, params = 'parmci_msg_barrier', ''


@contract('C15')
class GroupBarrier(MsgBarrier):
    name, params = 'parmci_msg_group_barrier', 'group'

    def comm(self, c):
        return gf(c.old, c.group, 'comm')

    def requires(self, c):
        yield 'group', And(c.group > 0, buf_ok(c, c.group, SZ('ARMCI_Group')), group_ok(c, c.old, c.group))


class OutInt(Contract):
    file = 'message.c'


@contract('C15')
class MsgMe(OutInt):
    name, params = 'armci_msg_me', ''

    def ensures(self, c):
        yield 'absolute-id', c.ret == ME


@contract('C15')
class MsgNproc(OutInt):
    name, params = 'armci_msg_nproc', ''

    def ensures(self, c):
        yield 'world-size', c.ret == NP


@contract('C15')
class Bintree(OutInt):
    name, params = 'armci_msg_bintree', 'scope root up left right'

    def requires(self, c):
        xs = [c.root, c.up, c.left, c.right]
        yield 'outputs', And(*[And(x > 0, buf_ok(c, x, 4)) for x in xs])
        yield 'distinct', And(*[disjoint(xs[i], 4, xs[j], 4) for i in range(4) for j in range(i)])
        yield 'numbers', NP < (1 << 30)

    def modifies(self, c):
        return [('i4', lambda a: Or(a == c.root, a == c.up, a == c.left, a == c.right))]

    def ensures(self, c):
        rd = lambda p: c.new('i4', p)
        node = c.scope == I(enumv(c.eng, 'SCOPE_NODE'))
        yield 'root', rd(c.root) == 0
        yield 'leaf-alone', Implies(node, And(rd(c.left) == -1, rd(c.right) == -1))
        kid = lambda k: If(k < NP, k, I(-1))
        yield 'children', Implies(Not(node), And(rd(c.left) == kid(2 * ME + 1), rd(c.right) == kid(2 * ME + 2)))
        yield 'parent', Implies(Not(node), rd(c.up) == If(ME == 0, I(-1), (ME - 1) / 2))
