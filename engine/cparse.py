"""Front end: the real C sources of /repo, as seen by clang, turned into Python
dictionaries (clang's own JSON AST) plus type/layout tables.

Nothing is rewritten here: every function body that the verifier executes is the
AST clang produced for /repo/src/<file> with the build's own configuration
header and the installed Open MPI headers.
"""
import json, os, re, subprocess, hashlib, pickle

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class ParseError(Exception):
    pass


def conf_dir():
    """Directory that holds armciconf.h: the build's, else the committed copy."""
    d = os.path.join(REPO, '_build', 'src')
    if os.path.exists(os.path.join(d, 'armciconf.h')):
        return d
    return os.path.join(VERIF, 'native', 'conf')


def mpi_incs():
    inc = '/usr/lib/x86_64-linux-gnu/openmpi/include'
    return ['-I' + inc, '-I' + inc + '/openmpi']


def cflags():
    return ['-DHAVE_CONFIG_H', '-I' + conf_dir(), '-I' + os.path.join(REPO, 'src'),
            ] + mpi_incs()


# ------------------------------------------------------------------ types
class T:
    __slots__ = ('k', 'size', 'signed', 'to', 'n', 'name', 'rec')

    def __init__(self, k, size=0, signed=True, to=None, n=None, name=None, rec=None):
        self.k, self.size, self.signed, self.to, self.n, self.name, self.rec = \
            k, size, signed, to, n, name, rec

    def __repr__(self):
        if self.k == 'ptr':
            return '%r*' % (self.to,)
        if self.k == 'arr':
            return '%r[%s]' % (self.to, self.n)
        return self.name or self.k


VOID = T('void', 1, name='void')
INT = T('int', 4, True, name='int')
UINT = T('int', 4, False, name='unsigned int')
LONG = T('int', 8, True, name='long')
ULONG = T('int', 8, False, name='unsigned long')
CHAR = T('int', 1, True, name='char')
UCHAR = T('int', 1, False, name='unsigned char')
DBL = T('flt', 8, name='double')
FLT = T('flt', 4, name='float')
BOOL = T('int', 1, False, name='_Bool')
BUILTIN = {
    'void': VOID, 'char': CHAR, 'signed char': CHAR, 'unsigned char': UCHAR,
    'short': T('int', 2, True, name='short'), 'unsigned short': T('int', 2, False, name='unsigned short'),
    'int': INT, 'unsigned int': UINT, 'long': LONG, 'unsigned long': ULONG,
    'long long': T('int', 8, True, name='long long'),
    'unsigned long long': T('int', 8, False, name='unsigned long long'),
    'float': FLT, 'double': DBL, '_Bool': BOOL, 'bool': BOOL,
    'long double': T('flt', 16, name='long double'),
    '__int128': T('int', 16, True, name='__int128'),
    'unsigned __int128': T('int', 16, False, name='unsigned __int128'),
    '_Complex double': T('cplx', 16, name='_Complex double'),
    '_Complex float': T('cplx', 8, name='_Complex float'),
    '__builtin_va_list': T('opaque', 24, name='va_list'),
}


def PTR(t):
    return T('ptr', 8, False, to=t)


class Record:
    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.fields = []       # (id, name, typestring)
        self.laid = False
        self.size = 0
        self.align = 1
        self.off = {}          # field name -> (offset, T)


class TU:
    """One translation unit."""

    def __init__(self, path):
        self.path = path
        self.funcs = {}        # name -> FunctionDecl with body
        self.decls = {}        # id -> node (VarDecl/ParmVarDecl/FunctionDecl/...)
        self.enums = {}        # id -> int value
        self.enum_names = {}
        self.enum_consts = {}  # name -> value
        self.typedefs = {}     # name -> typestring or ('rec', id)
        self.recs = {}         # id -> Record
        self.rec_by_name = {}
        self.fields = {}       # field id -> (Record, name)
        self.globals = {}      # id -> VarDecl
        self._tcache = {}
        self.src_files = set()

    # -------------------------------------------------- types
    def typ(self, s):
        t = self._tcache.get(s)
        if t is None:
            t = self._parse_type(s)
            self._tcache[s] = t
        return t

    def _parse_type(self, s):
        s0 = s
        s = s.strip()
        s = re.sub(r'\b(const|volatile|restrict|__restrict|__restrict__|_Atomic)\b', '', s).strip()
        s = re.sub(r'\s+', ' ', s)
        if re.search(r'\(\*+\)\s*\(', s) or re.search(r'\(\*\)', s):
            m = re.match(r'^(.*)\(\*\)\[(\w+)\]$', s)
            if m:
                return PTR(self.typ(m.group(1) + '[' + m.group(2) + ']'))
            return PTR(VOID)
        if s.endswith('*'):
            return PTR(self.typ(s[:-1]))
        if s.endswith(']'):
            i = s.index('[')
            base, dims = s[:i], s[i:]
            ds = re.findall(r'\[([^\]]*)\]', dims)
            t = self.typ(base)
            for d in reversed(ds):
                d = d.strip()
                n = int(d) if re.fullmatch(r'\d+', d) else (d or None)
                sz = t.size * n if isinstance(n, int) else 0
                t = T('arr', sz, to=t, n=n)
            return t
        if s.endswith(')'):
            return T('func', 1, name=s)
        if s in BUILTIN:
            return BUILTIN[s]
        if s.startswith('enum '):
            return T('int', 4, False, name=s)
        m = re.match(r'^(struct|union) (.*)$', s)
        nm = m.group(2) if m else s
        if m is None and s in self.typedefs:
            td = self.typedefs[s]
            if isinstance(td, tuple):
                return self._rec_type(td[1], s)
            return self.typ(td)
        if m and nm in self.rec_by_name:
            return self._rec_type(self.rec_by_name[nm], nm)
        if m and nm in self.typedefs and isinstance(self.typedefs[nm], tuple):
            return self._rec_type(self.typedefs[nm][1], nm)
        if m:
            return T('opaque', 0, name=s)
        if s in self.enum_names:
            return T('int', 4, False, name=s)
        raise ParseError('type %r' % s0)

    def _rec_type(self, rid, name):
        r = self.recs[rid]
        if r.name is None:
            r.name = name
        t = T('rec', 0, name=r.name, rec=r)
        if r.fields or r.complete:
            self.layout(r)
            t.size = r.size
        return t

    def align_of(self, t):
        if t.k == 'arr':
            return self.align_of(t.to)
        if t.k == 'rec':
            return t.rec.align
        return max(1, min(t.size, 16))

    def layout(self, r):
        if r.laid:
            return
        r.laid = True
        off = 0
        for fid, name, ts in r.fields:
            t = self.typ(ts)
            a = self.align_of(t)
            r.align = max(r.align, a)
            if r.kind == 'union':
                r.off[name] = (0, t)
                off = max(off, t.size)
            else:
                off = (off + a - 1) // a * a
                r.off[name] = (off, t)
                off += t.size
        r.size = (off + r.align - 1) // r.align * r.align

    def node_type(self, n):
        t = n['type']
        try:
            return self.typ(t['qualType'])
        except ParseError:
            if 'desugaredQualType' in t:
                return self.typ(t['desugaredQualType'])
            raise


def _walk(tu, n, infunc):
    k = n.get('kind')
    if k in ('RecordDecl',) and n.get('completeDefinition'):
        r = Record(n.get('name'), n.get('tagUsed'))
        r.complete = True
        for c in n.get('inner', []):
            if c.get('kind') == 'FieldDecl':
                ty = c['type']['qualType']
                if 'unnamed' in ty or 'anonymous' in ty:
                    ty = c['type'].get('desugaredQualType', ty)
                r.fields.append((c['id'], c.get('name'), ty))
                tu.fields[c['id']] = (r, c.get('name'))
        tu.recs[n['id']] = r
        if n.get('name'):
            tu.rec_by_name[n['name']] = n['id']
    elif k == 'TypedefDecl':
        inner = n.get('inner') or []
        own = inner[0].get('ownedTagDecl') if inner else None
        if own and own.get('kind') == 'RecordDecl' and own['id'] in tu.recs:
            tu.typedefs[n['name']] = ('rec', own['id'])
            if tu.recs[own['id']].name is None:
                tu.recs[own['id']].name = n['name']
        else:
            ts = n['type']['qualType']
            if ts.startswith('enum ') or (own and own.get('kind') == 'EnumDecl'):
                tu.typedefs[n['name']] = 'unsigned int'
            else:
                tu.typedefs[n['name']] = ts
    elif k == 'EnumDecl':
        v = -1
        if n.get('name'):
            tu.enum_names[n['name']] = 1
        for c in n.get('inner', []):
            if c.get('kind') == 'EnumConstantDecl':
                iv = None
                for cc in c.get('inner', []):
                    if 'value' in cc:
                        iv = int(cc['value'])
                v = iv if iv is not None else v + 1
                tu.enums[c['id']] = v
                tu.enum_consts[c['name']] = v
    if k in ('VarDecl', 'ParmVarDecl', 'FunctionDecl'):
        tu.decls[n['id']] = n
    if k == 'VarDecl' and (not infunc or n.get('storageClass') in ('static', 'extern')):
        tu.globals[n['id']] = n
    if k == 'FunctionDecl':
        if any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])):
            tu.funcs[n['name']] = n
        infunc = True
    for c in n.get('inner', []):
        if isinstance(c, dict) and c:
            _walk(tu, c, infunc)


_cache = {}


def parse(path, extra=()):
    key = (path, tuple(extra))
    if key in _cache:
        return _cache[key]
    cmd = ['clang', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json'] + cflags() + list(extra) + [path]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise ParseError('clang failed on %s: %s' % (path, p.stderr.decode()[:2000]))
    d = json.loads(p.stdout)
    tu = TU(path)
    # line bookkeeping: clang omits "line" when unchanged; restore it on statements
    _restore_lines(d)
    for c in d['inner']:
        _walk(tu, c, False)
    _cache[key] = tu
    return tu


def _parse_one(path):
    import sys
    sys.setrecursionlimit(100000)
    try:
        return path, pickle.dumps(parse(path), protocol=4)
    except ParseError as e:
        return path, e


def parse_all():
    """All library sources, parsed in parallel: {file name: TU}."""
    import multiprocessing as mp, sys
    sys.setrecursionlimit(100000)
    files = [src(f) for f in all_sources()]
    out = {}
    with mp.Pool(min(8, os.cpu_count() or 1)) as pool:
        for path, b in pool.imap_unordered(_parse_one, sorted(files, key=os.path.getsize, reverse=True)):
            if isinstance(b, Exception):
                raise b
            out[os.path.basename(path)] = pickle.loads(b)
    return out


def _prune(d):
    """Drop system-header function prototypes' source ranges to keep ASTs small."""
    return d


def _restore_lines(root):
    cur = {'line': 0}

    def loc(l):
        if not l:
            return None
        for key in ('spellingLoc', 'expansionLoc'):
            if key in l:
                loc(l[key])
        if 'line' in l:
            cur['line'] = l['line']
        return cur['line']

    def go(n):
        if 'loc' in n:
            loc(n['loc'])
        r = n.get('range')
        if r:
            n['_line'] = loc(r.get('begin'))
            loc(r.get('end'))
        for c in n.get('inner', []):
            if isinstance(c, dict) and c:
                go(c)
    go(root)


def src(name):
    return os.path.join(REPO, 'src', name)


def all_sources():
    """Every library translation unit (as listed by the build)."""
    skip = {'mutex_hdl_spin.c'}
    out = []
    for f in sorted(os.listdir(os.path.join(REPO, 'src'))):
        if f.endswith('.c') and f not in skip:
            out.append(f)
    return out


def sloc(node):
    return node.get('_line', 0)
