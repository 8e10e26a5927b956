#!/opt/veriftools/pyvenv/bin/python
"""Decide one property on /repo's current tree.

usage: check.py <property> [--tier quick|thorough]

1. clang parses every library source of /repo/src (current working tree);
2. every function under contract that the property rests on is verified,
   function by function (engine/vc.py), each obligation by z3;
3. the real library, compiled from the same sources, is run against an
   interposed MPI (native/) on generated inputs: this turns a failed obligation
   into a concrete failing input, and stands in (labelled bounded) for
   functions the verifier cannot attach to any more;
4. evidence/<property>.json is written.
Exit 0: the property held.  Exit 1 + "VIOLATION ..." otherwise.
"""
import sys, os, time, json, traceback, argparse, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
import multiprocessing as mp

T0 = time.time()


def run_unit(job):
    name, tier, case = job
    from engine import vc
    from engine.vc import Engine, verify, Unsupported, Unattachable
    from engine.lib import LIB
    from specs import world as w
    from specs.reg import CONTRACTS
    t0 = time.time()
    con = CONTRACTS[name]
    out = dict(name=name, file=con.file, obl=[], err=None, kind='ok')
    try:
        eng = Engine(CONTRACTS, LIB, opts=dict(con.unit_opts))
        eng.tus, eng.funcs = G['tus'], G['funcs']
        eng.deadline = t0 + (con.unit_opts.get('budget', 240) if tier == 'quick' else 600)
        if tier == 'quick':
            eng.deadline = min(eng.deadline, T0 + 750)      # the whole check answers within its time
        if tier == 'thorough':
            eng.opts['timeout'] = 60000
            eng.opts['cross'] = True
        try:
            verify(eng, con, w.world, case)
        except Unattachable as e:
            out['kind'], out['err'] = 'unattachable', str(e)
        except Unsupported as e:
            out['kind'], out['err'] = 'unsupported', str(e)
        for o in eng.stats.obl:
            d = dict(n=o.name, s=o.status, t=round(o.time, 3), line=o.line)
            if o.status != 'proved':
                d['detail'] = o.detail
                d['goal'] = str(o.goal)[:4000] if getattr(o, 'goal', None) is not None else ''
                d['model'] = str(o.model)[:4000] if o.model is not None else ''
            out['obl'].append(d)
        out.update(paths=eng.stats.paths, queries=eng.stats.queries, solver=round(eng.stats.solver_time, 2),
                   inlined=sorted(eng.stats.inlined), called=sorted(eng.stats.called),
                   external=sorted(eng.stats.external), cross=getattr(eng.stats, 'cross', 0))
    except MemoryError:
        out['kind'], out['err'] = 'unsupported', 'out of memory'
    except Exception as e:
        out['kind'], out['err'] = 'unsupported', 'verifier error: %s' % traceback.format_exc()[-1500:]
    out['wall'] = round(time.time() - t0, 2)
    return out


G = {}


def make_jobs(names, tier):
    """One job per unit, or per case of a unit verified case by case; dear ones first."""
    from engine.vc import Engine, ncases
    from engine.lib import LIB
    from specs.reg import CONTRACTS
    eng = Engine(CONTRACTS, LIB)
    eng.tus, eng.funcs = G['tus'], G['funcs']
    jobs = []
    for n in names:
        k = ncases(eng, CONTRACTS[n])
        jobs += [(n, tier, i if k > 1 else None) for i in range(k)]
    return sorted(jobs, key=lambda j: -getattr(CONTRACTS[j[0]], 'cost', 1))


def merge_cases(units):
    out = {}
    for u in units:
        o = out.get(u['name'])
        if o is None:
            out[u['name']] = u
            continue
        o['obl'] += u['obl']
        if o['kind'] == 'ok':
            o['kind'], o['err'] = u['kind'], u['err']
        for k in ('paths', 'queries', 'solver', 'cross', 'wall'):
            if k in u:
                o[k] = round(o.get(k, 0) + u[k], 2)
        for k in ('inlined', 'called', 'external'):
            o[k] = sorted(set(o.get(k, [])) | set(u.get(k, [])))
    return list(out.values())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-native', action='store_true')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from engine import cparse
    from engine.vc import Engine
    from engine.lib import LIB
    import specs.all
    from specs.reg import CONTRACTS, PROPS, relevant
    names = PROPS.get(prop, [])
    fatal = None
    try:
        eng = Engine(CONTRACTS, LIB)
        eng.load_all()
        G['tus'], G['funcs'] = eng.tus, eng.funcs
    except cparse.ParseError as e:
        fatal = str(e)
    units = []
    native_proc = None
    if not a.no_native:
        from native import run as nat
        native_proc = nat.start(prop, tier, seed)
    if fatal is None:
        jobs = make_jobs(names, tier)
        ctx = mp.get_context('fork')
        with ctx.Pool(min(8, max(1, len(jobs))), maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(run_unit, jobs, chunksize=1):
                units.append(r)
    units = merge_cases(units)
    units.sort(key=lambda u: u['name'])
    native = native_proc.finish() if native_proc else None

    failed, fallback, unknown = [], [], []
    for u in units:
        con = CONTRACTS[u['name']]
        if u['kind'] != 'ok':
            fallback.append(u)
        for o in u['obl']:
            if o['s'] != 'proved' and relevant(con, prop, o['n']):
                failed.append((u, o))
    known = load_known(prop)
    viol = []
    rep_dir = os.path.join(os.environ.get('TMPDIR', '/tmp'), 'verif-replay')
    os.makedirs(rep_dir, exist_ok=True)
    nat_fail = native['failures'] if native else []
    nat_unknown = []
    for f in nat_fail:
        k = [x for x in known if x['match'] in f['id']]
        if k:
            for x in k:
                x['hit'] = f['id']
        else:
            nat_unknown.append(f)
    obl_unknown = []
    for u, o in failed:
        oid = '%s:%s' % (u['name'], o['n'])
        k = [x for x in known if x['match'] in oid]
        if k:
            for x in k:
                x['hit'] = oid
        else:
            obl_unknown.append((u, o))
    for x in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, x['text']))
    replay = None
    msg = None
    if fatal is not None:
        # sources that clang cannot parse: nothing to verify, not a verdict about behaviour
        print('the sources do not parse: %s' % fatal[:500], file=sys.stderr)
        msg = 'no-failing-input-found'
    if obl_unknown or nat_unknown or msg:
        replay = os.path.join(rep_dir, '%s.%d.json' % (prop, os.getpid()))
        json.dump(dict(property=prop, tier=tier,
                       failed_obligations=[dict(function=u['name'], file=u['file'], **o) for u, o in obl_unknown],
                       failing_inputs=nat_unknown, parse_error=fatal), open(replay, 'w'), indent=1)
        for u, o in obl_unknown[:12]:
            print('FAILED obligation %s:%s (%s line %s) %s' % (u['name'], o['n'], u['file'], o['line'], o['s']))
        for f in nat_unknown[:5]:
            print('FAILING INPUT %s' % f['id'])
            print('   ' + f.get('text', '')[:600])
    write_evidence(prop, tier, seed, units, failed, fallback, native, CONTRACTS,
                   len(obl_unknown) + len(nat_unknown))
    if a.v:
        for u in units:
            print('%-34s %-12s obl %4d  bad %d  %.1fs %s' % (u['name'], u['kind'], len(u['obl']),
                  sum(1 for o in u['obl'] if o['s'] != 'proved'), u['wall'], (u['err'] or '')[:150]))
        if native:
            print('native:', {k: native[k] for k in native if k != 'failures'})
    n_ob = sum(len(u['obl']) for u in units)
    print('%s: %d functions under contract, %d obligations, %d undischarged, %d bounded stand-ins, %.0f s' %
          (prop, len(units), n_ob, len(failed), len(fallback), time.time() - T0))
    if replay:
        tail = '' if nat_unknown else ' no-failing-input-found'
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, tail))
        sys.stdout.flush()
        os._exit(1)
    sys.stdout.flush()
    os._exit(0)


def load_known(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.strip()
        if line.startswith('KNOWN-FINDING: property=%s ' % prop):
            body = line.split(' ', 2)[2]
            match, _, text = body.partition(' :: ')
            out.append(dict(match=match.strip(), text=body))
    return out


TRUST = [
    'engine/vc.py: the verification-condition generator (symbolic semantics of the C subset used here)',
    'clang 18 front end (JSON AST of the real sources)', 'z3 5.3.2 (SMT solver)',
    'engine/lib.py: models of malloc/realloc/free/memcpy and the abort routines',
    'specs/mpi.py, specs/coll.py: models of the MPI functions (effects guaranteed by the MPI standard)',
]


def write_evidence(prop, tier, seed, units, failed, fallback, native, CONTRACTS, nviol):
    from specs.reg import BOUNDED, ASSUME
    n = sum(len(u['obl']) for u in units)
    ok = sum(1 for u in units for o in u['obl'] if o['s'] == 'proved')
    functions = {}
    for u in units:
        functions[u['name']] = dict(file=u['file'], obligations=len(u['obl']),
                                    discharged=sum(1 for o in u['obl'] if o['s'] == 'proved'),
                                    solver_s=u.get('solver', 0), paths=u.get('paths', 0),
                                    inlined=u.get('inlined', []), status=u['kind'], note=u['err'])
    ext = sorted(set(x for u in units for x in u.get('external', [])))
    called = sorted(set(x for u in units for x in u.get('called', []) if x in CONTRACTS))
    mine = set(u['name'] for u in units)
    level = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    lv = [c['level'] for c in level['checks'] if c['property'] == prop]
    cov = dict(obligations=n, discharged=ok, checker_cmd='python3-vt /verif/check.py %s --tier %s' % (prop, tier),
               trusted_base=TRUST + ['model of ' + x for x in ext],
               functions_under_contract=functions,
               back_end='z3', solver_s=round(sum(u.get('solver', 0) for u in units), 1),
               queries=sum(u.get('queries', 0) for u in units),
               contracts_assumed_here_but_checked_under_another_property=[x for x in called if x not in mine and CONTRACTS[x].props],
               contracts_assumed_and_not_checked=[x for x in called if not CONTRACTS[x].props],
               undischarged=['%s:%s' % (u['name'], o['n']) for u, o in failed],
               bounded_stand_ins=[dict(function=u['name'], reason=u['err']) for u in fallback] +
               [dict(function=f, reason=r) for f, r in BOUNDED.get(prop, [])],
               distinct_obligation_names=len(set((u['name'], o['n']) for u in units for o in u['obl'])))
    if tier == 'thorough':
        cov['obligations_confirmed_by_second_solver'] = sum(u.get('cross', 0) for u in units)
    if native:
        cov['bounded_native_complement'] = {k: native[k] for k in native if k != 'failures'}
    cov['explanation'] = ('Contracts on the real functions, every obligation discharged by z3 on this run; the native '
                          'complement runs the compiled library against an interposed MPI on a bounded set of inputs and is '
                          'not counted as proved.')
    ev = dict(property=prop, tier=tier, seed=seed, level=lv[0] if lv else 'proof', coverage=cov,
              assumptions=ASSUME.get('*', []) + ASSUME.get(prop, []), wall_s=round(time.time() - T0, 1), violations=nviol)
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, prop + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(3)
