"""Native complement: build the real library from /repo/src with the interposed MPI layer (lazy.c) and run generated
inputs (driver.c).  Bounded; never counted as proved.  Also turns failed obligations into concrete failing inputs."""
import os, sys, json, glob, subprocess, tempfile, threading, shutil, time, re, signal
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')

# property -> [(scenario, weight, environment)]
NC = {'ARMCI_NONCOLLECTIVE_GROUPS': '1'}
SCEN = {
    'C01': [('malloc', 3, {})],
    'C02': [('reject', 2, {}), ('contig', 1, {})],
    'C03': [('contig', 3, {})],
    'C04': [('contig', 2, {}), ('mixed', 1, {})],
    'C05': [('strided', 3, {}), ('pack', 1, {})],
    'C06': [('vector', 3, {})],
    'C07': [('ctree', 3, {})],
    'C08': [('mixed', 3, {}), ('contig', 1, {})],
    'C09': [('mixed', 3, {}), ('contig', 1, {})],
    'C10': [('fence', 3, {}), ('mixed', 1, {})],
    'C11': [('rmw', 3, {})],
    'C12': [('groups', 2, {}), ('groups', 2, NC)],
    'C13': [('mutex', 3, {})],
    'C14': [('gop', 3, {})],
    'C15': [('msg', 3, {})],
    'C16': [('init', 3, {})],
    'C17': [('env', 2, {}), ('init', 1, {})],
    'C18': [('flag', 3, {})],
}
NPS = (2, 4, 3)


def mpienv(tmp):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('ARMCI_', 'OMPI_', 'PMIX_'))}
    e.update(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_pml='ob1', OMPI_MCA_btl='self,vader',
             OMPI_MCA_plm='isolated', OMPI_MCA_plm_rsh_agent='', OMPI_MCA_osc='sm,pt2pt', OMPI_MCA_mpi_yield_when_idle='1',
             OMPI_MCA_btl_vader_single_copy_mechanism='none', HWLOC_COMPONENTS='no_os', OMPI_MCA_orte_tmpdir_base=tmp, TMPDIR=tmp,
             ASAN_OPTIONS='detect_leaks=0', OMPI_CC='gcc')
    return e


class Native:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.failures, self.runs, self.note = [], [], ''
        self.proc = None
        self.total = 24.0 if tier == 'quick' else 240.0
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='vn')
        self.th = threading.Thread(target=self.work, daemon=True)
        self.th.start()

    def work(self):
        try:
            if not self.build():
                return
            plan = [(s, n, w, env) for s, w, env in SCEN.get(self.prop, []) for n in NPS]
            tot = sum(w for _, _, w, _ in plan)
            for s, n, w, env in plan:
                self.one(s, n, max(1.0, self.total * w / tot), env)
                if len(self.failures) >= 3:
                    break
        except Exception as e:                    # never a verdict
            self.note += 'native run stopped: %r; ' % e
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)

    def build(self):
        conf = os.path.join(REPO, '_build/src')
        if not os.path.exists(os.path.join(conf, 'armciconf.h')):
            conf = os.path.join(HERE, 'conf')
        self.conf = conf
        fl = ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer', '-w', '-DHAVE_CONFIG_H', '-I' + conf, '-I' + REPO + '/src', '-I' + HERE]
        src = [f for f in sorted(glob.glob(REPO + '/src/*.c')) if os.path.basename(f) not in ('mutex_hdl_spin.c',)]
        env = mpienv(self.tmp)
        ps = []
        for f in src + [HERE + '/lazy.c', HERE + '/driver.c']:
            o = os.path.join(self.tmp, os.path.basename(f)[:-2] + '.o')
            ps.append((f, subprocess.Popen(['mpicc'] + fl + ['-c', f, '-o', o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env)))
        for f, p in ps:
            err = p.communicate()[1]
            if p.returncode:
                self.note += 'native build of %s failed: %s; ' % (f, err.decode(errors='replace')[:400])
        if self.note:
            return False
        r = subprocess.run(['mpicc', '-fsanitize=address'] + glob.glob(self.tmp + '/*.o') + ['-o', self.tmp + '/driver', '-lpthread', '-lm'],
                           capture_output=True, env=env)
        if r.returncode:
            self.note += 'native link failed: %s; ' % r.stderr.decode(errors='replace')[:400]
            return False
        return True

    def launch(self, scen, n, first, maxit, secs, envx):
        d = tempfile.mkdtemp(dir=self.tmp)
        env = mpienv(self.tmp)
        env.update(envx)
        cmd = ['mpirun.openmpi', '--oversubscribe', '--bind-to', 'none', '-n', str(n), self.tmp + '/driver', scen, str(self.seed), str(first),
               str(maxit), str(secs), d]
        with open(d + '/log', 'wb') as log:
            p = subprocess.Popen(cmd, stdout=log, stderr=log, stdin=subprocess.DEVNULL, env=env, cwd=d, start_new_session=True)
            self.proc = p
            hang = False
            try:
                p.wait(timeout=secs + 60)
            except subprocess.TimeoutExpired:
                hang = True
                self.killtree(p)
                p.wait()
        self.proc = None
        out = dict(rc=p.returncode, hang=hang, done=None, fail=[], trace=[], asan='', it=first)
        try:
            out['done'] = open(d + '/done').read().split()
        except OSError:
            pass
        for f in sorted(glob.glob(d + '/fail.*')):
            out['fail'] += open(f, errors='replace').read().splitlines()
        for f in sorted(glob.glob(d + '/trace.*')):
            t = open(f, 'rb').read().split(b'\0')[0].decode(errors='replace')
            out['trace'].append(t)
            m = re.match(r'iteration (\d+)', t)
            if m:
                out['it'] = int(m.group(1))
        log = open(d + '/log', errors='replace').read()
        i = log.find('ERROR: AddressSanitizer')
        if i >= 0:
            out['asan'] = log[i:i + 2500]
        out['log'] = log[-1500:]
        shutil.rmtree(d, ignore_errors=True)
        return out

    @staticmethod
    def killtree(p):
        """end mpirun and the ranks it started (they share its session or are its children)"""
        kids = []
        try:
            for q in os.listdir('/proc'):
                if q.isdigit():
                    try:
                        s = open('/proc/%s/stat' % q).read().rsplit(')', 1)[1].split()
                    except OSError:
                        continue
                    kids.append((int(q), int(s[1]), int(s[3])))
        except OSError:
            pass
        want = {p.pid}
        for _ in range(4):
            for q, pp, sid in kids:
                if pp in want or sid == p.pid:
                    want.add(q)
        for q in want:
            try:
                os.kill(q, signal.SIGKILL)
            except OSError:
                pass

    def one(self, scen, n, secs, envx):
        r = self.launch(scen, n, 0, 10 ** 9, round(secs, 1), envx)
        rec = dict(scenario=scen, processes=n, env=envx, iterations=int(r['done'][0]) if r['done'] else None,
                   rma_operations_rank0=int(r['done'][1]) if r['done'] and len(r['done']) > 1 else None)
        self.runs.append(rec)
        if r['done'] and r['rc'] == 0:
            return
        ident = 'native:%s:np%d:seed%d:iter%d' % (scen, n, self.seed, r['it'])
        what = None
        if r['fail']:
            what = r['fail'][0].split('|', 2)[-1]
        elif r['asan']:
            what = r['asan'].split('\n')[0]
        else:
            r2 = self.launch(scen, n, r['it'], 1, 5, envx)            # confirm: same iteration again
            if r2['fail']:
                what = r2['fail'][0].split('|', 2)[-1]
                r = r2
            elif r2['asan']:
                what = r2['asan'].split('\n')[0]
                r = r2
            elif r2['hang']:
                what = 'the program hangs'
                r = r2
            elif not (r2['done'] and r2['rc'] == 0) and r2['rc'] == r['rc'] and r['rc'] > 128:
                what = 'the program is killed by a signal (status %d)' % r['rc']
                r = r2
            else:
                self.note += '%s stopped (rc %s) without a finding: %s; ' % (ident, r['rc'], r['log'][-300:])
                return
        rec['failed'] = what
        self.failures.append(dict(id=ident, text=what, asan=r['asan'], input=r['trace'],
                                  replay='driver %s %d %d 1 5 OUTDIR on %d processes, environment %r' % (scen, self.seed, r['it'], n, envx)))

    def finish(self):
        self.th.join(self.total + 200)
        if self.th.is_alive():
            if self.proc is not None:
                self.killtree(self.proc)
            self.th.join(20)
            self.note += 'native run did not end in time; '
        return dict(failures=self.failures, runs=self.runs, note=self.note, seconds=round(time.time() - self.t0, 1))


class Child:
    """the native run, in a process of its own"""
    def __init__(self, prop, tier, seed):
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__), prop, tier, str(seed)], stdout=subprocess.PIPE,
                                  stdin=subprocess.DEVNULL, start_new_session=True)

    def finish(self):
        try:
            out = self.p.communicate(timeout=700)[0]
            return json.loads(out.decode())
        except Exception as e:
            Native.killtree(self.p)
            return dict(failures=[], runs=[], note='native run gave no result: %r' % e, seconds=0)


def start(prop, tier, seed):
    return Child(prop, tier, seed) if prop in SCEN else None


if __name__ == '__main__':
    n = Native(sys.argv[1], sys.argv[2], int(sys.argv[3]))
    print(json.dumps(n.finish()))
    sys.stdout.flush()
    os._exit(0)
