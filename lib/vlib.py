"""Driver for the C++ symbolic-execution checks.

A check is a list of jobs (harness, configuration).  Everything is rebuilt from
/repo's working tree into a scratch directory on every run."""
import concurrent.futures as cf, json, math, os, re, shutil, subprocess, sys, tempfile, threading, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SYMX = os.path.join(VERIF, 'symx'); HARN = os.path.join(VERIF, 'harness')
NPROC = int(os.environ.get('VERIF_JOBS', '8'))
NCXX = '/usr/bin/clang++' if os.path.exists('/usr/bin/clang++') else 'g++'   # native: clang's AddressSanitizer also instruments std::complex accesses
CXX = '/usr/bin/g++' if os.path.exists('/usr/bin/g++') else 'g++'
MODS = ['arrayops', 'dataobjs', 'fftlog', 'field', 'io', 'maths', 'monitor', 'parameters', 'particles', 'threept', 'twopt']
ASAN = 'detect_leaks=0:malloc_fill_byte=127:max_malloc_fill_size=1073741824:max_free_fill_size=1048576:alloc_dealloc_mismatch=0:detect_stack_use_after_return=0:allocator_may_return_null=1'
PY = '/opt/venv/bin/python'; PYRUN = os.path.join(VERIF, 'pysym', 'run.py')
class CheckError(Exception): pass

def run(cmd, timeout=600, cwd=None, env=None):
    e = dict(os.environ); e['ASAN_OPTIONS'] = ASAN; e.pop('CCACHE_DIR', None)
    e['OMP_NUM_THREADS'] = '1'
    if env: e.update(env)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=e, text=True, errors='replace')

class Builder:
    def __init__(self, scratch):
        self.s = scratch; self.src = os.path.join(scratch, 'symsrc'); self.nat = os.path.join(scratch, 'natsrc')
        sys.path.insert(0, SYMX)
        import rewrite
        os.makedirs(self.src); os.makedirs(self.nat); os.makedirs(os.path.join(scratch, 'o'))
        self.mods = []
        for sub in ('include', 'src'):
            d = os.path.join(REPO, 'src', 'triumvirate', sub)
            for f in sorted(os.listdir(d)):
                if not f.endswith(('.cpp', '.hpp', '.h')): continue
                text = open(os.path.join(d, f), encoding='utf-8').read()
                open(os.path.join(self.nat, f), 'w').write(text)
                open(os.path.join(self.src, f), 'w').write('#include "symx_prelude.hpp"\n#line 1 "%s"\n' % os.path.join(d, f) + rewrite.rewrite(text, f))
                if sub == 'src' and f.endswith('.cpp'): self.mods.append(f[:-4])
    def compile_all(self, harnesses, native=True, symbolic=True):
        S, o = self.s, os.path.join(self.s, 'o'); common = ['-std=c++17', '-w', '-g1', '-pipe']
        san = ['-fsanitize=address', '-fno-omit-frame-pointer']
        isym = ['-DSYMX', '-I' + SYMX, '-I' + os.path.join(SYMX, 'stubs'), '-I' + self.src]
        inat = ['-I' + SYMX, '-I' + self.nat]
        jobs = [(['-std=c++17', '-O2', '-w', '-I' + SYMX, '-c', os.path.join(SYMX, 'engine.cpp'), '-o', o + '/engine.o'])]
        jobs += [common + ['-O1'] + isym + san + ['-c', os.path.join(SYMX, 'stubs.cpp'), '-o', o + '/stubs.o']]
        jobs += [common + ['-O0'] + isym + san + ['-c', os.path.join(SYMX, 'main_sym.cpp'), '-o', o + '/main_sym.o']]
        for m in sorted(self.mods, key=lambda m: -os.path.getsize(os.path.join(self.src, m + '.cpp'))):
            jobs.append(common + ['-O1'] + isym + san + ['-c', os.path.join(self.src, m + '.cpp'), '-o', o + '/s_%s.o' % m])
        for h in harnesses: jobs.insert(1, common + ['-O1'] + isym + san + ['-c', os.path.join(HARN, h + '.cpp'), '-o', o + '/h_%s.o' % h])
        if not symbolic: jobs = []
        if native:
            jobs += [common + ['-O0'] + inat + san + ['-c', os.path.join(SYMX, 'main_nat.cpp'), '-o', o + '/main_nat.o']]
            for m in self.mods: jobs.append(common + ['-O1'] + inat + san + ['-c', os.path.join(self.nat, m + '.cpp'), '-o', o + '/n_%s.o' % m])
            for h in harnesses: jobs.append(common + ['-O0'] + inat + san + ['-c', os.path.join(HARN, h + '.cpp'), '-o', o + '/nh_%s.o' % h])
        def one(j):
            r = run([NCXX if os.path.basename(j[-1]).startswith(('n_', 'nh_', 'main_nat')) else CXX] + j)
            return (j, r)
        with cf.ThreadPoolExecutor(NPROC) as ex: res = list(ex.map(one, jobs))
        for j, r in res:
            if r.returncode != 0:
                raise CheckError('compilation failed: %s\n%s' % (j[-3], '\n'.join(l for l in r.stderr.splitlines() if 'error' in l)[:3000]))
        links = []
        for h in harnesses:
            if symbolic: links.append(['-fsanitize=address', '-o', S + '/%s.sym' % h, o + '/h_%s.o' % h, o + '/main_sym.o', o + '/engine.o', o + '/stubs.o'] + [o + '/s_%s.o' % m for m in self.mods] + ['-lz3', '-lgmpxx', '-lgmp', '-lgsl', '-lgslcblas', '-lm'])
            if native: links.append(['-fsanitize=address', '-o', S + '/%s.nat' % h, o + '/nh_%s.o' % h, o + '/main_nat.o'] + [o + '/n_%s.o' % m for m in self.mods] + ['-lfftw3', '-lfftw3_omp', '-lgsl', '-lgslcblas', '-lm'])
        def link(l):
            r = run([NCXX if any(o.endswith('main_nat.o') for o in l) else CXX] + l)
            return (l, r)
        with cf.ThreadPoolExecutor(NPROC) as ex: res = list(ex.map(link, links))
        for j, r in res:
            if r.returncode != 0: raise CheckError('link failed: %s' % r.stderr[:3000])

def lbase(l): return l.split('[')[0]

class Check:
    def __init__(self, pid, tier, seed, level, functions, bounds, assumptions):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.functions, self.bounds, self.assumptions = functions, bounds, assumptions
        self.t0 = time.time(); self.scratch = tempfile.mkdtemp(prefix='vchk_%s_' % pid); self.jobs = []; self.results = []
        self.stop = threading.Event(); self.violations = []; self.errors = []; self.known = []; self.extra = {}
        self.rdir = os.path.join(VERIF, 'evidence', 'replay', pid)
    def job(self, harness, budget=300, traces=6, known=None, expect=None, qms=20000, **conf):
        self.jobs.append(dict(harness=harness, budget=budget, traces=traces, known=known, expect=expect, qms=qms, conf=conf))
    def pyjob(self, harness, **k):
        self.job(harness, **k); self.jobs[-1]['py'] = True
    def build(self):
        h = sorted({j['harness'] for j in self.jobs if not j.get('py')})
        if h: b = Builder(self.scratch); b.compile_all(h)
    def _native_py(self, j, assign, tag):
        d = os.path.join(self.scratch, 'run_%s' % tag); os.makedirs(d, exist_ok=True); jf, out = os.path.join(d, 'job.json'), os.path.join(d, 'out.json')
        json.dump(dict(harness=j['harness'], conf=j['conf'], mode='native', assigns=[assign]), open(jf, 'w'))
        try: r = run([PY, '-B', PYRUN, jf, out], timeout=120, cwd=d)
        except subprocess.TimeoutExpired: return dict(fails=[('timeout', 0, 0)], obs=[], done=False, asan=False, stderr='timeout')
        if not os.path.exists(out): return dict(fails=[], obs=[], done=False, asan=False, rc=r.returncode, stderr=r.stderr[-1500:])
        o = json.load(open(out))[0]
        return dict(fails=[tuple(f) for f in o['fails']], obs=[tuple(x) for x in o['obs']], done=o['done'], skip=False, asan=False, rc=r.returncode, stderr=r.stderr[-1500:])
    def _native(self, j, assign, tag):
        if j.get('py'): return self._native_py(j, assign, tag)
        d = os.path.join(self.scratch, 'run_%s' % tag); os.makedirs(d, exist_ok=True)
        af = os.path.join(d, 'assign.tsv')
        with open(af, 'w') as f:
            for k, v in sorted(assign.items()): f.write('%s\t%.17g\n' % (k, v))
        out = os.path.join(d, 'out.txt')
        cmd = [os.path.join(self.scratch, j['harness'] + '.nat')] + ['%s=%s' % kv for kv in j['conf'].items()] + ['--assign=' + af, '--out=' + out]
        try: r = run(cmd, timeout=120, cwd=d, env=dict(ASAN_OPTIONS=ASAN + ':redzone=1024'))
        except subprocess.TimeoutExpired: return dict(fails=[('timeout', 0, 0)], obs=[], done=False, asan=False, stderr='timeout')
        obs, fails, done, skip = [], [], False, False
        if os.path.exists(out):
            for l in open(out, errors='replace'):
                p = l.rstrip('\n').split(' ')
                if p[0] == 'OBS': obs.append((' '.join(p[1:-1]), float(p[-1])))
                elif p[0] == 'FAIL': fails.append((' '.join(p[1:-2]), float(p[-2]), float(p[-1])))
                elif p[0] == 'DONE': done = True
                elif p[0] == 'SKIP': skip = True
        asan = 'AddressSanitizer' in r.stderr
        return dict(fails=fails, obs=obs, done=done, skip=skip, asan=asan, rc=r.returncode, stderr=r.stderr[-1500:])
    def _run_job(self, n):
        j = self.jobs[n]; d = os.path.join(self.scratch, 'job%d' % n); os.makedirs(d)
        out = os.path.join(d, 'r.json')
        cmd = [os.path.join(self.scratch, j['harness'] + '.sym')] + ['%s=%s' % kv for kv in j['conf'].items()] + ['--out=' + out, '--budget=%g' % j['budget'], '--seed=%d' % self.seed, '--traces=%d' % j['traces'], '--query-ms=%d' % j['qms']]
        if j.get('py'):
            json.dump(dict(harness=j['harness'], conf=j['conf'], mode='sym', budget=j['budget'], traces=j['traces'], qms=j['qms'], seed=self.seed), open(os.path.join(d, 'job.json'), 'w'))
            cmd = [PY, '-B', PYRUN, os.path.join(d, 'job.json'), out]
        t = time.time()
        if self.stop.is_set() and not j['known']: return dict(cancelled=True, job=j)
        r = self._run_cancellable(cmd, j['budget'] + 120, d, j)
        if r is None: return dict(cancelled=True, job=j)
        if r == 'timeout': return dict(error='timeout', job=j)
        if not os.path.exists(out): return dict(error='no result (rc=%s): %s' % (r.returncode, r.stderr[-1500:]), job=j)
        res = json.load(open(out)); res['job'] = j; res['wall'] = time.time() - t; res['stderr'] = r.stderr[-600:]
        res['validated'] = 0; res['mismatch'] = []
        for i, tr in enumerate(res['traces']):
            nat = self._native(j, tr['assign'], 'j%d_t%d' % (n, i)); ok = nat['done'] and not nat['asan']
            bad = None
            sym = {}
            for l, v in tr['obs']: sym.setdefault(l, []).append(v)
            seen = {}
            for l, v in nat['obs']:
                k = seen.get(l, 0); seen[l] = k + 1
                if l not in sym or k >= len(sym[l]): bad = 'label %s only in native run' % l; break
                s = sym[l][k]
                if not (abs(s - v) <= j.get('trtol', 2e-6) * max(1., abs(s), abs(v))): bad = '%s: symbolic %.12g native %.12g' % (l, s, v); break
            if ok and bad is None and len(nat['obs']) == len(tr['obs']): res['validated'] += 1
            else: res['mismatch'].append(dict(assign=tr['assign'], why=bad or ('native: done=%s asan=%s nobs=%d/%d %s' % (nat['done'], nat['asan'], len(nat['obs']), len(tr['obs']), nat['stderr'][-300:])), fails=nat['fails'][:3], asan=nat['asan'], native=nat))
        for i, v in enumerate(res['violations']):
            nat = self._native(j, v['assign'], 'j%d_v%d' % (n, i)); v['native'] = nat
            same = [f for f in nat['fails'] if lbase(f[0]) == lbase(v['label'])]
            v['reproduced'] = bool(same or nat['asan'] or (nat['fails'] and v['kind'] in ('exception', 'uninit', 'asan', 'div0')) or nat['fails'])
            v['nat_fail'] = (same or nat['fails'] or [('AddressSanitizer', 0, 0)])[0]
            if v['reproduced'] and not j['known']: self.stop.set()   # a confirmed counterexample decides the check
        return res
    def _run_cancellable(self, cmd, timeout, cwd, j):
        e = dict(os.environ); e['ASAN_OPTIONS'] = ASAN; e['OMP_NUM_THREADS'] = '1'
        so, se = open(os.path.join(cwd, 'so'), 'w'), open(os.path.join(cwd, 'se'), 'w')
        p = subprocess.Popen(cmd, stdout=so, stderr=se, cwd=cwd, env=e); t = time.time()
        while p.poll() is None:
            time.sleep(0.05 if time.time() - t < 5 else 0.3)
            if time.time() - t > timeout or (self.stop.is_set() and not j['known']):
                late = time.time() - t > timeout; p.kill(); p.wait(); return 'timeout' if late else None
        so.close(); se.close()
        return subprocess.CompletedProcess(cmd, p.returncode, '', open(os.path.join(cwd, 'se'), errors='replace').read())
    def execute(self):
        with cf.ThreadPoolExecutor(NPROC) as ex: self.results = list(ex.map(self._run_job, range(len(self.jobs))))
        for n, r in enumerate(self.results):
            j = r['job']; name = '%s(%s)' % (j['harness'], ' '.join('%s=%s' % kv for kv in j['conf'].items()))
            if r.get('cancelled'): continue
            if 'error' in r and 'paths' not in r: self.errors.append('%s: %s' % (name, r['error'])); continue
            rep = [v for v in r['violations'] if v['reproduced']]; norep = [v for v in r['violations'] if not v['reproduced']]
            if j['known']:
                if rep: self.known.append((j['known'], rep[0], name))
                continue
            for v in rep: self.violations.append((n, name, v))
            if rep: continue
            for v in norep: self.errors.append('%s: counterexample for %s did not reproduce natively: %s %s' % (name, v['label'], v['assign'], v['detail']))
            if not r['finished']: self.errors.append('%s: not finished: %s' % (name, r['error'] or 'stopped'))
            for k in ('undecided', 'incomplete', 'ambiguous'):
                if r[k]: self.errors.append('%s: %s=%d' % (name, k, r[k]))
            if r['reached'] == 0 or r['asserts'] == 0: self.errors.append('%s: vacuous (no path reached the end / no assertion)' % name)
            if r['validated'] == 0: self.errors.append('%s: no trace validated against the native build' % name)
            for e in (j['expect'] or []):
                if not any(lbase(l).startswith(e) for l in r['labels']): self.errors.append('%s: assertion %s never reached' % (name, e))
            for m in r['mismatch']:
                if m['fails'] or m['asan']:
                    # the real code fails the property on a solver-chosen path witness
                    self.violations.append((n, name, dict(label=(m['fails'] or [('AddressSanitizer', 0, 0)])[0][0], kind='native-witness', assign=m['assign'], detail=m['why'], nat_fail=(m['fails'] or [('AddressSanitizer', 0, 0)])[0], native=m['native'])))
                    break
                self.errors.append('%s: trace mismatch: %s' % (name, m['why']))
    def save_replay(self, n, v, idx):
        j = self.jobs[n]; os.makedirs(self.rdir, exist_ok=True); p = os.path.join(self.rdir, 'violation_%d.json' % idx)
        json.dump(dict(property=self.pid, harness=j['harness'], config=j['conf'], label=v['label'], kind=v['kind'], assignment=v['assign'], detail=v['detail'], native_failure=v['nat_fail'], native_stderr=v['native']['stderr'],
                       py=bool(j.get('py')), how='python3 lib/replay.py %s  (from /verif; rebuilds /repo natively and re-runs this assignment)' % os.path.relpath(p, VERIF)), open(p, 'w'), indent=1)
        return p
    def finish(self):
        R = [r for r in self.results if 'paths' in r]; S = lambda k: sum(r[k] for r in R)
        nv = len(self.violations)
        cov = dict(states=int(S('paths')), transitions=int(S('decisions')), traces_validated_against_impl=int(S('validated')),
                   samples=[dict(job=r['job']['harness'], config=r['job']['conf'], paths=r['paths'], forks=r['forks'], assertions=r['labels'], witness=(r['traces'][0]['assign'] if r['traces'] else None)) for r in R[:8]],
                   explanation='Symbolic execution of the real %s:' % ('Python source (numbers replaced by exact symbolic reals)' if all(j.get('py') for j in self.jobs) else 'C++ source (double replaced by an exact symbolic real)' + (' and Python source' if any(j.get('py') for j in self.jobs) else '')) + ' states = completed symbolic paths, transitions = symbolic branch decisions; every assertion is decided for all values on each path.',
                   functions_encoded=self.functions, bounds=self.bounds, jobs=len(self.jobs), feasible_forks=int(S('forks')), symbolic_operations=int(S('ops')), solver_queries=int(S('queries')), solver_unknown=int(S('unknown')), solver_seconds=round(S('solver_s'), 2), max_query_seconds=max([r['max_query_s'] for r in R] or [0]),
                   assertions=int(S('asserts')), assertions_closed_by_normal_form=int(S('closed_nf')), assertions_closed_on_constants=int(S('closed_const')), assertions_closed_by_solver=int(S('closed_solver')), paths_pruned=int(S('aborted_paths')), errors=self.errors[:10])
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=nv)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        for k, v, name in self.known: print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        code = 0
        if nv:
            shutil.rmtree(self.rdir, ignore_errors=True)
            for i, (n, name, v) in enumerate(self.violations[:5]):
                p = self.save_replay(n, v, i)
                print('VIOLATION property=%s replay=%s' % (self.pid, p)); print('  %s label=%s kind=%s native=%s assign=%s' % (name, v['label'], v['kind'], v['nat_fail'], v['assign']))
            code = 1
        elif self.errors:
            for e in self.errors[:20]: print('ERROR', e[:1200])
            code = 2
        print('%s %s: jobs=%d paths=%d asserts=%d queries=%d validated=%d violations=%d errors=%d wall=%.1fs' % (self.pid, self.tier, len(self.jobs), S('paths'), S('asserts'), S('queries'), S('validated'), nv, len(self.errors), time.time() - self.t0))
        return code
    def main(self):
        try:
            try:
                self.build(); self.tb = time.time() - self.t0; self.extra['build_seconds'] = round(self.tb, 1)
                self.execute()
            except CheckError as e: self.errors.append(str(e))
            return self.finish()
        finally: shutil.rmtree(self.scratch, ignore_errors=True)
