"""Runs one job: python run.py JOB.json OUT.json.  The job names a harness module
in pysym/harness, its configuration, the budget, and mode sym|native."""
import sys, os, json, time, types, warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
warnings.simplefilter('ignore')
REPO = os.environ.get('VERIF_REPO', '/repo')
import numpy as np
def load(sym, stubs=None):
    """import the triumvirate package sources with stand-ins for the compiled modules"""
    pkg = types.ModuleType('triumvirate'); pkg.__path__ = [os.path.join(REPO, 'src', 'triumvirate')]; sys.modules['triumvirate'] = pkg
    for n, attrs in (stubs or {}).items():
        m = types.ModuleType('triumvirate.' + n); m.__dict__.update(attrs); sys.modules['triumvirate.' + n] = m
def modules(names, sym, shim):
    import importlib
    r = []
    for n in names:
        m = importlib.import_module('triumvirate.' + n)
        if sym:
            for k, v in list(m.__dict__.items()):
                if v is np: m.__dict__[k] = shim
        r.append(m)
    return r
def main():
    sys.dont_write_bytecode = True
    job = json.load(open(sys.argv[1])); out = sys.argv[2]; import importlib
    import sym as S
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
    H = importlib.import_module(job['harness']); X = S.X
    if job['mode'] == 'native':
        H.setup(False); res = []
        for a in job['assigns']:
            n = S.Native(job['conf'], a)
            try: H.run(n); done = True
            except Exception as e:
                done = False; n.fails.append(('exception', type(e).__name__ + ': ' + str(e)[:200], 0))
            res.append(dict(fails=[[str(x) for x in f] for f in n.fails], obs=n.o, done=done))
        json.dump(res, open(out, 'w')); return
    H.setup(True); X.qms = job.get('qms', 10000); X.deadline = time.time() + job.get('budget', 300); traces = []; err = ''; finished = False; maxv = 3
    warnings.simplefilter('ignore')
    try:
        while True:
            X.start_path(); X.stats['paths'] += 1; c = S.Ctx(job['conf'])
            try:
                H.run(c); X.stats['reached'] += 1
                if len(traces) < job.get('traces', 3) and (X.stats['paths'] < 3 or X.stats['paths'] % 3 == 0):
                    if X.check() == S.z3.sat:
                        a = X.model_assign(X._m)
                        try: traces.append(dict(assign=a, obs=[(l, S.evaluate(S.Sym.of(v), a)) for l, v in X.obs]))
                        except (KeyError, ValueError, ZeroDivisionError, OverflowError): pass
            except S.Abort: X.stats['aborted'] += 1
            except S.Violated: pass
            except S.Undecided as e: err = 'undecided: %s' % e; break
            except Exception as e:
                import traceback
                r = X.check()
                if r == S.z3.sat: X.violations.append(dict(label='exception', kind='exception', assign=X.model_assign(X._m), detail=type(e).__name__ + ': ' + str(e)[:200] + ' ' + traceback.format_exc()[-600:]))
                elif r == S.z3.unsat: X.stats['aborted'] += 1
                else: err = 'exception on an undecided path: %r' % e; break
            if len(X.violations) >= maxv: break
            if not X.next_path(): finished = True; break
    except S.Undecided as e: err = str(e)
    st = X.stats
    json.dump(dict(finished=finished, error=err, violations=X.violations, traces=traces, labels=X.labels, ops=len(X.atoms), undecided=0, incomplete=0, ambiguous=0,
        aborted_paths=st.pop('aborted'), max_query_s=st.pop('max_q'), **st), open(out, 'w'))
if __name__ == '__main__': main()
