"""C19: reshaping of flattened three-point tables."""
import numpy as np, itertools
from run import load, modules
A = None
def setup(sym):
    global A
    import sym as S
    load(sym); A, = modules(['_arrayops'], sym, S.NpShim())
def run(c):
    n, form = c.n, c.form
    if c.op == 'roundtrip':
        idx = [(i, j) for i in range(n) for j in range(i if form == 'triu' else 0, n)]
        k = [c.var('k%d' % i, -64, 64) for i in range(n)]
        if c.cfg('cplx'): v = [c.cplx(c.var('v%d' % t, -64, 64), c.var('w%d' % t, -64, 64)) for t in range(len(idx))]
        else: v = [c.var('v%d' % t, -64, 64) for t in range(len(idx))]
        pc = np.empty((len(idx), 2), dtype=object if c.sym else float)
        for t, (i, j) in enumerate(idx): pc[t, 0] = k[i]; pc[t, 1] = k[j]
        fm = c.array(v); pc0, fm0 = pc.copy(), fm.copy()
        cc, m = A.reshape_threept_datatab(pc, fm, shape=form) if c.cfg('explicit', 1) else A.reshape_threept_datatab(pc, fm)
        c.truth('dims', np.shape(cc) == (n,) and np.shape(m) == (n, n))
        for i in range(n): c.eq('coord[%d]' % i, cc[i], k[i])
        for t, (i, j) in enumerate(idx):
            c.eq('value[%d,%d]' % (i, j), m[i, j], v[t])
            if form == 'triu': c.eq('mirror[%d,%d]' % (j, i), m[j, i], v[t])
        flat = m[np.triu_indices(n)] if form == 'triu' else m.ravel()
        for t in range(len(idx)): c.eq('flatten[%d]' % t, flat[t], v[t])
        for t in range(len(idx)): c.eq('input[%d]' % t, fm[t], fm0[t]); c.eq('input_coord[%d]' % t, pc[t, 0], pc0[t, 0]); c.eq('input_coord2[%d]' % t, pc[t, 1], pc0[t, 1])
    else:   # rejection of lengths that are not a full or triangular grid, of unequal lengths and of unknown shapes
        N = c.choice('N', n) + 1; M = c.choice('M', n) + 1
        pc = np.empty((N, 2), dtype=object if c.sym else float)
        for t in range(N): pc[t, 0] = c.var('a%d' % t, -8, 8); pc[t, 1] = c.var('b%d' % t, -8, 8)
        fm = c.array([c.var('v%d' % t, -8, 8) for t in range(M)])
        good = N == M and (any(N == q * (q + 1) // 2 for q in range(1, 40)) if form == 'triu' else any(N == q * q for q in range(1, 40)) if form == 'full' else False)
        if c.cfg('dim') == 1: pc = pc[:, 0]; good = False
        try: A.reshape_threept_datatab(pc, fm, shape=form); ok = True
        except ValueError: ok = False
        c.truth('accepted', ok == good); c.obs('ok', 1 if ok else 0)
