"""C18: window convolution, multipole labels, task split."""
import numpy as np, math, warnings, itertools, io, contextlib, os, tempfile
from fractions import Fraction as Fr
from run import load, modules
W = M = None; S = None; SHIM = None; TAB = {}
def setup(sym):
    global W, M, S, SHIM
    import hankel_stub
    shim = None
    if sym:
        import sym as S_; S = S_; S.scipy_shims()
        class Shim(S.NpShim):
            def asarray(self, a, dtype=None, **k): r = S.NpShim.asarray(self, a, dtype, **k); return r.view(S.OA) if isinstance(r, np.ndarray) and r.dtype == object else r
            def loadtxt(self, path, *a, **k): return TAB[path](*a, **k) if path in TAB else np.loadtxt(path, *a, **k)
        shim = SHIM = Shim()
    load(sym, {'_fftlog': dict(HankelTransform=hankel_stub.HankelTransform)})
    with warnings.catch_warnings():
        warnings.simplefilter('ignore'); _, _, M, W = modules(['_arrayops', 'transforms', '_mpitools', 'winconv'], sym, shim)
    if sym:
        for m in (W, M): m.__dict__.setdefault('int', S.IntShim); m.__dict__.setdefault('float', S.FloatShim)
# ------------------------------------------------------------------ oracle
def fact(n): return math.factorial(n)
def tri(a, b, c): return Fr(fact(a + b - c) * fact(a - b + c) * fact(-a + b + c), fact(a + b + c + 1))
def threej0sq(a, b, c):
    """squared 3j symbol with zero orders"""
    J = a + b + c
    if J % 2 or c < abs(a - b) or c > a + b: return Fr(0)
    g = J // 2; t = Fr(fact(g), fact(g - a) * fact(g - b) * fact(g - c)); return tri(a, b, c) * t * t
def threej0(a, b, c): s = threej0sq(a, b, c); return (-1) ** ((a + b + c) // 2) * math.sqrt(s)
def sixj(a, b, c, d, e, f):
    if any(z < abs(x - y) or z > x + y for x, y, z in ((a, b, c), (a, e, f), (d, b, f), (d, e, c))): return 0.
    r = Fr(0)
    for t in range(max(a + b + c, a + e + f, d + b + f, d + e + c), min(a + b + d + e, b + c + e + f, c + a + f + d) + 1):
        r += Fr((-1) ** t * fact(t + 1), fact(t - a - b - c) * fact(t - a - e - f) * fact(t - d - b - f) * fact(t - d - e - c) * fact(a + b + d + e - t) * fact(b + c + e + f - t) * fact(c + a + f + d - t))
    return float(r) * math.sqrt(tri(a, b, c) * tri(a, e, f) * tri(d, b, f) * tri(d, e, c))
def ninej(a, b, c, d, e, f, g, h, i):
    return sum((2 * x + 1) * sixj(a, b, c, f, i, x) * sixj(d, e, f, b, x, h) * sixj(g, h, i, x, a, d) for x in range(0, a + i + d + h + 1))
def coeff3(m, q, z):
    l1, l2, L = m; a, b, c = z; p, r, s = q
    den = threej0(a, b, c) * threej0(p, r, s)
    return (2 * l1 + 1) * (2 * l2 + 1) * (2 * L + 1) * ninej(p, r, s, a, b, c, l1, l2, L) * threej0(l1, l2, L) / den * threej0(l1, a, p) * threej0(l2, b, r) * threej0(L, c, s)
def s1(x, y, k, t, ext=0):
    import scipy.interpolate as si; return si.InterpolatedUnivariateSpline(x, y, k=k, ext=ext)(np.asarray(t, float))
def s2(x, y, z, k, t, u=None):
    import scipy.interpolate as si; return si.RectBivariateSpline(x, y, z, kx=k, ky=k)(np.asarray(t, float), np.asarray(t if u is None else u, float))
def integ(x, z):
    import scipy.integrate as sg; x = np.asarray(x, float)
    return sg.simpson(sg.simpson(z * x * x, x=x, axis=-1) * x * x, x=x, axis=-1)
def ilab(l): return tuple(int(x) for x in (l.split(',') if isinstance(l, str) and ',' in l else l if isinstance(l, (str, tuple, list)) else (l,)))
def ar(c, l, shape=None):
    a = c.array(list(l))
    if c.sym: a = a.view(S.OA)
    return a.reshape(shape) if shape else a
def vec(c, name, n, lo=-2, hi=2, sym=None):
    return ar(c, [c.var('%s%d' % (name, i), lo, hi) if sym is None or i in sym else c.num(1 + ((3 * i + len(name) * 5 + ord(name[-1])) % 7) / 8) for i in range(n)])
def mtx(c, name, n, lo=-2, hi=2, sym=None):
    return vec(c, name, n * n, lo, hi, sym).reshape(n, n)
def geo(a, r, n): return np.array([a * r ** i for i in range(n)], dtype=float)
def cmp(c, lab, got, want):
    got, want = np.asarray(got), np.asarray(want)
    c.truth(lab + '_shape', got.shape == want.shape, detail='%s %s' % (got.shape, want.shape))
    for i in np.ndindex(want.shape): c.eq('%s[%s]' % (lab, ','.join(map(str, i))), got[i], want[i], tol=1e-8)
def total(l):
    r = l[0]
    for x in l[1:]: r = r + x
    return r
def spell(c, l, how):
    l = ilab(l); return {'str': ''.join(map(str, l)), 'comma': ','.join(map(str, l)), 'tuple': l, 'list': list(l), 'pole': W.Multipole(l), 'mixed': tuple(str(x) if i % 2 else x for i, x in enumerate(l)), 'int': l[0]}[how]
FORM2 = {0: [(0, 0), (2, 2)], 2: [(2, 0), (0, 2), (2, 2)]}
FORM3 = {'std': {'000': [('000', '000'), ('000', 'ic'), ('110', '110')], '110': [('000', '110'), ('110', '000'), ('110', 'ic')]},
         'noic': {'000': [('000', '000'), ('110', '110')], '112': [('112', '000'), ('000', '112'), ('110', '112')]},
         'mixed': {'000': [('000', '000'), ('202', '202')], '202': [('000', '202'), ('202', '000'), ('202', 'ic')]},
         'one': {'000': [('000', '000')]}, 'unit': {'000': [('000', '000')], '110': [('000', '110')]}}
class Comm:
    """MPI communicator whose processes run one after another, the root last"""
    def __init__(self, rank, size, box, root): self.rank, self.size, self.box, self.root, self.n = rank, size, box, root, 0
    def bcast(self, v, root=0): return v if v is not None else 0
    def Barrier(self): pass
    barrier = Barrier
    def Get_rank(self): return self.rank
    def Get_size(self): return self.size
    def _put(self, v):
        self.box.setdefault(self.n, {})[self.rank] = v; self.n += 1; return self.box[self.n - 1]
    def gather(self, v, root=0):
        b = self._put(v); return [b[r] for r in range(self.size)] if self.rank == root else None
    def Gatherv(self, sendbuf, recvbuf, root=0):
        b = self._put(np.array(sendbuf))
        if self.rank != root: return
        buf, (sizes, off) = recvbuf
        for r in range(self.size):
            if {str(b[r].dtype).replace('object', 'complex128'), str(buf.dtype).replace('object', 'complex128')} != {str(buf.dtype).replace('object', 'complex128')}: raise RuntimeError('process %d sends %s into a buffer of %s' % (r, b[r].dtype, buf.dtype))
            if b[r].size != sizes[r]: raise RuntimeError('message truncated')
            buf[off[r]:off[r] + sizes[r]] = b[r].ravel()
def run(c):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()): globals()['op_' + c.op](c)
# ------------------------------------------------------------------ labels
def idx(c, name, hi=12):
    v = c.var(name, 0, hi)
    if c.sym:
        (m, _), = v.n.items(); q = S.z3.IsInt(S.X.zv[m[0][0]]); S.X.solver.add(q); S.X.pathcond.append(q); return S.SymI(v.n)
    return int(round(v))
def op_order(c):
    n = c.n; T = [[idx(c, '%s%d' % (k, i)) for i in range(n)] for k in 'abd'[:c.cfg('labels', 2)]]; P = [W.Multipole(tuple(t)) for t in T]
    b = lambda x: bool(x)
    def same(s, t): return all(b(x == y) for x, y in zip(s, t))
    for i, j in itertools.permutations(range(len(P)), 2):
        p, q = P[i], P[j]; lt, gt, le, ge, eq, ne = b(p < q), b(p > q), b(p <= q), b(p >= q), b(p == q), b(p != q); e = same(T[i], T[j])
        c.truth('one_of_three', lt + gt + eq == 1); c.truth('equality', eq == e and ne == (not e)); c.truth('le', le == (lt or eq)); c.truth('ge', ge == (gt or eq)); c.truth('mirror', lt == b(q > p) and gt == b(q < p))
    if len(P) == 3:
        for i, j, k in itertools.permutations(range(3)):
            if b(P[i] < P[j]) and b(P[j] < P[k]): c.truth('transitive', b(P[i] < P[k]))
        s = sorted(P); c.truth('sorted', b(s[0] <= s[1]) and b(s[1] <= s[2]))
    if c.cfg('other'):
        o = W.Multipole(tuple(range(n + 1)))
        for f in (lambda: P[0] < o, lambda: P[0] > o, lambda: P[0] <= o, lambda: o >= P[0]):
            try: f(); ok = True
            except ValueError: ok = False
            c.truth('lengths_rejected', not ok)
        c.truth('lengths_differ', not b(P[0] == o))
def op_parse(c):
    n = c.n; t = tuple(c.choice('d%d' % i, c.cfg('digits', 4)) * c.cfg('scale', 1) + c.cfg('shift', 0) for i in range(n))
    how = ['str', 'comma', 'tuple', 'list', 'mixed', 'pole'] + (['int'] if n == 1 else [])
    if max(t) > 9: how.remove('str')
    for h in how:
        p = W.Multipole(spell(c, t, h)); c.truth('index_' + h, p.index == t and all(type(x) is int for x in p.index)); c.truth('equal_' + h, p == W.Multipole(t) and hash(p) == hash(W.Multipole(t)))
        c.truth('text', str(p) == ','.join(map(str, t)) and p.abstr == ''.join(map(str, t))); c.truth('reparse', W.Multipole(str(p)) == p)
    for i in range(n): c.truth('item', p[i] == t[i])
    c.obs('done', 1)
def op_badlabel(c):
    bad = ['ic', '0,x', None, 1.5j, (None,)]
    for v in bad:
        try: W.Multipole(v); ok = True
        except (ValueError, TypeError): ok = False
        c.truth('bad_rejected', not ok, detail=repr(v))
    c.obs('done', 1)
# ------------------------------------------------------------------ coefficients
def op_named(c):
    name = c.name; F = W.NAMED_FORMULAE[name]; rows = [(m, t) for m in sorted(F) for t in F[m]]; k = c.choice('term', len(rows)); m, (q, z, co) = rows[k]
    if name == 'wilson+16':
        want = float((2 * m + 1) * threej0sq(m, q, z))
        if c.sym and k == 0:
            for mm in F: c.truth('complete', sorted((a, b) for a, b, _ in F[mm]) == sorted((a, b) for b in sorted(F) for a in range(0, 30) if threej0sq(mm, a, b)), detail=str(mm))
    elif z == 'ic': want = -1. if ilab(q) == ilab(m) else 0.
    else: want = coeff3(ilab(m), ilab(q), ilab(z))
    c.eq('coefficient', float(co), want); f = W.WinConvFormulae(F); t = [x for x in f[m] if x.index_Q == ilab(q) and (x.index_Z == z or z != 'ic' and x.index_Z == ilab(z))]
    c.truth('stored', len(t) == 1); c.eq('stored_coefficient', float(t[0].coeff), want)
def op_coeff(c):
    L = [(0, 0, 0), (1, 1, 0), (2, 0, 2), (1, 1, 2), (0, 2, 2), (2, 2, 0), (2, 2, 2), (1, 3, 2)][:c.cfg('nl', 8)]
    m, q, z = (L[c.choice(k, len(L))] for k in 'mqz'); c.eq('coefficient', W.calc_threept_winconv_coeff(m, q, z), coeff3(m, q, z)); c.eq('symbolic', float(W.calc_threept_winconv_coeff(m, q, z, symb=True)), coeff3(m, q, z))
    c.eq('constraint', W.calc_threept_winconv_coeff(m, q, 'ic'), -1. if m == q else 0.)
def op_formula(c):
    """labels required by a formula"""
    co = [c.var('c%d' % i, '1/8', 4) for i in range(6)]; F = FORM3['std']; it = iter(co); f = W.WinConvFormulae({spell(c, m, 'tuple'): [(spell(c, q, 'comma'), z if z == 'ic' else spell(c, z, 'mixed'), next(it)) for q, z in F[m]] for m in F})
    ix = lambda l: [x if isinstance(x, str) else x.index for x in l]
    c.truth('outputs', ix(f.multipoles) == [(0, 0, 0), (1, 1, 0)]); c.truth('windows', ix(f.multipoles_Q) == [(0, 0, 0), (1, 1, 0)]); c.truth('inputs', ix(f.multipoles_Z) == [(0, 0, 0), (1, 1, 0), 'ic'])
    it = iter(co)
    for m in F:
        for t, (q, z) in zip(f[m], F[m]): c.eq('coefficient', t.coeff, next(it)); c.truth('term', t.index_Q == ilab(q) and t.index_Z == (z if z == 'ic' else ilab(z)))
# ------------------------------------------------------------------ task split
def op_tasks(c):
    P = c.procs; v = c.var('total', 1, c.cfg('max', 64))
    if c.sym: (m, _), = v.n.items(); q = S.z3.IsInt(S.X.zv[m[0][0]]); S.X.solver.add(q); S.X.pathcond.append(q); t = S.SymI(v.n)
    else: t = int(round(v))
    nt = M.allocate_tasks(t, P); c.truth('processes', len(nt) == P)
    c.eq('sum', total(list(nt)), t)
    for i in range(P): c.le('nonnegative', 0, nt[i]); c.le('largest', nt[i] * P, t + (P - 1)); c.le('smallest', t - (P - 1), nt[i] * P)
    for form in ('totals', 'given'):
        sg = M.distribute_tasks(task_total=t, proc_total=P) if form == 'totals' else M.distribute_tasks(ntasks=nt, **(dict(task_total=3, proc_total=P + c.cfg('extra', 1)) if c.cfg('ignored') else {}))
        c.truth('segments', len(sg) == P); c.eq('first', sg[0].start, 0); c.eq('last', sg[-1].stop, t)
        for i in range(P): c.eq('length', sg[i].stop - sg[i].start, nt[i]); c.truth('step', sg[i].step in (None, 1))
        for i in range(P - 1): c.eq('adjacent', sg[i].stop, sg[i + 1].start)
def op_badtasks(c):
    for a, e in (((0, 2), ValueError), ((3, 0), ValueError), ((-1, 2), ValueError), ((2.5, 2), TypeError), ((3, '2'), TypeError)):
        try: M.allocate_tasks(*a); r = None
        except Exception as x: r = type(x)
        c.truth('rejected', r is e, detail='%s %s' % (a, r))
    c.obs('done', 1)
# ------------------------------------------------------------------ convolution in configuration space
def coefs(c, F):
    r = {}; i = 0
    for m in F:
        for q, z in F[m]: r[m, q, z] = c.var('c%d' % i, '1/8', 4) if c.cfg('symc', 1) else c.num(Fr(1 + i % 3, 1 + i % 2)); i += 1
    return r
def zset(F): return sorted({z for m in F for _, z in F[m] if z != 'ic'}, key=str)
def qset(F): return sorted({q for m in F for q, _ in F[m]}, key=str)
def snap(d): return {k: np.array(v, copy=True) for k, v in d.items()}
def kept(c, lab, a, b):
    for k in b: cmp(c, lab + '_kept', a[k], b[k])
def op_conv2(c):
    F = FORM2; C = coefs(c, F); k = c.cfg('spline', 3); nq, nz = c.cfg('nq', 5), c.cfg('nz', 4); same = c.cfg('same'); how = c.cfg('how', 'int')
    rQ = {q: geo(1, 2, nq) * (1 if same else 1 + q / 8) for q in qset(F)}; rZ = {z: geo(1, 2, nz) * (1 if same else 1 + z / 16) for z in zset(F)}
    Q = {q: vec(c, 'Q%d_' % q, nq) for q in qset(F)}; Z = {z: vec(c, 'Z%d_' % z, nz) for z in zset(F)}; Q0, Z0 = snap(Q), snap(Z)
    ro = None if c.cfg('rout', 1) == 0 else np.array([1.25, 3., 6.5, 8.])[:c.cfg('nout', 3)] if not c.cfg('beyond') else np.array([1.25, 3., 9., 40.])
    sp = lambda d: {spell(c, (k_,), how): v for k_, v in d.items()}
    w = W.TwoPCFWinConv({spell(c, (m,), how): [(q, z, C[m, q, z]) for q, z in F[m]] for m in F}, rQ[0] if same else sp(rQ), sp(Q), rZ[0] if same else sp(rZ), r_out=ro, spline=k)
    out = w.convolve(sp(Z)); c.truth('outputs', sorted(p.index for p in out) == [(0,), (2,)])
    for m in F:
        t = rZ[m] if ro is None else ro
        cmp(c, 'conv%d' % m, out[W.Multipole(m)], total([C[m, q, z] * s1(rQ[q], Q0[q], k, t, ext=3) * s1(rZ[z], Z0[z], k, t) for q, z in F[m]]))
        cmp(c, 'rout', w.r_out[W.Multipole(m)], t)
    kept(c, 'window', Q, Q0); kept(c, 'input', Z, Z0)
def three(c, F, same):
    k = c.cfg('spline', 3); nq, nz = c.cfg('nq', 4), c.cfg('nz', 4); H = lambda l: 1 + sum(ilab(l)) / 16.
    rQ = {q: geo(1, 2, nq) * (1 if same else H(q)) for q in qset(F)}; rZ = {z: geo(1, 2, nz) * (1 if same else H(z) * 1.125) for z in zset(F)}
    qs = c.cfg('qsym', 'all'); qs = None if qs == 'all' else set(qs); zs = c.cfg('zsym', 'all'); zs = None if zs == 'all' else set(zs)
    Q = {q: mtx(c, 'Q%s_' % q, nq, '1/2', 2, qs) for q in qset(F)}; Z = {z: mtx(c, 'Z%s_' % z, nz, -2, 2, zs) for z in zset(F)}
    return k, rQ, rZ, Q, Z
def ic_oracle(F, rQ, rZ, Q, Z, k, t=None, approx=False):
    num = 0
    for z in Z:
        if z not in Q or approx and ilab(z) != (0, 0, 0): continue
        u = rZ[z] if t is None else t; l = ilab(z); w = float((2 * l[0] + 1) * (2 * l[1] + 1) * (2 * l[2] + 1) * threej0sq(*l))
        num = num + integ(u, s2(rQ[z], rQ[z], Q[z], k, u) * s2(rZ[z], rZ[z], Z[z], k, u)) * w
    u = rZ['000'] if t is None else t
    return num / integ(u, s2(rQ['000'], rQ['000'], Q['000'], k, u))
def op_conv3(c):
    F = FORM3[c.form]; C = coefs(c, F); same = c.cfg('same'); k, rQ, rZ, Q, Z = three(c, F, same); Q0, Z0 = snap(Q), snap(Z); how = c.cfg('how', 'str')
    ro = None if not c.cfg('rout') else np.array([1.25, 3., 6.5])[:c.cfg('nout', 3)]
    sp = lambda d: {spell(c, l, how): v for l, v in d.items()}
    w = W.ThreePCFWinConv({spell(c, m, how): [(spell(c, q, how), z if z == 'ic' else spell(c, z, how), C[m, q, z]) for q, z in F[m]] for m in F}, rQ['000'] if same else sp(rQ), sp(Q), rZ['000'] if same else sp(rZ), r_out=ro, spline=k)
    hasic = any(z == 'ic' for m in F for _, z in F[m])
    if c.cfg('ic') == 'given': ic = c.var('ic', -2, 2); arg = ic
    else: arg = None; ic = ic_oracle(F, rQ, rZ, Q0, Z0, k) if hasic else 0
    if c.cfg('diag'):
        Zd = {z: np.diag(Z[z]) for z in Z}
        if hasic:
            try: w.convolve_diag(sp(Zd)); ok = True
            except ValueError: ok = False
            c.truth('constraint_required', not ok)
        out = w.convolve_diag(sp(Zd), ic=arg) if arg is not None else w.convolve_diag(sp(Zd))
    else: out = w.convolve(sp(Z), ic=arg) if arg is not None else w.convolve(sp(Z))
    c.truth('outputs', sorted(p.index for p in out) == sorted(ilab(m) for m in F))
    for m in F:
        t = rZ[m] if ro is None else ro
        if c.cfg('diag'): want = total([C[m, q, z] * s1(rQ[q], np.diag(Q0[q]), k, t, ext=3) * (ic if z == 'ic' else s1(rZ[z], np.diag(Z0[z]), k, t)) for q, z in F[m]])
        else: want = total([C[m, q, z] * s2(rQ[q], rQ[q], Q0[q], k, t) * (ic if z == 'ic' else s2(rZ[z], rZ[z], Z0[z], k, t)) for q, z in F[m]])
        cmp(c, 'conv' + m, out[W.Multipole(m)], want)
    kept(c, 'window', Q, Q0); kept(c, 'input', Z, Z0)
def op_unit(c):
    """a window of one in the monopole returns the input"""
    F = FORM3['unit']; n = 4; r = geo(1, 2, n); Z = {z: mtx(c, 'Z%s_' % z, n) for z in ('000', '110')}; one = np.ones((n, n))
    f = {m: [(q, z, 1) for q, z in F[m]] for m in F}; w = W.ThreePCFWinConv(f, r, {'000': one}, r); out = w.convolve(Z)
    for m in F: cmp(c, 'unit' + m, out[W.Multipole(m)], Z[m])
    out = w.convolve_diag({m: np.diag(Z[m]) for m in F})
    for m in F: cmp(c, 'unit_diag' + m, out[W.Multipole(m)], np.diag(Z[m]))
    w = W.TwoPCFWinConv({0: [(0, 0, 1)], 2: [(0, 2, 1)]}, r, {0: np.ones(n)}, r); out = w.convolve({0: Z['000'][0], 2: Z['110'][1]})
    cmp(c, 'unit0', out[W.Multipole(0)], Z['000'][0]); cmp(c, 'unit2', out[W.Multipole(2)], Z['110'][1])
def op_ic(c):
    F = FORM3[c.form]; k, rQ, rZ, Q, Z = three(c, F, c.cfg('same')); t = np.array([1.25, 2.5, 4.5, 7.]) if c.cfg('common') else None; ap = bool(c.cfg('approx'))
    got = W.calc_threept_ic(rQ['000'] if c.cfg('same') else rQ, Q, rZ['000'] if c.cfg('same') else rZ, Z, r_common=t, approx=ap, spline=k)
    c.eq('constraint', got, ic_oracle(F, rQ, rZ, Q, Z, k, t, ap), tol=1e-8)
def op_reject(c):
    """sample points or windows lacking a required multipole, unknown names"""
    F = {m: [(q, z, 1) for q, z in FORM3['noic'][m]] for m in FORM3['noic']}; r = geo(1, 2, 4); Q = {q: np.ones((4, 4)) for q in ('000', '110', '112')}; full = {q: r for q in Q}; ls = sorted(Q); k = c.choice('k', 3)
    less = {q: v for q, v in full.items() if q != ls[k]}; Ql = {q: v for q, v in Q.items() if q != ls[k]}
    def tryit(*a, **b):
        try: W.ThreePCFWinConv(*a, **b); return True
        except ValueError: return False
    c.truth('complete_accepted', tryit(F, full, Q, full) and tryit(F, r, Q, r)); c.truth('window_points', not tryit(F, less, Q, full)); c.truth('window_samples', not tryit(F, full, Ql, full))
    need = sorted({z for m in FORM3['noic'] for _, z in FORM3['noic'][m]}); c.truth('input_points', tryit(F, full, Q, less, r_out=r) == (ls[k] not in need)); c.truth('unknown_formula', not tryit('nonesuch', full, Q, full)); c.obs('done', 1)
# ------------------------------------------------------------------ convolution in Fourier space
def trans(c, deg, x, f, sgn, lowring=True, extrap=0, exp=2.):
    """spherical Bessel transform of sampled multipole: points and values"""
    import hankel_stub
    n = len(x); ne = 0; f = list(f)
    if extrap:
        N = 1
        while N < exp * n: N *= 2
        ne = (N - n) // 2; q = x[1] / x[0]; q2 = x[-1] / x[-2]; x = np.array([x[0] * q ** -i for i in range(ne, 0, -1)] + list(x) + [x[-1] * q2 ** i for i in range(1, ne + 1)]); f = ([0.] * ne + f + [0.] * ne) if extrap == 1 else ([f[0]] * ne + f + [f[-1]] * ne)
    h = hankel_stub.HankelTransform(deg + .5, 0, x, 1., lowring=lowring); y = np.array(h._post_sampts); ph = (-1j * sgn) ** deg; pre = (2 * math.pi) ** -3 if sgn < 0 else 1.
    g = [sum((f[k] * float(x[k]) ** 1.5 * h.K[j][k] for k in range(len(x))), 0.) * ((2 * math.pi / y[j]) ** 1.5 * pre) * ph for j in range(len(x))]
    return y[ne:len(y) - ne], g[ne:len(g) - ne]
def tpts(c, deg, x, **k): return trans(c, deg, x, [0.] * len(x), 1, **k)[0]
def cplx_arr(c, g):
    if c.sym: a = np.empty(len(g), dtype=object).view(S.OA); a[:] = [S.SymC.of(v) for v in g]; return a
    return np.array(g, dtype=complex)
def op_pow(c):
    F = FORM2; C = coefs(c, F); k = c.cfg('spline', 3); k2 = c.cfg('kspline', k); n = c.cfg('n', 4); lr = bool(c.cfg('lowring', 1)); ex = c.cfg('extrap', 0); how = c.cfg('how', 'int')
    kin = {z: geo(.0625, 2, n) * (1 if c.cfg('same') else 1 + z / 16) for z in zset(F)}; nq = 5; rQ = {q: geo(.5, 3, nq) * (1 + q / 8) for q in qset(F)}
    qs = c.cfg('qsym', [1, 3]); Q = {q: vec(c, 'Q%d_' % q, nq, -2, 2, set(qs)) for q in qset(F)}; P = {z: vec(c, 'P%d_' % z, n) for z in zset(F)}; Q0, P0 = snap(Q), snap(P); kw = dict(extrap=ex, lowring=lr); kw0 = dict(kw)
    rc = geo(1, 2.5, n) if c.cfg('rcommon') else None; ko = np.array([.1, .3, .4]) if c.cfg('kout', 1) else None; sp = lambda d: {spell(c, (k_,), how): v for k_, v in d.items()}
    w = W.PowspecWinConv({spell(c, (m,), how): [(q, z, C[m, q, z]) for q, z in F[m]] for m in F}, sp(rQ), sp(Q), kin[0] if c.cfg('same') else sp(kin), k_out=ko, r_common=rc, transform_kwargs=kw, spline=(k, k2) if c.cfg('kspline') else k)
    out, xi = w.convolve(sp(P), ret_xi=True); T = dict(lowring=lr, extrap=ex)
    x = {z: trans(c, z, kin[z], list(P0[z]), -1, **T) for z in zset(F)}; re = lambda v: np.asarray(cplx_arr(c, v)).real if not c.sym else cplx_arr(c, v).real
    cfs = {}
    for m in F:
        r = x[m][0] if rc is None else rc; cfs[m] = total([C[m, q, z] * s1(rQ[q], Q0[q], k, r, ext=3) * s1(x[z][0], re(x[z][1]), k, r) for q, z in F[m]]); cmp(c, 'xi%d' % m, xi[W.Multipole(m)], cfs[m])
    for m in F:
        r = x[m][0] if rc is None else rc; kk, pk = trans(c, m, r, list(cfs[m]), 1, **T); a = cplx_arr(c, pk); t = w.k_out if ko is None else ko
        cmp(c, 'pk%d' % m, out[W.Multipole(m)], s1(kk, a.real, k2, t) + 1j * s1(kk, a.imag, k2, t))
        if ko is None: c.truth('kout_range', t.min() >= kk.min() * (1 - 1e-9) and t.max() <= kk.max() * (1 + 1e-9))
    kept(c, 'window', Q, Q0); kept(c, 'input', P, P0); c.truth('arguments_kept', kw == kw0)
def trans2(c, l, x, B, sgn, lr, ex=0):
    n = len(x); rows = [trans(c, l[1], x, list(B[i]), sgn, lr, 0)[1] for i in range(n)]; cols = [trans(c, l[0], x, [rows[i][j] for i in range(n)], sgn, lr, 0)[1] for j in range(n)]
    y0, y1 = tpts(c, l[0], x, lowring=lr), tpts(c, l[1], x, lowring=lr); g = np.empty((n, n), dtype=object if c.sym else complex)
    for i in range(n):
        for j in range(n): g[i, j] = S.SymC.of(cols[j][i]) if c.sym else cols[j][i]
    return y0, y1, g.view(S.OA) if c.sym else g
def bis(c, comm=None, root=0, sample=None):
    F = FORM3[c.form]; C = {k: v for k, v in (sample or {}).items()} or coefs(c, F); k = c.cfg('spline', 3); n = c.cfg('n', 4); lr = bool(c.cfg('lowring', 1)); how = c.cfg('how', 'str'); lin = c.cfg('nonlog')
    kin = {z: geo(.0625, 2, n) * (1 + sum(ilab(z)) / 16.) for z in zset(F)}
    if lin: kin = {z: (np.array([.0625, .125, .25, .5, 1., 2.])[:len(v) + i] * 1.5 + [.01 * (j == 1) for j in range(len(v) + i)]) for i, (z, v) in enumerate(kin.items())}
    rQ = {q: geo(.5, 3, n) * (1 + sum(ilab(q)) / 16.) for q in qset(F)}
    return F, C, k, n, lr, how, kin, rQ
def make_bis(c, F, C, k, lr, how, kin, rQ, Q, kw, comm=None, root=0):
    sp = lambda d: {spell(c, l, how): v for l, v in d.items()}; rc = geo(1, 2.5, c.cfg('n', 4)) if c.cfg('rcommon') else None; ko = np.array([.1, .3, .4])[:c.cfg('nout', 3)] if c.cfg('kout', 1) else None
    w = W.BispecWinConv({spell(c, m, how): [(spell(c, q, how), z if z == 'ic' else spell(c, z, how), C[m, q, z]) for q, z in F[m]] for m in F}, sp(rQ), sp(Q), sp(kin), k_out=ko, r_common=rc, transform_kwargs=kw, spline=(k, c.kspline) if c.cfg('kspline') else k, **(dict(comm=comm, comm_root=root) if comm else {}))
    return w, sp, rc, ko
def op_bis(c):
    F, C, k, n, lr, how, kin, rQ = bis(c); k2 = c.cfg('kspline', k); qs = c.cfg('qsym', [1, 6]); zs = c.cfg('zsym', 'all'); zs = None if zs == 'all' else set(zs)
    Q = {q: mtx(c, 'Q%s_' % q, n, '1/2', 2, set(qs)) for q in qset(F)}; B = {z: mtx(c, 'B%s_' % z, len(kin[z]), -2, 2, zs) for z in zset(F)}; Q0, B0, Bk = snap(Q), snap(B), snap(B); kw = dict(extrap=0, lowring=lr); kw0 = dict(kw)
    w, sp, rc, ko = make_bis(c, F, C, k, lr, how, kin, rQ, Q, kw)
    hasic = any(z == 'ic' for m in F for _, z in F[m]); ic = c.var('ic', -2, 2) if c.cfg('ic') == 'given' else None
    out, ze = w.convolve(sp(B), ic=ic, ret_zeta=True); kl = dict(kin)
    if c.cfg('nonlog'):
        kl = {z: np.logspace(np.log10(v[0]), np.log10(v[-1]), len(v)) for z, v in kin.items()}; B0 = {z: s2(kin[z], kin[z], B0[z], k2, kl[z]) for z in B0}
        for z in kin: cmp(c, 'respaced', w.k_in[W.Multipole(z)], kl[z])
    x = {z: trans2(c, ilab(z), kl[z], B0[z], -1, lr) for z in zset(F)}; cf = {}
    if hasic and ic is None: ic = ic_oracle(F, rQ, {z: x[z][0] for z in x}, Q0, {z: x[z][2].real for z in x}, k)
    for m in F:
        r = x[m][0] if rc is None else rc; cf[m] = total([C[m, q, z] * s2(rQ[q], rQ[q], Q0[q], k, r) * (ic if z == 'ic' else s2(x[z][0], x[z][1], x[z][2].real, k, r)) for q, z in F[m]]); cmp(c, 'zeta' + m, ze[W.Multipole(m)], cf[m])
    for m in F:
        r = x[m][0] if rc is None else rc; k0, k1, g = trans2(c, ilab(m), r, cf[m], 1, lr); t = w.k_out if ko is None else ko
        cmp(c, 'bk' + m, out[W.Multipole(m)], s2(k0, k1, g.real, k2, t) + 1j * s2(k0, k1, g.imag, k2, t))
    kept(c, 'window', Q, Q0); kept(c, 'input', B, Bk); c.truth('arguments_kept', kw == kw0)
def op_mat(c):
    """convolution matrices act on stacked inputs as the convolution does, in every parallel split"""
    F, C, k, n, lr, how, kin, rQ = bis(c); qs = c.cfg('qsym', []); Q = {q: mtx(c, 'Q%s_' % q, n, '1/2', 2, set(qs)) for q in qset(F)}; B = {z: mtx(c, 'B%s_' % z, n) for z in zset(F)}; kw = dict(extrap=0, lowring=lr)
    withic, concat, diag, P, root = bool(c.cfg('ic')), bool(c.cfg('concat')), bool(c.cfg('diag')), c.cfg('procs', 0), c.cfg('root', 0)
    w, sp, rc, ko = make_bis(c, F, C, k, lr, how, kin, rQ, Q, kw)
    if not P: mats = w.gen_winconv_mat(ic=withic, concat=concat, diag=diag)
    else:
        box = {}; env = os.environ.get('OMP_NUM_THREADS')
        for r in [r for r in range(P) if r != root] + [root]:
            wr = make_bis(c, F, C, k, lr, how, kin, rQ, Q, dict(kw), Comm(r, P, box, root), root)[0]; mats = wr.gen_winconv_mat(ic=withic, concat=concat, diag=diag)
            if r != root: c.truth('other_processes', mats is None)
        c.truth('threads_restored', os.environ.get('OMP_NUM_THREADS') == env)
    out = w.convolve(sp(B)) if withic or not any(z == 'ic' for m in F for _, z in F[m]) else w.convolve(sp(B), ic=0.)
    zs = [p.index for p in w._formulae.multipoles_Z if not isinstance(p, str)]; x = [v for z in zs for v in B[''.join(map(str, z))].ravel()]; ms = [p for p in w._formulae.multipoles]
    if concat: no = len(w.k_out); per = no if diag else no * no; c.truth('rows', np.shape(mats)[0] == per * len(ms)); mats = {p: mats[i * per:(i + 1) * per] for i, p in enumerate(ms)}
    for p in ms:
        A = np.asarray(mats[p]); o = np.asarray(out[p]); o = np.array([o[i, i] for i in range(len(o))], dtype=o.dtype) if diag else o.ravel(); c.truth('size', A.shape == (len(o), len(x)), detail=str(A.shape))
        for i in range(len(o)): c.eq('row[%d]' % i, sum((x[j] * (A[i, j] if not isinstance(A[i, j], (complex, np.complexfloating)) or A[i, j].imag else A[i, j].real) for j in range(len(x))), 0.), o[i], tol=1e-8)
# ------------------------------------------------------------------ three-point windows
def pairs(r, sym): n = len(r); return [(i, j) for i in range(n) for j in range(i if sym else 0, n)]
def op_win(c):
    n = c.n; log = c.cfg('log', 1); r = geo(1, 2, n) if log else np.array([1., 2., 3., 4.5, 6.][:n]); ls = c.cfg('poles', ['000', '110', '202']); flat, pp = {}, {}; al = c.var('alpha', '1/8', 2); sym = {l: ilab(l)[0] == ilab(l)[1] for l in ls}; val = {}
    shot = {}
    for l in ls:
        I = pairs(r, sym[l]); v = vec(c, 'Q%s_' % l, len(I)); flat[l] = v; pp[l] = np.array([(r[i], r[j]) for i, j in I]); m = np.empty((n, n), dtype=object if c.sym else float); val[l] = m
        if c.cfg('text'): shot[l] = vec(c, 'S%s_' % l, len(I))
        for t, (i, j) in enumerate(I):
            m[i, j] = (v[t] - shot[l][t] if c.cfg('text') == 'shot' else v[t]) * al * al
            if sym[l]: m[j, i] = m[i, j]
    ml = c.cfg('make', True)
    if c.cfg('text'):
        TAB.clear(); d = None; cols = (1, 4, 6, 8) if c.cfg('text') == 'shot' else (1, 4, 6)
        if c.sym:
            for l in ls:
                def f(*a, usecols=None, unpack=False, l=l):
                    t = np.empty((len(pp[l]), 9), dtype=object); t[...] = 77; t[:, 1] = pp[l][:, 0]; t[:, 4] = pp[l][:, 1]; t[:, 6] = flat[l]; t[:, 8] = shot[l]; t = t[:, list(usecols)]
                    t = t.T if unpack else t; return [x.astype(float) if all(isinstance(y, float) for y in x) else x.view(S.OA) for x in t] if unpack else t.view(S.OA)
                TAB['file-' + l] = f
            paths = {l: 'file-' + l for l in ls}
        else:
            d = tempfile.mkdtemp(); paths = {}
            for l in ls:
                t = np.full((len(pp[l]), 9), 77.); t[:, 1] = pp[l][:, 0]; t[:, 4] = pp[l][:, 1]; t[:, 6] = flat[l]; t[:, 8] = shot[l]; paths[l] = os.path.join(d, l + '.txt'); np.savetxt(paths[l], t, fmt='%.18e')
        w = W.ThreePointWindow.load_from_textfiles(paths, subtract_shotnoise=c.cfg('text') == 'shot', usecols=cols, alpha_contrast=al, make_loglin=ml)
        if d:
            import shutil; shutil.rmtree(d)
    else: w = W.ThreePointWindow(pp if c.cfg('perpole', 1) else pp[ls[0]], flat, alpha_contrast=al, make_loglin=ml)
    R = {l: r for l in ls}
    if not log and ml:
        nn = n if isinstance(ml, bool) else ml; rr = np.logspace(np.log10(r[0]), np.log10(r[-1]), nn)
        val = {l: s2(r, r, val[l] if not c.sym else val[l].view(S.OA), 3, rr) for l in ls}; R = {l: rr for l in ls}
    def check(lab, w, R, val, keys=ls):
        c.truth(lab + 'poles', [p.index for p in w.multipoles] == sorted([ilab(l) for l in keys], key=lambda t: (t[-1], t[:-1])) and all(isinstance(p, W.Multipole) for p in w.multipoles))
        for l in keys:
            p = W.Multipole(l); cmp(c, lab + 'points', w.r[p], R[l]); cmp(c, lab + 'window', w.Q[p], val[l]); cmp(c, lab + 'diagonal', w.Q_diag[p], np.array([val[l][i, i] for i in range(len(val[l]))], dtype=object if c.sym else float))
    check('', w, R, val)
    how = c.cfg('sub')
    if how:
        full = set(range(n)); keep = {l: list(range(n)) for l in ls}; kw = {}
        if how in ('idx', 'both', 'idxdict'):
            a = c.choice('a', n); b = c.choice('b', n + 1); sl = (a or None if c.cfg('none', 1) else a, b if b < n else None); ix = list(range(n))[slice(*sl)]
            if how == 'idxdict': kw['idxrange'] = {spell(c, ls[0], 'tuple'): sl}; keep[ls[0]] = ix
            else: kw['idxrange'] = sl; keep = {l: ix for l in ls}
        if how in ('r', 'both', 'rdict', 'rlow', 'rup'):
            lo, hi = c.var('lo', 0, 20), c.var('hi', 0, 20); rg = (None if how == 'rup' else lo, None if how == 'rlow' else hi); inside = lambda i: (rg[0] is None or bool(rg[0] <= float(r[i]))) and (rg[1] is None or bool(float(r[i]) <= rg[1]))
            if how == 'rdict': kw['rrange'] = {ls[0]: rg}; keep[ls[0]] = [i for i in keep[ls[0]] if inside(i)]
            else: kw['rrange'] = rg; keep = {l: [i for i in keep[l] if inside(i)] for l in ls}
        inp = bool(c.cfg('inplace')); q = w.subselect(inplace=inp, **kw); c.truth('returned', (q is None) == inp); v = w if inp else q
        check('sub_', v, {l: R[l][keep[l]] for l in ls}, {l: val[l][np.ix_(keep[l], keep[l])] for l in ls})
        if not inp: check('original_', w, R, val)
    if c.cfg('again'):
        v = W.ThreePointWindow.load_from_dict({'r': R[ls[0]] if c.cfg('again') == 'common' else {spell(c, l, 'tuple'): R[l] for l in ls}, 'Q': {spell(c, l, 'comma'): val[l] for l in ls}}); check('dict_', v, R, val)
    if c.cfg('resample'):
        size = c.cfg('size'); kind = c.resample; w.resample(spacing=kind, size=size, spline=c.cfg('spline', 3)); nn = size or n
        rr = np.logspace(np.log10(r[0]), np.log10(r[-1]), nn) if kind == 'lglin' else np.linspace(r[0], r[-1], nn)
        check('resampled_', w, {l: rr for l in ls}, {l: s2(r, r, val[l].view(S.OA) if c.sym else val[l], c.cfg('spline', 3), rr) for l in ls})
