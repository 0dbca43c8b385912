"""C16: Python spherical Bessel transforms (one and two dimensions) and resampling."""
import numpy as np, math, warnings
from run import load, modules
T = A = S = None
def setup(sym):
    global T, A, S
    import hankel_stub
    shim = None
    if sym:
        import sym as S_; S = S_; S.scipy_shims(); S.X.logcmp = True
        class Shim(S.NpShim):
            def asarray(self, a, dtype=None, **k): r = S.NpShim.asarray(self, a, dtype, **k); return r.view(S.OA) if isinstance(r, np.ndarray) and r.dtype == object else r
        shim = Shim()
    load(sym, {'_fftlog': dict(HankelTransform=hankel_stub.HankelTransform)})
    with warnings.catch_warnings():
        warnings.simplefilter('ignore'); A, T = modules(['_arrayops', 'transforms'], sym, shim)
def geo(a, r, n): return np.array([a * r ** i for i in range(n)], dtype=float)
def arr(c, l):
    if not c.sym: return np.array(l)
    a = np.empty(len(l), dtype=object).view(S.OA); a[:] = l; return a
def val(c, name, lo, hi, im): return c.var(name, lo, hi) if not im else c.cvar(name, lo, hi) if hasattr(c, 'cvar') else cpl(c, c.var(name, lo, hi), c.var(name + 'i', lo, hi))
def cpl(c, a, b): return S.SymC(a, b) if c.sym else complex(a, b)
def ext1(a, ne, ex):
    n = len(a)
    if ex == 1: lo = hi = lambda j: 0.
    elif ex == 2: lo, hi = (lambda j: a[0]), (lambda j: a[n-1])
    elif ex == 3: lo, hi = (lambda j: a[0] - j * (a[1] - a[0])), (lambda j: a[n-1] + j * (a[n-1] - a[n-2]))
    return [lo(j) for j in range(ne, 0, -1)] + list(a) + [hi(j) for j in range(1, ne + 1)]
def width(n, exp):
    N = 1
    while N < exp * n: N *= 2
    return (N - n) // 2
def oracle1(c, deg, bias, x, f, sgn, pivot, lowring, ex, exp, layer, extend):
    """points and values of the transform of one array; sgn 0: no cosmological factors"""
    import hankel_stub
    n = len(x); ne = width(n, exp) if ex else 0; q = x[1] / x[0]
    X = np.array([x[0] * q ** (i - ne) for i in range(n + 2 * ne)]); h = hankel_stub.HankelTransform(deg + .5, bias, x if ne and layer == 'native' else X, pivot, lowring=lowring, extrap=ex if layer == 'native' else 0, extrap_exp=exp)
    if not ne: F = list(f)
    elif layer == 'outer': F = extend(f)
    g = [F[k] * float(X[k]) ** 1.5 for k in range(len(X))] if not ne or layer == 'outer' else ext1([f[k] * float(x[k]) ** 1.5 for k in range(n)], ne, ex)
    y = np.array([h._pivot / q / x[n-1-j] for j in range(n)]); ph = (1j if sgn < 0 else -1j) ** deg if sgn else 1.; pre = (2 * math.pi) ** -3 if sgn < 0 else 1.
    return y, [sum((g[k] * h.K[ne + j][k] for k in range(len(g)) if h.K[ne + j][k]), 0.) * ((2 * math.pi / y[j]) ** 1.5 * pre) * ph for j in range(n)], h._pivot
def cmp(c, lab, got, want):
    got = np.asarray(got); want = list(want); c.truth(lab + '_size', got.shape == (len(want),), detail=str(got.shape))
    for i, w in enumerate(want): c.eq('%s[%d]' % (lab, i), got[i], w, tol=1e-8)
def run(c):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore'); globals()['op_' + c.op](c)
DIRS = {0: [None], 1: ['forward', 1], -1: ['backward', -1]}
def marker(a, ne):
    """stand-in for the oscillatory extrapolation (itself decided under C15): same interface, distinct linear values"""
    a = list(a); r = [a[0] * (j + 1) + a[1] for j in range(ne, 0, -1)] + a + [a[-1] * (j + 2) - a[-2] for j in range(1, ne + 1)]; z = np.empty(len(r), dtype=object if any(not isinstance(v, (float, complex)) for v in r) else None); z[:] = r; return z.view(S.OA) if z.dtype == object else z
def marker2(a, ne): m = np.array([list(marker(r, ne)) for r in np.asarray(a)]); m = np.array([list(marker(r, ne)) for r in m.T]).T; return m.view(S.OA) if m.dtype == object else m
def op_one(c):
    n, ex, layer, exp = c.n, c.cfg('extrap', 0), c.cfg('layer', 'outer'), c.cfg('exp', 2.); x = geo(.25, 2, n); deg, bias, lr, pv = c.cfg('deg', 0), c.cfg('bias', 0), bool(c.cfg('lowring', 1)), c.cfg('pivot', 1.)
    if ex == 5: T.extrap_loglin_oscil = marker
    if layer == 'default': t = T.SphericalBesselTransform(deg, bias, list(x), extrap=ex); layer, lr, pv, exp = 'outer', True, 1., 2.
    else: t = T.SphericalBesselTransform(deg, bias, x, pivot=pv, lowring=lr, extrap=ex, extrap_exp=exp, extrap_layer=layer)
    pos = ex > 3; a = [val(c, 'a%d' % i, '1/8' if pos else -8, 8, c.cfg('im')) for i in range(n)]; b = [val(c, 'b%d' % i, '1/8' if pos else -8, 8, 0) for i in range(n)]
    def extend(f): return ext1(f, width(n, exp), ex) if ex < 4 else list((A.extrap_loglin if ex == 4 else marker)(arr(c, list(f)), width(n, exp)))
    O = lambda f, sgn: oracle1(c, deg, bias, x, f, sgn, pv, lr, ex, exp, layer, extend)
    y, w, p = O(a, 0); c.eq('pivot', t.pivot, p); c.truth('sizes', t.size == n + 2 * (width(n, exp) if ex else 0)); c.truth('attributes', t.degree == deg and t.bias == bias)
    f = arr(c, list(a)); g = t.transform(f); cmp(c, 'points', g[0], y); cmp(c, 'values', g[1], w); cmp(c, 'input_kept', f, a)
    for sgn in (1, -1):
        for d in DIRS[sgn]: q = t.transform_cosmo_multipoles(d, f); cmp(c, 'points', q[0], y); cmp(c, 'directed%+d' % sgn, q[1], O(a, sgn)[1]); cmp(c, 'input_kept', f, a)
    q = t.transform(arr(c, list(b))); cmp(c, 'other', q[1], O(b, 0)[1]); q = t.transform(f); cmp(c, 'repeat', q[1], w); cmp(c, 'held', g[1], w); cmp(c, 'repeat_points', q[0], y)
    cmp(c, 'given_points_kept', x, geo(.25, 2, n))
def op_two(c):
    n, ex, e2, exp = c.n, c.cfg('extrap', 0), c.cfg('extrap2d', 0), c.cfg('exp', 2.); x = geo(.25, 2, n); degs, bi, lr, pv = tuple(c.cfg('degs', [0, 0])), tuple(c.cfg('biases', [0, 0])), bool(c.cfg('lowring', 1)), c.cfg('pivot', 1.)
    if ex == 5: T.extrap_loglin_oscil = marker; T.extrap2d_loglin_oscil = marker2
    t = T.DoubleSphericalBesselTransform(degs, bi, x, pivot=pv, lowring=lr, extrap=ex, extrap_exp=exp, extrap2d=bool(e2)); pos = ex > 3
    m = [[val(c, 'a%d%d' % (i, j), '1/8' if pos else -8, 8, c.cfg('im')) for j in range(n)] for i in range(n)]; ne = width(n, exp) if ex else 0
    def full(c_, l): a = np.empty((len(l), len(l[0])), dtype=object if c.sym else None); a[...] = l; return a.view(S.OA) if c.sym else a
    def big(m):
        if not (ex and e2): return m
        a = full(c, m); r = {1: lambda: A.extrap2d_pad(a, ne, 0., 0., 0., 0.), 2: lambda: A.extrap2d_pad(a, ne, a[:, 0], a[:, -1], a[0, :], a[-1, :]), 3: lambda: A.extrap2d_lin(a, ne), 4: lambda: A.extrap2d_loglin(a, ne), 5: lambda: marker2(a, ne)}[ex](); return [list(v) for v in r]
    M = big(m); q = x[1] / x[0]; X = np.array([x[0] * q ** (i - ne) for i in range(n + 2 * ne)]) if e2 else x; cut = ne if e2 else 0; k1 = (0, exp, 'outer') if e2 else (ex, exp, 'outer')
    O = lambda ax, f: oracle1(c, degs[ax], bi[ax], X, f, 0, pv, lr, *k1, lambda f: ext1(f, ne, ex) if ex < 4 else list(marker(arr(c, list(f)), ne)))
    rows = [O(1, r)[1] for r in M]; cols = [O(0, [rows[i][j] for i in range(len(rows))])[1] for j in range(len(rows[0]))]; Y = [O(ax, M[0])[0] for ax in (0, 1)]; N = len(X)
    Y = [y[cut:N - cut] for y in Y]; want = [[cols[j][i] for j in range(cut, N - cut)] for i in range(cut, N - cut)]; c.truth('pivots', len(t.pivot) == 2)
    for ax in (0, 1): c.eq('pivot', t.pivot[ax], O(ax, M[0])[2])
    f = full(c, m); g = t.transform(f)
    def check(lab, g, fac=1.):
        v = np.asarray(g[1]); c.truth(lab + '_size', v.shape == (n, n) and len(g[0]) == 2, detail=str(v.shape))
        for i in range(n):
            for j in range(n): c.eq('%s_points' % lab, g[0][0][i][j], Y[0][i]); c.eq('%s_points' % lab, g[0][1][i][j], Y[1][j]); c.eq('%s[%d,%d]' % (lab, i, j), v[i, j], want[i][j] * fac, tol=1e-8)
    check('values', g); k = sum(degs)
    for sgn in (1, -1):
        for d in DIRS[sgn]: check('directed%+d' % sgn, t.transform_cosmo_multipoles(d, f), (1j if sgn < 0 else -1j) ** k * ((2 * math.pi) ** -6 if sgn < 0 else 1.))
    check('repeat', t.transform(f)); check('held', g)
    for i in range(n):
        for j in range(n): c.eq('input_kept', f[i][j], m[i][j])
def op_reject(c):
    v = c.var('v', 1, 2); c.obs('v', v)
    def fails(f):
        try: f(); return False
        except ValueError: return True
    x, y = geo(1, 2, 4), geo(1, 2, 5)
    for ex in (-1, 6, 2.5): c.truth('option', fails(lambda: T.SphericalBesselTransform(0, 0, x, extrap=ex)) and fails(lambda: T.DoubleSphericalBesselTransform((0, 0), (0, 0), x, extrap=ex)))
    for ex in (1, 2, 3, 4, 5): c.truth('odd', fails(lambda: T.SphericalBesselTransform(0, 0, y, extrap=ex)) and fails(lambda: T.DoubleSphericalBesselTransform((0, 0), (0, 0), y, extrap=ex)))
    c.truth('layer', fails(lambda: T.SphericalBesselTransform(0, 0, x, extrap=1, extrap_layer='inner')))
    c.truth('even_or_plain_accepted', not fails(lambda: T.SphericalBesselTransform(0, 0, y)) and not fails(lambda: T.SphericalBesselTransform(0, 0, x, extrap=3)))
    for d in (0, 2, 'up'): c.truth('direction', fails(lambda: T.SphericalBesselTransform(0, 0, x).transform_cosmo_multipoles(d, np.ones(4))) and fails(lambda: T.DoubleSphericalBesselTransform((0, 0), (0, 0), x).transform_cosmo_multipoles(d, np.ones((4, 4)))))
def op_resample(c):
    import scipy.interpolate as si
    log, two, k, size = c.kind == 'lglin', c.cfg('two'), c.cfg('spline', 3), c.cfg('size'); f = T.resample_lglin if log else T.resample_lin; n, m = c.n, c.cfg('m', c.n)
    pt = lambda n, s: np.array([s * (1 + i * (1 + .125 * (i % 2))) for i in range(n)]); new = lambda p, z: np.logspace(np.log10(p[0]), np.log10(p[-1]), z or len(p)) if log else np.linspace(p[0], p[-1], z or len(p))
    if not two:
        p = pt(n, .3); a = [c.var('a%d' % i, -8, 8) for i in range(n)]; v = arr(c, list(a)); q, w = f(p if c.cfg('form', 'array') == 'array' else [p] if c.form == 'nested' else list(p), v, size=size, spline=k); z = np.clip(new(p, size), p[0], p[-1]); cmp(c, 'points', q, z); cmp(c, 'values', w, si_u(p, v, k, z)); cmp(c, 'input_kept', v, a); return
    p, r = pt(n, .3), pt(m, .7) if c.cfg('form', 'array') != 'shared' else pt(n, .3); sz = size if isinstance(size, (list, tuple)) else (size, size)
    V = np.empty((n, m), dtype=object if c.sym else float)
    for i in range(n):
        for j in range(m): V[i, j] = c.var('a%d%d' % (i, j), -8, 8)
    if c.sym: V = V.view(S.OA)
    q, w = f(p if c.cfg('form', 'array') == 'shared' else (p, r) if c.form == 'pair' else [list(p), list(r)], V, size=size, spline=k); a, b = new(p, sz[0]), new(r, sz[1])
    cmp(c, 'points', q[0], a); cmp(c, 'points2', q[1], b); W = si_r(p, r, V, k, a, b); c.truth('shape', np.shape(w) == (len(a), len(b)))
    for i in range(len(a)):
        for j in range(len(b)): c.eq('values', np.asarray(w)[i, j], W[i, j], tol=1e-8)
def si_u(p, v, k, z):
    import scipy.interpolate as si; return si.InterpolatedUnivariateSpline(p, v, k=k)(z)
def si_r(p, r, V, k, a, b):
    import scipy.interpolate as si; return si.RectBivariateSpline(p, r, V, kx=k, ky=k)(a, b)
