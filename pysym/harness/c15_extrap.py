"""C15: Python array extrapolation and the input checks."""
import numpy as np, warnings
from run import load, modules
A = None
def setup(sym):
    global A
    import sym as S
    load(sym); A, = modules(['_arrayops'], sym, S.NpShim())
    if sym: S.X.logcmp = True
def vec(c, n, name='a', kind='any'):
    r = []
    for i in range(n):
        if kind == 'any': r.append(c.var('%s%d' % (name, i), -64, 64))
        else:
            v = c.var('%s%d' % (name, i), '1/64', 64); r.append(-v if kind == 'neg' else v)
    return r
def law1(c, lab, out, src, ne, kind, lo=None, hi=None):
    """out = the extrapolation of src by ne points on each side following the law"""
    n = len(src)
    c.truth(lab + 'size', len(out) == n + 2 * ne)
    for i in range(n): c.eq('%smiddle[%d]' % (lab, i), out[ne + i], src[i])
    for j in range(1, ne + 1):
        l, r = out[ne - j], out[ne + n - 1 + j]
        if kind == 'pad': c.eq('%slower[%d]' % (lab, j), l, lo); c.eq('%supper[%d]' % (lab, j), r, hi)
        elif kind == 'lin':
            c.eq('%slower[%d]' % (lab, j), l, src[0] - j * (src[1] - src[0])); c.eq('%supper[%d]' % (lab, j), r, src[-1] + j * (src[-1] - src[-2]))
        else:   # equal ratios
            c.eq('%slower[%d]' % (lab, j), l * src[1] ** j, src[0] ** (j + 1)); c.eq('%supper[%d]' % (lab, j), r * src[-2] ** j, src[-1] ** (j + 1))
def row(v): return [v[i] for i in range(len(v))]
def run(c):
    op = c.op
    if op == '1d':
        n, ne, kind = c.n, c.ne, c.kind
        a = vec(c, n, kind=c.cfg('sign', 'any')); z = c.cfg('zero')
        if z is not None: a[z] = c.num(0)
        arr = c.array(a)
        if kind == 'pad':
            lo, hi = c.var('lo', -64, 64), c.var('hi', -64, 64); out = A.extrap_pad(arr, ne, lo, hi); law1(c, '', out, a, ne, kind, lo, hi)
        elif kind == 'lin': law1(c, '', A.extrap_lin(arr, ne), a, ne, kind)
        else:
            out = A.extrap_loglin(arr, ne); law1(c, '', out, a, ne, kind)
        for i in range(n): c.eq('input[%d]' % i, arr[i], a[i])
    elif op == 'signs':   # log-linear extrapolation: accepted exactly when the end pairs have one sign or the end value is zero
        n = c.n; a = vec(c, n); arr = c.array(a)
        for x in a: c.assume_gap(x)
        try: out = A.extrap_loglin(arr, 2); ok = True
        except (A.MixedSignError, ZeroDivisionError): ok = False
        def good(e, f): return (bool(e * f > 0)) or bool(e == 0)
        if bool(a[0] == 0) and bool(a[1] == 0) or bool(a[-1] == 0) and bool(a[-2] == 0): return
        g = good(a[0], a[1]) and good(a[-1], a[-2])
        c.truth('accepted', ok == g); c.obs('ok', 1 if ok else 0)
        if ok: law1(c, '', out, a, 2, 'loglin')
    elif op == 'oscil':
        base = [c.num(x) for x in c.base.split(',')]; sy = [int(x) for x in c.at.split(',')]; ne = c.ne
        a = list(base)
        for i in sy: a[i] = c.var('a%d' % i, c.lo, c.hi) * (1 if float(base[i]) > 0 else -1)
        n = len(a); arr = c.array(a)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore'); out = A.extrap_loglin_oscil(arr, ne)
        c.truth('size', len(out) == n + 2 * ne)
        for i in range(n): c.eq('middle[%d]' % i, out[ne + i], a[i])
        for s, e, nb in ((-1, ne, 1), (1, ne + n - 1, -2)):
            e0 = out[e]; t = [out[e + s * j] for j in range(ne + 1)]
            for j in range(1, ne + 1):
                c.truth('sign[%d,%d]' % (s, j), t[j] * e0 > 0)
                c.le('bounded[%d,%d]' % (s, j), t[j] * t[j], t[j - 1] * t[j - 1])
                if j >= 2: c.eq('geometric[%d,%d]' % (s, j), t[j] * t[j - 2], t[j - 1] * t[j - 1], tol=1e-7)
        if c.cfg('mono'):   # tails that decay outwards without oscillation keep the end-point law
            law1(c, 'law_', out, a, ne, 'loglin')
    elif op == '2d':
        nr, nc, er, ec, kind = c.nr, c.nc, c.er, c.ec, c.kind
        m = np.empty((nr, nc), dtype=object if c.sym else float)
        for i in range(nr):
            v = vec(c, nc, 'a%d_' % i, c.cfg('sign', 'any'))
            for j in range(nc): m[i, j] = v[j]
        m0 = m.copy(); ext = (er, ec) if c.cfg('tuple', 1) else er
        if not c.cfg('tuple', 1): ec = er
        if kind == 'pad':
            s = c.cfg('scalar')
            if s: k = c.var('pad', -64, 64); rl, ru, cl, cu = [k] * nr, [k] * nr, [k] * nc, [k] * nc; out = A.extrap2d_pad(m, ext, k, k, k, k)
            else:
                rl, ru, cl, cu = vec(c, nr, 'rl'), vec(c, nr, 'ru'), vec(c, nc, 'cl'), vec(c, nc, 'cu')
                cl[0], cl[-1], cu[0], cu[-1] = rl[0], ru[0], rl[-1], ru[-1]
                out = A.extrap2d_pad(m, ext, c.array(rl), c.array(ru), c.array(cl), c.array(cu))
        elif kind == 'lin': out = A.extrap2d_lin(m, ext)
        elif kind == 'loglin': out = A.extrap2d_loglin(m, ext)
        else:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore'); out = A.extrap2d_loglin_oscil(m, ext)
        c.truth('shape', np.shape(out) == (nr + 2 * ec, nc + 2 * er))   # er more elements at either end of each row, ec of each column
        for i in range(nr):
            for j in range(nc): c.eq('middle[%d,%d]' % (i, j), out[ec + i, er + j], m0[i, j])
        for i in range(nr):
            law1(c, 'row_', row(out[ec + i]), row(m0[i]), er, kind, *( (rl[i], ru[i]) if kind == 'pad' else ()))
        for j in range(nc):
            law1(c, 'col_', row(out[:, er + j]), row(m0[:, j]), ec, kind, *( (cl[j], cu[j]) if kind == 'pad' else ()))
        for q in range(er):   # corners continue the extended columns
            for J in (q, nc + 2 * er - 1 - q):
                col = row(out[:, J]); src = col[ec:ec + nr]
                if kind == 'pad':
                    w = (rl[0], rl[-1]) if J < er else (ru[0], ru[-1]); law1(c, 'corner_', col, src, ec, kind, *w)
                else: law1(c, 'corner_', col, src, ec, kind)
        for i in range(nr):
            for j in range(nc): c.eq('input[%d,%d]' % (i, j), m[i, j], m0[i, j])
    elif op == 'mismatch':   # inconsistent corner constants are refused
        m = np.empty((2, 3), dtype=object if c.sym else float)
        for i in range(2):
            for j in range(3): m[i, j] = c.var('a%d_%d' % (i, j), -8, 8)
        w = [vec(c, 2, 'rl'), vec(c, 2, 'ru'), vec(c, 3, 'cl'), vec(c, 3, 'cu')]
        try: A.extrap2d_pad(m, (1, 2), *[c.array(x) for x in w]); ok = True
        except ValueError: ok = False
        g = all(bool(p == q) for p, q in ((w[0][0], w[2][0]), (w[1][0], w[2][-1]), (w[0][-1], w[3][0]), (w[1][-1], w[3][-1])))
        c.truth('accepted', ok == g); c.obs('ok', 1 if ok else 0)
    elif op == 'sorted':
        n = c.n; dim = c.dim; v = [vec(c, n, 'a%d_' % i) for i in range(dim)]
        for i in range(dim):
            for j in range(1, n): c.gap(v[i][j], v[i][j - 1])
        for i in range(1, dim):
            for j in range(n): c.gap(v[i][j], v[i - 1][j])
        def mono(x): return all(bool(p <= q) for p, q in zip(x, x[1:])) or all(bool(p >= q) for p, q in zip(x, x[1:]))
        if dim == 1: g = mono(v[0]); f = lambda: A._check_1d_array(c.array(v[0]), check_sorted=True)
        else:
            m = np.empty((dim, n), dtype=object if c.sym else float)
            for i in range(dim):
                for j in range(n): m[i, j] = v[i][j]
            def dirs(rows): return all(all(bool(p <= q) for p, q in zip(x, x[1:])) for x in rows) or all(all(bool(p >= q) for p, q in zip(x, x[1:])) for x in rows)
            g = dirs(v) and dirs([list(x) for x in zip(*v)]); f = lambda: A._check_2d_array(m, check_sorted=True)
        try: f(); ok = True
        except A.OrderError: ok = False
        c.truth('accepted', ok == g); c.obs('ok', 1 if ok else 0)
    elif op in ('spacing', 'logspacing'):
        n = c.n; lg = op == 'logspacing'; a0 = c.var('a0', '1/4', 8); s = c.var('step', '1/4', 2) if not lg else c.var('ratio', '5/4', 3)
        v = [a0 + s * i if not lg else a0 * s ** i for i in range(n)]; d = None
        if c.bad >= 0:   # move one point by at least a quarter of its spacing
            d = c.var('shift', '1/4', '3/4'); k = c.bad; u = v[k - 1] if k else None
            v[k] = v[k] + d * s if not lg else v[k] * (1 + d)
        if c.cfg('neg'): v = [-x for x in v]
        kw = {'check_lin': not lg, 'check_loglin': lg}
        if c.dim == 1: f = lambda: A._check_1d_array(c.array(v), **kw)
        else:
            t = c.var('b', '1/4', 2); rows = [v, [x + t for x in v], [x + 2 * t for x in v]] if not lg else [v, [x * (t + 1) for x in v]]
            m = np.empty((len(rows), n), dtype=object if c.sym else float)
            for i, r in enumerate(rows):
                for j in range(n): m[i, j] = r[j]
            f = lambda: A._check_2d_array(m if not c.cfg('transpose') else m.T, **kw)
        try: f(); ok = True
        except A.SpacingError: ok = False
        c.truth('accepted', ok == (c.bad < 0)); c.obs('ok', 1 if ok else 0)
