"""C12: the Python particle catalogue."""
import numpy as np, warnings, os, tempfile
from run import load, modules
M = None; SEEN = []
class Core:
    def __init__(self, *a, **k): self.a, self.k = a, k
AX = 'xyz'
def setup(sym):
    global M
    import sym as S
    load(sym, {'_particles': {'_ParticleCatalogue': Core}}); M, = modules(['catalogue'], sym, S.NpShim())
    if sym: S.X.floor_range = (-12, 12)
    import logging; logging.disable(logging.CRITICAL)
def coords(c, n, tag, axes):
    """coordinates: symbolic on the listed axes, fixed distinct numbers elsewhere"""
    r = {}
    for i, a in enumerate(AX):
        fix = [c.num('%d/4' % (((7 * i + 5 * j * (i + 2) + len(tag) * 3) % 23) - 11)) for j in range(n)]
        r[a] = [c.var('%s%s%d' % (tag, a, j), -32, 32) for j in range(n)] if a in axes else fix
    return r
def mk(c, n, tag, axes, w=True):
    p = coords(c, n, tag, axes)
    for k in ('nz', 'ws', 'wc'): p[k] = [c.var('%s%s%d' % (tag, k, j), '-4', 4) for j in range(n)] if w else [c.num('%d/2' % (j + 2 + len(k))) for j in range(n)]
    arr = {k: c.array(v) for k, v in p.items()}
    cat = M.ParticleCatalogue(arr['x'], arr['y'], arr['z'], nz=arr['nz'], ws=arr['ws'], wc=arr['wc'])
    return cat, p, arr
def lo(v):
    m = v[0]
    for x in v[1:]: m = x if bool(x < m) else m
    return m
def hi(v):
    m = v[0]
    for x in v[1:]: m = x if bool(x > m) else m
    return m
def check(c, lab, cat, exp, others=None):
    """columns equal exp; bounds and spans describe them"""
    for a in AX:
        col = cat[a]; c.truth(lab + 'size', len(col) == len(exp[a]))
        for j in range(len(exp[a])): c.eq('%s%s[%d]' % (lab, a, j), col[j], exp[a][j])
        c.eq('%slower_%s' % (lab, a), cat.bounds[a][0], lo(exp[a])); c.eq('%supper_%s' % (lab, a), cat.bounds[a][1], hi(exp[a]))
        c.eq('%sspan_%s' % (lab, a), cat.spans[a], hi(exp[a]) - lo(exp[a]))
    if others is not None:
        for k in ('nz', 'ws', 'wc'):
            for j in range(len(others[k])): c.eq('%s%s[%d]' % (lab, k, j), cat[k][j], others[k][j])
def triple(c, form, name, l, h):
    """a value given as a number or as a sequence per axis"""
    if form == 'scalar': v = c.var(name, l, h); return v, [v] * 3
    v = [c.var(name + a, l, h) for a in AX]
    return (v if form == 'list' else tuple(v) if form == 'tuple' else c.array(v)), v
def run(c):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore'); _run(c)
def _run(c):
    op = c.op; n = c.cfg('n', 2); axes = c.cfg('axes', 'xyz')
    if op == 'build':
        p = coords(c, n, 'p', axes); kw = {}; exp = {}
        for k, d in (('nz', 0), ('ws', 1), ('wc', 1)):
            f = c.cfg(k, 'array')
            if f == 'absent': exp[k] = [c.num(d)] * n
            elif f == 'scalar': v = c.var(k, -4, 4); kw[k] = v; exp[k] = [v] * n
            else: exp[k] = [c.var('%s%d' % (k, j), -4, 4) for j in range(n)]; kw[k] = c.array(exp[k])
        cat = M.ParticleCatalogue(c.array(p['x']), c.array(p['y']), c.array(p['z']), **kw)
        check(c, '', cat, p, exp)
        c.truth('ntotal', cat.ntotal == n and len(cat) == n)
        c.eq('wtotal', cat.wtotal, sum((exp['ws'][j] * exp['wc'][j] for j in range(n)), c.num(0))); c.eq('wstotal', cat.wstotal, sum(exp['ws'], c.num(0)))
        cc = cat._convert_to_cpp_catalogue()
        for k, a in zip(('x', 'y', 'z', 'nz', 'ws', 'wc'), cc.a):
            for j in range(n): c.eq('core_%s[%d]' % (k, j), a[j], p[k][j] if k in AX else exp[k][j])
    elif op == 'offset':
        cat, p, arr = mk(c, n, 'p', axes); o, ov = triple(c, c.form, 'o', -32, 32)
        cat.offset_coords(o); e = {a: [x - ov[i] for x in p[a]] for i, a in enumerate(AX)}; check(c, '', cat, e, p)
        for k in arr:
            for j in range(n): c.eq('argument_%s[%d]' % (k, j), arr[k][j], p[k][j])
        if c.cfg('twice'):
            cat.offset_coords(o); check(c, 'again_', cat, {a: [x - ov[i] for x in e[a]] for i, a in enumerate(AX)}, p)
    elif op in ('centre', 'pad'):
        cat, p, _ = mk(c, n, 'p', axes, False); ref = None; q = p
        if c.cfg('ref') == 1: ref, q, _ = mk(c, c.cfg('m', 2), 'rr', axes, False)
        elif c.cfg('ref') == 'self': ref = cat
        b, bv = triple(c, c.form, 'b', '1/4', 64)
        if op == 'centre':
            cat.centre(b, catalogue_ref=ref) if ref is not None else cat.centre(b)
            sh = [bv[i] / 2 - (lo(q[a]) + hi(q[a])) / 2 for i, a in enumerate(AX)]
        else:
            f, fv = triple(c, c.padform, 'f', 0, 4)
            if c.padby == 'box': cat.pad(b, boxsize_pad=f, catalogue_ref=ref); amount = [fv[i] * bv[i] for i in range(3)]
            else:
                g = c.ngrid; gv = [g] * 3 if isinstance(g, int) else list(g)
                cat.pad(b, ngrid=g, ngrid_pad=f, catalogue_ref=ref); amount = [fv[i] * bv[i] / gv[i] for i in range(3)]
            sh = [amount[i] - lo(q[a]) for i, a in enumerate(AX)]
        check(c, '', cat, {a: [x + sh[i] for x in p[a]] for i, a in enumerate(AX)}, p)
        if ref is not None and ref is not cat: check(c, 'ref_', ref, {a: [x + sh[i] for x in q[a]] for i, a in enumerate(AX)}, q)
    elif op == 'padreject':
        cat, p, _ = mk(c, n, 'p', axes, False); b, bv = triple(c, 'scalar', 'b', '1/4', 64)
        try: cat.pad(b, ngrid=4, boxsize_pad=c.var('f', 0, 1), ngrid_pad=c.var('g', 0, 1)); ok = True
        except ValueError: ok = False
        c.truth('conflict', not ok); check(c, '', cat, p, p); cat.pad(b); check(c, 'none_', cat, p, p)
    elif op == 'periodise':
        cat, p, _ = mk(c, n, 'p', axes, False); b, bv = triple(c, c.form, 'b', c.cfg('bmin', 8), 64); e = {}
        for i, a in enumerate(AX):
            s = bv[i] / 2 - (lo(p[a]) + hi(p[a])) / 2; e[a] = []
            for x in p[a]:
                y = x + s
                for m in range(-12, 13): c.gap(y, m * bv[i])      # off the faces of the box unless exactly on them
                for m in range(-12, 13):
                    if bool(y >= m * bv[i]) and bool(y < (m + 1) * bv[i]): e[a].append(y - m * bv[i]); break
        cat.periodise(b)
        for i, a in enumerate(AX):
            for j in range(n): c.le('nonnegative_%s[%d]' % (a, j), c.num(0), cat[a][j]); c.lt('inside_%s[%d]' % (a, j), cat[a][j], bv[i])
        check(c, '', cat, e, p)
    elif op == 'los':
        cat, p, _ = mk(c, n, 'p', axes, False); z = c.cfg('zero')
        if z is not None:
            cat = M.ParticleCatalogue(*[c.array([c.num(0) if j == z else p[a][j] for j in range(n)]) for a in AX], nz=1.)
            p = {a: [c.num(0) if j == z else p[a][j] for j in range(n)] for a in AX}
        for j in range(n):
            if j != z: c.assume(p['x'][j] * p['x'][j] + p['y'][j] * p['y'][j] + p['z'][j] * p['z'][j] > c.num('1/16'))
        los = cat.compute_los(); c.truth('shape', np.shape(los) == (n, 3))
        for j in range(n):
            if j == z:
                for i in range(3): c.eq('zero[%d]' % j, los[j][i], c.num(0))
                continue
            v = [p[a][j] for a in AX]; r2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
            c.eq('unit[%d]' % j, sum((los[j][i] * los[j][i] for i in range(3)), c.num(0)), c.num(1))
            for i in range(3): c.eq('square[%d]' % j, los[j][i] * los[j][i] * r2, v[i] * v[i]); c.le('side[%d]' % j, c.num(0), los[j][i] * v[i])
            c.eq('along[%d]' % j, los[j][0] * v[1], los[j][1] * v[0]); c.eq('along[%d]' % j, los[j][0] * v[2], los[j][2] * v[0]); c.eq('along[%d]' % j, los[j][1] * v[2], los[j][2] * v[1])
        check(c, '', cat, p)
    elif op == 'density':
        cat, p, _ = mk(c, n, 'p', axes, False)
        if c.by == 'volume': v = c.var('v', '1/4', 64); cat.compute_mean_density(volume=v); vol = v
        elif c.by == 'both': v = c.var('v', '1/4', 64); cat.compute_mean_density(volume=v, boxsize=c.var('b', '1/4', 64)); vol = v
        else: b, bv = triple(c, c.form, 'b', '1/4', 64); cat.compute_mean_density(boxsize=b); vol = bv[0] * bv[1] * bv[2]
        for j in range(n): c.eq('nz[%d]' % j, cat['nz'][j] * vol, c.num(n))
        check(c, '', cat, p); 
        for k in ('ws', 'wc'):
            for j in range(n): c.eq('%s[%d]' % (k, j), cat[k][j], p[k][j])
    elif op == 'read':       # columns by name and order, renamed columns, defaults for absent ones
        cols = c.cols.split(','); mapping = dict(x.split(':') for x in c.cfg('map', '').split(';') if x)
        vals = {k: [c.var('%s%d' % (k, j), -32, 32) for j in range(n)] for k in cols}
        from astropy.table import Table
        kw = dict(c.cfg('kw', {})); kw0 = dict(kw)
        if c.sym:
            class T(Table):
                @classmethod
                def read(cls, path, format=None, names=None, **k):
                    names = names if names is not None else cols
                    t = Table()
                    for nm, src in zip(names, cols): t[nm] = c.array(vals[src])
                    return t
            M.Table = T; path = 'none'
        else:
            fd, path = tempfile.mkstemp(suffix='.dat'); os.close(fd)
            with open(path, 'w') as f:
                if c.cfg('header'): f.write(' '.join(cols) + '\n')
                for j in range(n): f.write(' '.join(repr(float(vals[k][j])) for k in cols) + '\n')
        try:
            try:
                cat = M.ParticleCatalogue.read_from_file(path, names=None if c.cfg('header') else cols, format='ascii' if c.cfg('header') else 'ascii.no_header', name_mapping=mapping or None, table_kwargs=kw); ok = True
            except M.MissingValueError: ok = False
        finally:
            if c.sym: M.Table = Table
            else: os.unlink(path)
        inv = {v: k for k, v in mapping.items()}; got = {inv.get(k, k): vals[k] for k in cols}
        c.truth('accepted', ok == all(a in got for a in AX))
        c.truth('caller', kw == kw0)
        if ok:
            for k, d in (('nz', 0), ('ws', 1), ('wc', 1)): got.setdefault(k, [c.num(d)] * n)
            check(c, '', cat, got, got); c.truth('ntotal', cat.ntotal == n)
            c.eq('wtotal', cat.wtotal, sum((got['ws'][j] * got['wc'][j] for j in range(n)), c.num(0))); c.eq('wstotal', cat.wstotal, sum(got['ws'], c.num(0)))
    elif op == 'integer':    # whole-number columns move like any others
        xs = [np.array([1, 5, -3]), np.array([2, 0, 7]), np.array([4, 4, 9])]
        cat = M.ParticleCatalogue(*xs, nz=1.); o, ov = triple(c, 'list', 'o', -32, 32) if c.sym else triple(c, 'list', 'o', -32, 32)
        if c.how == 'offset': cat.offset_coords(o); sh = [-x for x in ov]
        elif c.how == 'pad': cat.pad(ov[0] + 65, boxsize_pad=[ov[1], ov[2], ov[0]]); sh = [[ov[1], ov[2], ov[0]][i] * (ov[0] + 65) - int(min(xs[i])) for i in range(3)]
        else: cat.centre(ov[0] + 65); sh = [(ov[0] + 65) / 2 - c.num('%d/2' % int(min(v) + max(v))) for v in xs]
        check(c, '', cat, {a: [int(t) + sh[i] for t in xs[i]] for i, a in enumerate(AX)})
