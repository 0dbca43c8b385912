"""C23: the Python measurement drivers hand the core what the caller asked for."""
import numpy as np, warnings, os, re, copy, types, sys, logging
import builtins
import run as R
from run import load, modules
M = {}; SEEN = []; CDEF = {'thisptr', '_logger', '_source', '_params', '_original', '_validity'}
AX = 'xyz'; C = None; SYM = False; TOK = []
class Core:
    def __init__(self, *a, **k): self.a, self.k = a, k
class Rejected(ValueError): pass
class CppParameterSet:
    """model of the core parameter set: defaults, checks and derivations of trv::ParameterSet (decided in C14)"""
    def __init__(self):
        self.__dict__.update(catalogue_dir=b'', measurement_dir=b'', data_catalogue_file=b'', rand_catalogue_file=b'', output_tag=b'', boxsize=[0., 0., 0.], ngrid=[0, 0, 0], volume=0., nmesh=0, expand=1., alignment=b'centre', padscale=b'box', padfactor=0., assignment=b'tsc', interlace=b'false', assignment_order=0,
            catalogue_type=b'', statistic_type=b'', npoint=b'', space=b'', form=b'diag', norm_convention=b'particle', binning=b'lin', ell1=0, ell2=0, ELL=0, i_wa=0, j_wa=0, bin_min=0., bin_max=0., cutoff_nyq=0., num_bins=0, idx_bin=0, fftw_scheme=b'measure', fftw_planner_flag=0, use_fftw_wisdom=b'false', fftw_wisdom_file_f=b'', fftw_wisdom_file_b=b'', verbose=20, progbar=b'false')
    def __setattr__(self, k, v):
        if k not in self.__dict__: raise AttributeError('no parameter %s' % k)
        self.__dict__[k] = list(v) if k in ('boxsize', 'ngrid') else v
    def validate(self, init):
        if not self.measurement_dir: self.measurement_dir = b'./'
        elif init: self.measurement_dir += b'/'
        ok = {b'powspec': (b'2pt', b'fourier', (b'survey', b'sim', b'')), b'2pcf': (b'2pt', b'config', (b'survey', b'sim', b'')), b'2pcf-win': (b'2pt', b'config', (b'random',)), b'bispec': (b'3pt', b'fourier', (b'survey', b'sim', b'')), b'3pcf': (b'3pt', b'config', (b'survey', b'sim', b'')), b'3pcf-win': (b'3pt', b'config', (b'random',)), b'3pcf-win-wa': (b'3pt', b'config', (b'random',))}
        if self.statistic_type in ok:
            self.npoint, self.space, kinds = ok[self.statistic_type]
            if self.catalogue_type not in kinds: raise Rejected('catalogue type')
        if self.alignment not in (b'centre', b'pad') or self.padscale not in (b'box', b'grid') or self.assignment not in (b'ngp', b'cic', b'tsc', b'pcs') or self.form not in (b'full', b'diag', b'off-diag', b'row') or self.norm_convention not in (b'none', b'particle', b'mesh', b'mesh-mixed') or self.binning not in (b'lin', b'log', b'linpad', b'logpad', b'custom'): raise Rejected('option')
        self.assignment_order = dict(ngp=1, cic=2, tsc=3, pcs=4)[self.assignment.decode()]
        if self.norm_convention == b'mesh-mixed' and self.npoint != b'2pt': raise Rejected('mixed mesh')
        if self.interlace in (b'true', b'on'): self.interlace = b'true'
        elif self.interlace in (b'false', b'off'): self.interlace = b'false'
        else: raise Rejected('interlace')
        self.fftw_planner_flag = dict(estimate=64, measure=0, patient=32)[self.fftw_scheme.decode()]
        if self.use_fftw_wisdom == b'false': self.use_fftw_wisdom = b''
        self.volume = self.boxsize[0] * self.boxsize[1] * self.boxsize[2]; self.nmesh = self.ngrid[0] * self.ngrid[1] * self.ngrid[2]
        if bool(self.volume <= 0) and bool(self.expand < 1): raise Rejected('expand')
        if self.nmesh <= 0:
            if bool(self.cutoff_nyq < 0): raise Rejected('cutoff')
            if bool(self.volume > 0):
                if bool(self.cutoff_nyq == 0): raise Rejected('cutoff')
                if self.space not in (b'fourier', b'config'): raise Rejected('space')
                self.ngrid = [mesh(b, self.cutoff_nyq, self.space.decode()) for b in self.boxsize]; self.nmesh = self.ngrid[0] * self.ngrid[1] * self.ngrid[2]
        if self.alignment == b'pad':
            if bool(self.padfactor < 0): raise Rejected('pad factor')
            if self.padscale == b'box' and bool(self.padfactor >= 1): raise Rejected('pad factor')
            if self.padscale == b'grid' and any(bool(self.padfactor >= g) for g in self.ngrid): raise Rejected('pad factor')
        if bool(self.bin_min < 0) or bool(self.bin_min >= self.bin_max): raise Rejected('range')
        if self.num_bins < 2 or abs(self.idx_bin) >= self.num_bins or (self.idx_bin < 0 and self.npoint == b'3pt' and self.form == b'row'): raise Rejected('bins')
        if self.binning in (b'linpad', b'logpad') and self.num_bins < 7: raise Rejected('bins')
        if self.npoint == b'3pt' and self.interlace == b'true': self.interlace = b'false'
        return 0
def ceil_(x):
    if SYM:
        import sym as S
        return int(S.Sym.of(x).ceil())
    return int(np.ceil(x))
def mesh(b, cut, space):
    n = ceil_(b * cut / C.pi()) if space == 'fourier' else 2 * ceil_(b / cut); return n + n % 2
class Binning:
    """stand-in for the compiled binning"""
    def __init__(self, space, scheme, bin_min=None, bin_max=None, num_bins=None): self.space, self.scheme, self.bin_min, self.bin_max, self.num_bins = space, scheme, bin_min, bin_max, num_bins
    @classmethod
    def from_parameter_set(cls, p):
        if p['space'] not in ('fourier', 'config'): raise ValueError('space unset')
        return cls(p['space'], p['binning'], bin_min=p['range'][0], bin_max=p['range'][-1], num_bins=p['num_bins'])
CALLS = []
def snap(p):
    t = p.__dict__['thisptr']; return copy.deepcopy(dict(p.__dict__['_params'])), {k: (list(v) if isinstance(v, list) else v) for k, v in t.__dict__.items()}
def bindargs(names, a, k, opt=()):
    d = dict(zip(names, a)); assert len(a) <= len(names)
    for n, v in k.items(): assert n in names and n not in d, 'argument %s' % n; d[n] = v
    for n in names: assert n in d or n in opt, 'argument %s missing' % n
    return d
def rec(name, names, opt=()):
    def f(*a, **k):
        d = bindargs(names, a, k, opt)
        for n in ('params',):
            if n in d: d[n] = snap(d[n])
        r = RESULT(name); CALLS.append((name, d, r)); return r
    f.__name__ = name; return f
class Cplx:
    def __init__(self, re, im): self.real, self.imag = re, im
def RESULT(name):
    if 'normalisation' in name: return C.var('nf_' + name.rsplit('_', 1)[1], -8, 8)
    v = lambda n: C.array([C.var('%s%d' % (n, i), -8, 8) for i in range(2)])
    if name in ('_compute_powspec', '_compute_powspec_in_gpp_box'): r = dict(kbin=v('q0'), keff=v('q1'), nmodes=np.array([3, 5]), pk_raw=Cplx(v('q2'), v('q3')), pk_shot=Cplx(v('q4'), v('q5')))
    elif 'corrfunc' in name: r = dict(rbin=v('q0'), reff=v('q1'), npairs=np.array([3, 5]), xi=Cplx(v('q2'), v('q3')))
    else:
        f = 'bispec' in name; x, n, s = ('k', 'nmodes', 'bk') if f else ('r', 'npairs', 'zeta')
        r = {x + '1_bin': v('q0'), x + '1_eff': v('q1'), n + '_1': np.array([3, 5]), x + '2_bin': v('q6'), x + '2_eff': v('q7'), n + '_2': np.array([4, 6]), s + '_raw': Cplx(v('q2'), v('q3')), s + '_shot': Cplx(v('q4'), v('q5'))}
    return r
SAVED = []
class NpRec:
    def __init__(self, base): self.__dict__['base'] = base
    def __getattr__(self, k): return getattr(self.base, k)
    def savetxt(self, path, data, fmt='%.18e', header='', delimiter=' ', **k): SAVED.append(('txt', str(path), data, fmt, header, delimiter))
    def savez(self, path, **k): SAVED.append(('npz', str(path), k, None, k.get('header', ''), None))
def parameters_module(sym):
    """parameters.pyx as plain Python: only the Cython declarations are rewritten"""
    f = os.path.join(R.REPO, 'src', 'triumvirate', 'parameters.pyx'); s = open(f).read(); out = []
    pxd = os.path.join(R.REPO, 'src', 'triumvirate', 'parameters.pxd')
    if os.path.exists(pxd):
        t = open(pxd).read()
        for m in re.finditer(r'cdef (?:public |readonly )?[\w.*\[\] ]+?[ *](\w+)[ \t]*$', t[t.index('cdef class ParameterSet'):], re.M): CDEF.add(m.group(1))
    for l in s.split('\n'):
        if re.match(r'\s*(from .* cimport |cimport )', l): continue
        if re.search(r'__(reduce|setstate)_cython__', l): continue
        l = re.sub(r'^(\s*)cdef class ', r'\1class ', l); l = re.sub(r'\bdef __cinit__\b', 'def __init__', l); l = re.sub(r'\bnew (Cpp\w+\()', r'\1', l)
        l = re.sub(r'^(\s*)cp?def (?:inline )?(?:[\w\[\].*]+ )?(\w+\(.*)$', r'\1def \2', l)
        if re.match(r'\s*c?p?def ', l) and l.rstrip().endswith(':'): l = re.sub(r' (?:except [^:()]+|noexcept|nogil)(?=[^()]*:\s*$)', '', l); l = re.sub(r'(?<=[(,])(\s*)(?:int|long|float|double|bint|bool|str|bytes|dict|list|tuple|object|ParameterSet) (\w+)(?=\s*[,)=])', r'\1\2', l)
        l = re.sub(r'^(\s*)cdef [\w\[\].* ]+?[ *](\w+)( *=.*)$', r'\1\2\3', l); l = re.sub(r'^(\s*)cdef [\w\[\].* ]+$', r'\1pass', l)
        l = re.sub(r'<[A-Za-z_][\w.]*\*?>', '', l) if not re.search(r'["`]', l) else l
        out.append(l)
    s = '\n'.join(out); s = re.sub(r'\n    def __dealloc__\(self\):\n(?:        .*\n|\s*\n)+', '\n', s)
    m = types.ModuleType('triumvirate.parameters'); m.__package__ = 'triumvirate'; m.__file__ = f; m.CppParameterSet = CppParameterSet
    sys.modules['triumvirate.parameters'] = m
    exec(compile(s, f, 'exec'), m.__dict__)
    P = m.ParameterSet; o = P.__setattr__
    def sa(self, k, v):
        if k in CDEF: object.__setattr__(self, k, v)
        else: o(self, k, v)
    P.__setattr__ = sa
    ga = P.__getattr__
    def ga2(self, k):
        if k in CDEF or k.startswith('__'): raise AttributeError(k)
        return ga(self, k)
    P.__getattr__ = ga2
    if sym:
        import sym as S
        m.float = lambda x=0.: x if isinstance(x, S.Sym) else builtins.float(x)
        m.int = lambda x=0: x if isinstance(x, S.Sym) and x.const() is None else builtins.int(x)
    return m
def setup(sym):
    global SYM
    import sym as S
    SYM = sym
    two = {n: None for n in ()}
    S2 = ['particles_data', 'particles_rand', 'los_data', 'los_rand', 'params', 'binning', 'norm_factor']; S1 = ['particles_data', 'params', 'binning', 'norm_factor']
    two = {'_calc_powspec_normalisation_from_particles': rec('_calc_powspec_normalisation_from_particles', ['particles', 'alpha']), '_calc_powspec_normalisation_from_mesh': rec('_calc_powspec_normalisation_from_mesh', ['particles', 'params', 'alpha']),
        '_calc_powspec_normalisation_from_meshes': rec('_calc_powspec_normalisation_from_meshes', ['particles_data', 'particles_rand', 'params', 'alpha', 'padding', 'cellsize', 'assignment'], ('padding', 'cellsize', 'assignment'))}
    for n in ('_compute_powspec', '_compute_corrfunc'): two[n] = rec(n, S2); two[n + '_in_gpp_box'] = rec(n + '_in_gpp_box', S1)
    two['_compute_corrfunc_window'] = rec('_compute_corrfunc_window', ['particles_rand', 'los_rand', 'params', 'binning', 'alpha', 'norm_factor'])
    three = {'_calc_bispec_normalisation_from_particles': rec('_calc_bispec_normalisation_from_particles', ['particles', 'alpha']), '_calc_bispec_normalisation_from_mesh': rec('_calc_bispec_normalisation_from_mesh', ['particles', 'params', 'alpha'])}
    for n in ('_compute_bispec', '_compute_3pcf'): three[n] = rec(n, S2); three[n + '_in_gpp_box'] = rec(n + '_in_gpp_box', S1)
    three['_compute_3pcf_window'] = rec('_compute_3pcf_window', ['particles_rand', 'los_rand', 'params', 'binning', 'alpha', 'norm_factor', 'wide_angle'], ('wide_angle',))
    load(sym, {'_particles': {'_ParticleCatalogue': Core}, '_twopt': two, '_threept': three, 'dataobjs': {'Binning': Binning}})
    M['parameters'] = p = parameters_module(sym); shim = S.NpShim()
    if sym:
        for k, v in list(p.__dict__.items()):
            if v is np: p.__dict__[k] = shim
    for n in ('catalogue', 'twopt', 'threept'):
        M[n], = modules([n], sym, shim)
    for n in ('twopt', 'threept'):
        m = M[n]
        for k, v in list(m.__dict__.items()):
            if v is np or v is shim: m.__dict__[k] = NpRec(v)
        if sym: m.int = p.int; m.float = p.float
    if sym:
        S.X.floor_range = (-12, 12)
        S.Sym.__format__ = lambda s, spec: tok(s)
    logging.disable(logging.CRITICAL)
def tok(s): TOK.append(s); return '\u00a7%d\u00a7' % (len(TOK) - 1)
def nums(text):
    """the numbers printed in a text, in order"""
    r = []
    for m in re.finditer('\u00a7(\\d+)\u00a7|(?<![\\w.])([-+]?\\d+(?:\\.\\d*)?(?:[eE][-+]?\\d+)?)', text): r.append(TOK[int(m.group(1))] if m.group(1) else float(m.group(2)))
    return r
def printed(c, label, got, want, tol):
    if c.sym: c.eq(label, got, want)
    else: c.obs(label, want); c.truth(label, abs(float(got) - float(want)) <= tol * max(1., abs(float(want))))
def lo(v):
    m = v[0]
    for x in v[1:]: m = x if bool(x < m) else m
    return m
def hi(v):
    m = v[0]
    for x in v[1:]: m = x if bool(x > m) else m
    return m
def catalogue(c, tag, n, wpos, axes, nz='given'):
    p = {}
    for i, a in enumerate(AX): p[a] = [c.var('%s%s%d' % (tag, a, j), -8, 8) if a in axes and j < c.cfg('nsym', 2) else c.num('%d/4' % (((7 * i + 5 * j * (i + 2) + len(tag) * 3 + (11 if tag == 'r' else 0)) % 23) - 11)) for j in range(n)]
    for k in ('ws', 'wc'): p[k] = [c.var('%s%s%d' % (tag, k, j), '1/4' if wpos and k == 'ws' else -4, 4) for j in range(n)]
    p['nz'] = [c.num(0)] * n if nz == 'zero' else [c.var('%snz%d' % (tag, j), '1/4', 4) for j in range(n)]
    mk = lambda: M['catalogue'].ParticleCatalogue(*[c.array(p[a]) for a in AX], **{k: c.array(p[k]) for k in ('nz', 'ws', 'wc')})
    return mk(), p, mk
LOWER = {'powspec': '_compute_powspec', '2pcf': '_compute_corrfunc', '2pcf-win': '_compute_corrfunc_window', 'bispec': '_compute_bispec', '3pcf': '_compute_3pcf', '3pcf-win': '_compute_3pcf_window'}
def run(c):
    global C
    C = c; del CALLS[:], SAVED[:], TOK[:]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore'); _run(c)
def _run(c):
    stat, kind, via = c.stat, c.kind, c.cfg('via', 'none'); three = stat in ('bispec', '3pcf', '3pcf-win'); space = 'fourier' if stat in ('powspec', 'bispec') else 'config'
    over = set(c.cfg('over', '').split(',')) - {''}; conv = c.cfg('conv', 'particle'); form = c.cfg('form', 'diag'); save = c.cfg('save', False); align = c.cfg('align', 'centre')
    if via == 'none': over |= {'degree', 'binning', 'boxsize', 'ngrid'} | ({'form'} if three else set()) | ({'idx'} if form in ('row', 'off-diag') else set())
    # the requested settings: base values and overrides
    D = lambda *v: dict(zip(('ell1', 'ell2', 'ELL'), v))
    box = [c.var('box' + a, *(c.cfg('box') or ('16', '64'))) for a in AX]; grid = c.cfg('ngrid', [6, 4, 8]); cut = None
    base = dict(directories={'catalogues': None, 'measurements': c.cfg('dir')}, files={'data_catalogue': None, 'rand_catalogue': None}, catalogue_columns=[], catalogue_dataset=None, tags={'output': c.cfg('tag')}, expand=1., cutoff_nyq=None, boxsize=dict(zip(AX, [c.num(n) for n in (90, 70, 50)])), ngrid=dict(zip(AX, (14, 10, 12))),
        alignment='centre', padscale='box', padfactor=None, assignment='tsc', interlace=False, catalogue_type=kind, statistic_type=stat, degrees=D(1, 0, 1), wa_orders=dict(i=None, j=None), form='diag', norm_convention='particle', binning='lin', range=[.5, 1.5], num_bins=3, idx_bin=None,
        fftw_scheme='measure', use_fftw_wisdom=False, save_binned_vectors=False, verbose=20, progbar=False)
    if c.cfg('types') == 'none': base['catalogue_type'] = base['statistic_type'] = None
    want = copy.deepcopy(base); kw = {}; samp = {}
    if via == 'none': want['tags'] = {'output': None}; want['directories'] = {'catalogues': None, 'measurements': None}
    bmin, bmax = c.var('bmin', 0, '1/4'), c.var('bmax', '1/2', 2); nb = c.cfg('num_bins', 4)
    if via != 'none' and conv != 'particle': base['norm_convention'] = want['norm_convention'] = conv
    if via != 'none' and c.cfg('dir'): want['directories'] = base['directories']
    def put(name, value, sampling=True):
        if name in over: samp[name] = value
        else: base[name] = value if not isinstance(value, list) else dict(zip(AX, value))
        want[name] = value if not isinstance(value, list) else dict(zip(AX, value))
    if c.cfg('unset_box'):
        base['boxsize'] = dict(zip(AX, [None] * 3)); want['boxsize'] = None; e = c.var('expand', 1, 2)
        if 'expand' in over: samp['expand'] = e
        else: base['expand'] = e
        want['expand'] = e
        if 'boxsize' in samp: del samp['boxsize']
    elif 'boxsize' in over or c.cfg('boxbase'): put('boxsize', box)
    else: base['boxsize'] = want['boxsize'] = dict(zip(AX, box))
    if c.cfg('cutoff'):
        cut = c.num(c.cutoff); base['ngrid'] = dict(zip(AX, [None] * 3)); want['ngrid'] = None; base['cutoff_nyq'] = cut / 2 if space == 'fourier' else cut * 2; put('cutoff_nyq', cut); samp.pop('ngrid', None)
    else: put('ngrid', list(grid))
    if align != 'centre':
        put('alignment', 'pad'); f = c.var('pad', 0, '1/4' if align == 'box' else 2); want['padscale'] = align; want['padfactor'] = f
        if 'pad' in over: samp['boxpad' if align == 'box' else 'gridpad'] = f
        else: base['padscale'] = align; base['padfactor'] = f
    if 'assignment' in over or c.cfg('assignment'): put('assignment', c.cfg('assignment', 'pcs'))
    if 'interlace' in over: put('interlace', True)
    if three and want['interlace']: want['interlace'] = False
    deg = c.cfg('deg', [2, 0, 2])
    if 'degree' in over:
        if three: kw['degrees'] = tuple(deg)
        else: kw['degree'] = deg[2]; 
    elif via != 'none': base['degrees'] = D(*deg)
    want['degrees'] = D(*deg)
    given = None
    if 'binning' in over: given = Binning(space, 'lin', bin_min=bmin, bin_max=bmax, num_bins=nb); given.edges = [c.var('edge%d' % i, 0, 4) for i in range(3)]; kw['binning'] = given
    else: base['range'] = [bmin, bmax]; base['num_bins'] = nb
    want['range'] = [bmin, bmax]; want['num_bins'] = nb
    if three:
        if 'form' in over: kw['form'] = form
        else: base['form'] = form
        want['form'] = form
        idx = c.cfg('idx')
        if idx is not None:
            if 'idx' in over: kw['idx_bin'] = idx
            else: base['idx_bin'] = idx
            want['idx_bin'] = idx
        if 'wa' in over: kw['wa_orders'] = (1, 2); want['wa_orders'] = dict(i=1, j=2)
    if via == 'none' or samp: kw['sampling_params'] = samp
    if via == 'dict': kw['paramset'] = copy.deepcopy(base)
    elif via == 'obj': kw['paramset'] = M['parameters'].ParameterSet(param_dict=copy.deepcopy(base))
    # catalogues
    axes = c.cfg('axes', 'x'); pd = pr = None; nd, nr = c.cfg('nd', 2), c.cfg('nr', 2); cats = {}; args = []
    if kind != 'random': cd, pd, twd = catalogue(c, 'd', nd, False, axes, c.cfg('nz', 'given')); args.append(cd)
    if kind != 'sim': cr, pr, twr = catalogue(c, 'r', nr, True, axes if kind == 'random' else c.cfg('raxes', '')); args.append(cr)
    if c.cfg('unset_box'):
        ref = pr if pr is not None else pd
        for ax in AX: c.assume(hi(ref[ax]) - lo(ref[ax]) >= c.num('1/4'))
    los = {}
    if kind != 'sim':
        for nm, tw, n in ([('los_data', twd, nd)] if kind == 'survey' else []) + [('los_rand', twr, nr)]:
            if c.cfg('los') in ('given', nm):
                v = [[c.var('%s%d%d' % (nm, j, i), -1, 1) for i in range(3)] for j in range(n)]; a = np.empty((n, 3), dtype=object if c.sym else float)
                for j in range(n):
                    for i in range(3): a[j, i] = v[j][i]
                kw[nm] = a; los[nm] = v
            else: los[nm] = tw().compute_los()
    if save: kw['save'] = save
    fn = {'powspec': 'compute_powspec', '2pcf': 'compute_corrfunc', '2pcf-win': 'compute_corrfunc_window', 'bispec': 'compute_bispec', '3pcf': 'compute_3pcf', '3pcf-win': 'compute_3pcf_window'}[stat] + ('_in_gpp_box' if kind == 'sim' else '')
    mod = M['threept' if three else 'twopt']
    if c.cfg('logger'): kw['logger'] = logging.getLogger('c23')
    try: res = getattr(mod, fn)(*args, **kw)
    except (ValueError, KeyError, TypeError, AttributeError, RuntimeError, UnboundLocalError, AssertionError) as ex:
        if type(ex).__name__ in ('Abort', 'Undecided', 'Violated', 'ZeroDivisionError'): raise
        c.truth('accepted', False, detail='%s: %s' % (type(ex).__name__, str(ex)[:150])); return
    c.truth('accepted', True)
    core = LOWER[stat] + ('_in_gpp_box' if kind == 'sim' else '')
    main = [x for x in CALLS if 'normalisation' not in x[0]]; norm = {x[0].rsplit('_', 1)[1]: x for x in CALLS if 'normalisation' in x[0]}
    c.truth('one_call', [x[0] for x in main] == [core])
    if [x[0] for x in main] != [core]: return
    _, a, r = main[0]
    # settings in effect
    if want['boxsize'] is None:
        ref = pr if pr is not None else pd
        want['boxsize'] = {ax: (hi(ref[ax]) - lo(ref[ax])) * want['expand'] for ax in AX}
    if want['ngrid'] is None: want['ngrid'] = {ax: mesh(want['boxsize'][ax], cut, space) for ax in AX}
    B = [want['boxsize'][x] for x in AX]; G = [want['ngrid'][x] for x in AX]
    for lab, (P, T) in [('', a['params'])] + [('norm_', x[1]['params']) for x in norm.values() if 'params' in x[1]]:
        for i, x in enumerate(AX):
            c.eq(lab + 'boxsize', P['boxsize'][x], B[i]); c.eq(lab + 'core_boxsize', T['boxsize'][i], B[i]); c.truth(lab + 'ngrid', P['ngrid'][x] == G[i]); c.truth(lab + 'core_ngrid', T['ngrid'][i] == G[i])
        c.eq(lab + 'core_volume', T['volume'], B[0] * B[1] * B[2]); c.truth(lab + 'core_nmesh', T['nmesh'] == G[0] * G[1] * G[2]); c.eq(lab + 'volume', P['volume'], B[0] * B[1] * B[2])
        for k in ('alignment', 'assignment', 'catalogue_type', 'statistic_type', 'norm_convention', 'form', 'binning') + (('padscale',) if align != 'centre' else ()):
            w = want[k] if k not in ('catalogue_type', 'statistic_type') else dict(catalogue_type=kind, statistic_type=stat)[k]
            c.truth(lab + k, P[k] == w); c.truth(lab + 'core_' + k, T[k] == w.encode())
        if align != 'centre': c.eq(lab + 'padfactor', P['padfactor'], want['padfactor']); c.eq(lab + 'core_padfactor', T['padfactor'], want['padfactor'])
        c.truth(lab + 'interlace', P['interlace'] == want['interlace']); c.truth(lab + 'core_interlace', T['interlace'] == (b'true' if want['interlace'] else b'false'))
        for k in ('ELL',) + (('ell1', 'ell2') if three else ()): c.truth(lab + k, P['degrees'][k] == want['degrees'][k]); c.truth(lab + 'core_' + k, T[k] == want['degrees'][k])
        c.eq(lab + 'bin_min', P['range'][0], want['range'][0]); c.eq(lab + 'bin_max', P['range'][1], want['range'][1]); c.eq(lab + 'core_bin_min', T['bin_min'], want['range'][0]); c.eq(lab + 'core_bin_max', T['bin_max'], want['range'][1])
        c.truth(lab + 'num_bins', P['num_bins'] == nb); c.truth(lab + 'core_num_bins', T['num_bins'] == nb)
        if three and c.cfg('idx') is not None: c.truth(lab + 'idx_bin', P['idx_bin'] == want['idx_bin']); c.truth(lab + 'core_idx_bin', T['idx_bin'] == want['idx_bin'])
        if 'wa' in over: c.truth(lab + 'wa', P['wa_orders'] == want['wa_orders']); c.truth(lab + 'core_wa', (T['i_wa'], T['j_wa']) == (1, 2))
        c.truth(lab + 'derived', T['space'] == space.encode() and T['npoint'] == (b'3pt' if three else b'2pt') and P['space'] == space and T['assignment_order'] == ('ngp', 'cic', 'tsc', 'pcs').index(want['assignment']) + 1)
    b = a['binning']
    if given is not None: c.truth('binning_given', b is given or getattr(b, 'edges', None) == given.edges and all(getattr(b, k) is getattr(given, k) or getattr(b, k) == getattr(given, k) for k in ('space', 'scheme', 'bin_min', 'bin_max', 'num_bins')))
    else: c.truth('binning_space', b.space == space and b.scheme == 'lin' and b.num_bins == nb); c.eq('binning_min', b.bin_min, bmin); c.eq('binning_max', b.bin_max, bmax)
    # catalogues as placed
    def place(p, q, op, others=True):
        e = dict(p)
        for i, x in enumerate(AX):
            if op == 'periodise': s = B[i] / 2 - (lo(p[x]) + hi(p[x])) / 2; e[x] = [wrap(v + s, B[i]) for v in p[x]]
            else:
                s = B[i] / 2 - (lo(q[x]) + hi(q[x])) / 2 if op == 'centre' else (want['padfactor'] * B[i] / (1 if align == 'box' else G[i])) - lo(q[x])
                e[x] = [v + s for v in p[x]]
        return e
    def wrap(v, L):
        c.gap(v, 0 * L)
        for m in range(0, 13) if bool(v >= 0 * L) else range(-1, -14, -1):
            c.gap(v, m * L); c.gap(v, (m + 1) * L)
            if bool(v >= m * L) and bool(v < (m + 1) * L): return v - m * L
    if kind == 'survey': op = 'centre' if align == 'centre' else 'pad'; pd, pr = place(pd, pr, op), place(pr, pr, op)
    elif kind == 'sim':
        pd = place(pd, pd, 'periodise')
        if c.cfg('nz') == 'zero': pd['nz'] = [c.num(nd) / (B[0] * B[1] * B[2])] * nd
    else: pr = place(place(pr, pr, 'centre'), None, 'periodise')
    def same(lab, core_, p):
        if not isinstance(core_, Core): c.truth(lab, False); return
        cols = dict(zip(('x', 'y', 'z', 'nz', 'ws', 'wc'), core_.a)); cols.update({k: v for k, v in core_.k.items() if k in cols or k in p})
        for k in ('x', 'y', 'z', 'nz', 'ws', 'wc'):
            c.truth(lab + '_size', len(cols[k]) == len(p[k]))
            for j in range(len(p[k])): c.eq('%s_%s[%d]' % (lab, k, j), cols[k][j], p[k][j])
    if pd is not None: same('data', a['particles_data'], pd)
    if pr is not None: same('rand', a['particles_rand'], pr)
    for nm in los:
        g = a[nm]; c.truth(nm + '_shape', np.shape(g) == (nd if nm == 'los_data' else nr, 3))
        for j in range(len(los[nm])):
            for i in range(3): c.eq('%s[%d,%d]' % (nm, j, i), g[j][i], los[nm][j][i])
    # normalisation
    tot = lambda v: sum(v[1:], v[0]); alpha_n = tot(pd['ws']) if kind == 'survey' else c.num(1); alpha_d = tot(pr['ws']) if kind == 'survey' else c.num(1)
    for k, x in norm.items():
        c.eq('norm_alpha_' + k, x[1]['alpha'] * alpha_d, alpha_n)
        if k == 'meshes':
            same('mixed_data', x[1]['particles_data'], pd); same('mixed_rand', x[1]['particles_rand'], pr)
            c.truth('mixed_settings', x[1].get('assignment') == 'cic'); c.eq('mixed_padding', x[1].get('padding'), c.num('1/10')); c.eq('mixed_cellsize', x[1].get('cellsize'), c.num(10))
        else: same('norm', x[1]['particles'], pr if pr is not None else pd)
    key = dict(particle='particles', mesh='mesh').get(conv, 'meshes')
    nf = c.num(1) if conv == 'none' else norm[key][2] if key in norm else None
    c.truth('norm_computed', nf is not None)
    if nf is None: return
    c.eq('norm_factor', a['norm_factor'], nf)
    if kind == 'random': c.eq('alpha', a['alpha'], c.num(1))
    if stat == '3pcf-win': c.truth('wide_angle', bool(a.get('wide_angle', False)) == ('wa' in over))
    # results and saved file
    fresh = RESULT(core)
    c.truth('result_keys', set(res) - {'header'} == set(fresh))
    cell = lambda v: [('re', v.real), ('im', v.imag)] if isinstance(v, Cplx) else [('', v)]
    for k in fresh:
        for (s, g), (_, w) in zip(cell(res[k]), cell(fresh[k])):
            for j in range(2): c.eq('result_%s%s[%d]' % (k, s, j), g[j], w[j])
    c.truth('saved', len(SAVED) == (1 if save else 0))
    if not save: return
    kind_, path, data, fmt, header, delim = SAVED[0]; tag = (base['tags']['output'] or '') if via != 'none' else ''; d = (base['directories']['measurements'] or '') if via != 'none' else ''
    e1, e2, EL = deg
    name = {'powspec': 'pk%d' % EL, '2pcf': 'xi%d' % EL, '2pcf-win': 'xiw%d' % EL}.get(stat)
    if three: name = {'bispec': 'bk', '3pcf': 'zeta', '3pcf-win': 'zetaw'}[stat] + '%d%d%d' % (e1, e2, EL) + {'diag': '_diag', 'full': '_full', 'row': '_row%s' % c.cfg('idx'), 'off-diag': '_offdiag%s' % c.cfg('idx')}[form]
    if 'wa' not in over: c.truth('file_name', os.path.normpath(path) == os.path.normpath(os.path.join(d, name + tag + save)), detail=path)
    vals = list(fresh.items()); mult = '%d%d%d' % (e1, e2, EL) if three else '%d' % EL
    if kind_ == 'npz':
        for k, w in vals:
            c.truth('archive_' + k, k in data)
            if k not in data: continue
            for (_, g), (_, w_) in zip(cell(data[k]), cell(w)):
                for j in range(2): c.eq('archive_%s[%d]' % (k, j), g[j], w_[j])
    else:
        cols = []
        for k, w in vals: cols += [g for _, g in cell(w)]
        c.truth('table_shape', np.shape(data) == (2, len(cols)))
        if np.shape(data) == (2, len(cols)):
            for j in range(2):
                for i, w in enumerate(cols): c.eq('table[%d,%d]' % (j, i), data[j][i], w[j])
        F = fmt.split(delim) if isinstance(fmt, str) else list(fmt); ints = [i for i, (k, g) in enumerate([(k, g) for k, w in vals for _, g in cell(w)]) if k.startswith('n')]
        c.truth('table_formats', len(F) == len(cols) and all((f.strip().endswith('d')) == (i in ints) and (i in ints or f.strip().endswith('.9e')) for i, f in enumerate(F)))
    names = []
    for k, w in vals:
        n = k.replace('bin', '_cen') if not three else k.replace('_bin', '_cen')
        if not three: n = n.replace('keff', 'k_eff').replace('reff', 'r_eff')
        if isinstance(w, Cplx):
            q = re.sub(r'^(pk|xi|bk|zeta)', lambda m: m.group(1) + mult, n); names += ['Re{%s}' % q, 'Im{%s}' % q]
        else: names.append(n)
    lines = header.split('\n'); c.truth('column_names', lines[-1] == ', '.join('[%d] %s' % x for x in enumerate(names)), detail=lines[-1])
    find = lambda s: next((l[len(s):] for l in lines if l.startswith(s)), '')
    for i, v in enumerate(nums(find('Box size:')) or [None] * 3):
        c.truth('header_box', v is not None)
        if v is not None: printed(c, 'header_boxsize[%d]' % i, v, B[i], 6e-4)
    c.truth('header_mesh', [int(x) for x in nums(find('Mesh number:'))] == G); c.truth('header_alignment', find('Box alignment:').strip() == want['alignment'])
    c.truth('header_assignment', find('Mesh assignment and interlacing:').strip() == '%s, %s' % (want['assignment'], want['interlace']))
    l = find('Normalisation factor:'); v = nums(l); c.truth('header_convention', l.strip().endswith('(%s)' % conv) and len(v) == 1)
    if len(v) == 1: printed(c, 'header_norm', v[0], nf, 1e-8)
    l = find('Normalisation factor alternatives:'); v = nums(l); c.truth('header_alternatives', len(v) == 3)
    if len(v) == 3:
        for i, k in enumerate(('particles', 'mesh', 'meshes')): printed(c, 'header_norm_' + k, v[i], norm[k][2] if k in norm else c.num(0), 1e-8)
    for nm, p in (('Data catalogue', pd), ('Random catalogue', pr)) if kind == 'survey' else (('Catalogue', pd if pd is not None else pr),):
        v = nums(find(nm + ' size:')); c.truth('header_size', len(v) == 3)
        if len(v) == 3:
            c.truth('header_ntotal', int(v[0]) == len(p['ws'])); printed(c, 'header_wtotal', v[1], tot([x * y for x, y in zip(p['ws'], p['wc'])]), 6e-4); printed(c, 'header_wstotal', v[2], tot(p['ws']), 6e-4)
