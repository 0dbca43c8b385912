from vlib import Check
def main(tier, seed):
    q = tier == 'quick'
    c = Check('C12', tier, seed, 'model_checking', ['triumvirate.catalogue.ParticleCatalogue.' + m for m in ('__init__', 'read_from_file', 'compute_los', 'compute_mean_density', 'centre', 'pad', 'periodise', 'offset_coords', '_calc_bounds', '_check_bounds_in_boxsize', '_convert_to_cpp_catalogue')],
        ['%s particles per catalogue, alone and with a reference catalogue of 1-%d' % ('1-2 (3 on one axis)' if q else '1-3 (4 on one axis)', 2 if q else 3), 'coordinates in [-32,32], box sizes in [1/4,64] (wrapping: box at least 8, positions either on a face or 1/64 away from one), pad factors in [0,4], weights in [-4,4], each symbolic', 'boxes, pads and offsets as one number, list, tuple and array', 'column orders, name mappings and absent columns as listed in the job table'],
        ['arithmetic modelled as exact reals', 'the reader of the table file is replaced by a stand-in giving the named symbolic columns; replays and witnesses write and read a real file', 'the compiled catalogue class is a stand-in recording its arguments', 'nbodykit back end not available'])
    J = lambda **k: c.pyjob('c12_catalogue', budget=500, traces=2, **k)
    for n in (1, 2) if q else (1, 2, 3):
        for nz, ws, wc in (('array', 'array', 'array'), ('absent', 'absent', 'absent'), ('scalar', 'absent', 'array'), ('array', 'scalar', 'absent'), ('array', 'array', 'scalar')):
            J(op='build', n=n, nz=nz, ws=ws, wc=wc, axes='xyz' if n < 3 else 'y', expect=['x', 'y', 'z', 'nz', 'ws', 'wc', 'wtotal', 'wstotal', 'core_x', 'lower_x', 'upper_z', 'span_y'])
    three = (('x',), ('y',), ('z',)) if q else (('x',), ('y',), ('z',), ('xy',), ('yz',))
    for f, ax in (('scalar', 'x'), ('list', 'y'), ('tuple', 'z'), ('array', 'x')):
        J(op='offset', n=2, form=f, expect=['x', 'y', 'z', 'argument_x'])
        J(op='offset', n=1, form=f, twice=1, expect=['again_x'])
        J(op='centre', n=2, form=f, axes='xyz', expect=['x', 'y', 'z'])
        J(op='centre', n=2, form=f, ref=1, axes=ax, expect=['x', 'ref_y']); J(op='centre', n=1, form=f, ref=1, m=1, expect=['x', 'ref_y'])
        for g in ('scalar', 'list', 'tuple', 'array'):
            if q and f != 'scalar' and g not in ('list', 'array'): continue
            J(op='pad', n=2, form=f, padby='box', padform=g, axes=ax if q else 'xyz', expect=['x', 'y', 'z']); J(op='pad', n=1, form=f, padby='box', padform=g, expect=['x', 'y', 'z'])
            J(op='pad', n=2, form=f, padby='grid', padform=g, ngrid=[2, 4, 8], axes=ax if q else 'xyz', expect=['x']); J(op='pad', n=1, form=f, padby='grid', padform=g, ngrid=[2, 4, 8], expect=['x'])
        J(op='pad', n=1, form=f, padby='grid', padform='scalar', ngrid=4, ref=1, m=1, expect=['x', 'ref_x'])
        J(op='pad', n=2, form=f, padby='box', padform='list', ref=1, axes=ax, expect=['ref_z']); J(op='pad', n=1, form=f, padby='box', padform='list', ref=1, m=1, expect=['ref_z'])
        J(op='periodise', n=1, form=f, bmin=8, expect=['inside_x', 'x', 'nonnegative_z'])
        J(op='periodise', n=2, form=f, bmin=24, axes=ax, expect=['inside_x', 'x'])
    if not q:
        for t in (dict(op='centre'), dict(op='pad', padby='box', padform='list')): J(form='list', n=2, ref=1, axes='xz', **t)
    for (a,) in three:
        J(op='centre', n=3, form='list', axes=a, expect=['x']); J(op='centre', n=2, form='list', ref=1, m=2 if q else 3, axes=a, expect=['ref_x']); J(op='offset', n=3, form='list', axes=a, expect=['x'])
        J(op='pad', n=3, form='list', padby='box', padform='list', axes=a, expect=['x']); J(op='pad', n=2, form='list', padby='grid', padform='list', ngrid=[2, 4, 8], ref=1, m=2 if q else 3, axes=a, expect=['ref_x'])
        J(op='periodise', n=2, form='list', bmin=8, axes=a, expect=['x'])
        if not q: J(op='periodise', n=3, form='list', bmin=24, axes=a, expect=['x']); J(op='centre', n=4, form='list', axes=a, expect=['x'])
    J(op='centre', n=2, form='scalar', ref='self', axes='x', expect=['x']); J(op='pad', n=2, form='list', padby='box', padform='list', ref='self', axes='z', expect=['x'])
    J(op='padreject', n=1, expect=['conflict', 'none_x'])
    for n in (1, 2): J(op='los', n=n, expect=['unit', 'along', 'side'])
    J(op='los', n=2, zero=0, expect=['zero', 'unit']); J(op='los', n=2, zero=1, expect=['zero', 'unit'])
    if not q: J(op='los', n=3, zero=1, expect=['zero', 'unit'])
    for by in ('volume', 'both'): J(op='density', n=2, by=by, expect=['nz'])
    for f in ('scalar', 'list', 'tuple', 'array'): J(op='density', n=2, by='box', form=f, expect=['nz'])
    for cols in ('x,y,z', 'z,nz,x,y', 'wc,y,x,ws,z', 'x,y,z,nz,ws,wc', 'ws,z,wc,nz,y,x', 'wc,x,y,z', 'y,nz,ws,z,x'):
        for h in (0, 1): J(op='read', n=2, cols=cols, header=h, axes='x', expect=['x', 'ws', 'wc', 'nz', 'wtotal', 'accepted', 'caller'])
    J(op='read', n=2, cols='PX,W,PZ,PY', map='x:PX;y:PY;z:PZ;ws:W', header=1, expect=['x', 'ws']); J(op='read', n=1, cols='PX,W,PZ,PY,N', map='x:PX;y:PY;z:PZ;wc:W;nz:N', expect=['x', 'wc'])
    for cols in ('x,y', 'y,z,ws', 'x,z,nz,ws,wc'): J(op='read', n=1, cols=cols, expect=['accepted'])
    for how in ('offset', 'pad', 'centre'): J(op='integer', how=how, expect=['x', 'y', 'z'])
    return c.main()
