from vlib import Check
def main(tier, seed):
    c = Check('C10', tier, seed, 'model_checking',
        ['trv::calc_powspec_normalisation_from_particles', 'calc_powspec_normalisation_from_mesh', 'calc_powspec_normalisation_from_meshes (both overloads)', 'calc_bispec_normalisation_from_particles', 'calc_bispec_normalisation_from_mesh', 'MeshField::calc_grid_based_powlaw_norm', 'ParticleCatalogue::centre_in_box, pad_in_box, pad_grids, offset_coords, load_particle_data', 'ParameterSet::validate'],
        ['1-3 particles per catalogue, all weights symbolic in [-4,4], nz in [0,4], alpha in (0,4], rescaling factor in (0,8]', 'one coordinate of one particle symbolic over the whole box in some jobs, others fixed', 'meshes of 2-6 cells per axis, all four schemes, both interlacing states, all three alignments', 'mixed meshes: both catalogues inside the box after alignment; padding in [0,1/2] and cell size in [1,2] symbolic for the automatic mesh'],
        ['double arithmetic modelled as exact reals (positions are restored up to rounding)', 'sums that vanish are only considered for the particle-based factors', 'serial execution'])
    J = lambda **k: c.job('c10_norm', budget=700, traces=3, **k)
    for n in (1, 2) + ((3,) if tier == 'thorough' else ()): J(op='part', np=n, expect=['particle-norm', 'vanishing-sum-rejected', 'vanishing-sum-rejected-3pt'])
    J(op='uninit', expect=['uninitialised-rejected'])
    E = ['mesh-norm', 'mesh-norm-3pt']
    for sch in ('ngp', 'cic', 'tsc', 'pcs'):
        for il in (0, 1): J(op='mesh', scheme=sch, n=4, il=il, expect=E); J(op='mesh', scheme=sch, nx=2, ny=4, nz=5, lx=3, ly=4, lz=10, il=1 - il, np=3, expect=E)
    for ax in range(3): J(op='mesh', scheme='cic', n=3, axis=ax, sympos=1, il=1, expect=E); J(op='mesh', scheme='ngp', n=3, axis=ax, sympos=1, np=3, expect=E)
    E = ['mixed-norm', 'position-kept', 'random-position-kept']
    for al in (dict(align='centre'), dict(align='pad', padscale='box', pf='1/16'), dict(align='pad', padscale='grid', pf='5/4')):
        for sch in ('ngp', 'cic', 'tsc', 'pcs'): J(op='mixed', scheme=sch, nr=3, il=int(sch == 'tsc'), expect=E, **dict(al, **(dict(n=2, pf='7/64' if al['padscale'] == 'box' else '7/32') if sch == 'ngp' and 'pf' in al else dict(n=4))))
        J(op='mixed', scheme='tsc', nr=3, nx=4, ny=5, nz=6, lx=4, ly=5, lz=3, expect=E, **al)
        J(op='mixed', scheme='cic', n=4, sympos=1, xlo=1, xhi='23/8', axis=0, expect=E, **al); J(op='mixed', scheme='tsc', n=4, nr=3, sympos=1, xlo='5/4', xhi='23/8', axis=2, expect=E, **al)
        if al.get('padscale') == 'grid': al = dict(al, pf='1/4')
        for sch in ('cic', 'tsc'): J(op='auto', scheme='pcs', **{'as': sch}, n=4, expect=E, **al)
        J(op='auto', scheme='ngp', **{'as': 'cic'}, n=4, sympad=1, expect=E, **al); J(op='auto', scheme='ngp', **{'as': 'ngp'}, n=4, nr=3, symcell=1, expect=E, **al)
        J(op='auto', scheme='ngp', **{'as': 'cic'}, n=4, fftw='measure', nr=3, expect=E, **al)
        if al['align'] == 'centre': J(op='auto', scheme='ngp', **{'as': 'cic'}, n=4, big=1, np=3, expect=E, **al); J(op='mixed', scheme='tsc', n=4, big=1, np=3, expect=E, **al); J(op='auto', scheme='ngp', **{'as': 'tsc'}, n=4, big=1, np=3, sympad=1, expect=E, **al)
        if tier == 'thorough': J(op='mixed', scheme='cic', n=4, sympos=1, xlo=0, xhi=4, who=1, expect=E, **al); J(op='mixed', scheme='tsc', n=4, sympos=1, xlo=1, xhi='23/8', axis=1, expect=E, **al); J(op='auto', scheme='ngp', **{'as': 'tsc'}, n=4, sympad=1, expect=E, **al)
    return c.main()
