from vlib import Check
def main(tier, seed):
    c = Check('C11', tier, seed, 'model_checking',
        ['trv::ParticleCatalogue::offset_coords', 'offset_coords_for_periodicity', 'centre_in_box (both)', 'pad_in_box (both)', 'pad_grids (both)', 'calc_pos_extents', 'load_particle_data'],
        ['1-4 particles per catalogue; coordinates symbolic in [-8,8] on all axes (2 particles) or on one axis (3-4 particles, generic constants on the others), weights in [-4,4]', 'box sizes symbolic in [1,16] and pad factors in [0,4]; mesh numbers 3, 4, 5', 'periodic wrapping: coordinates up to 8 box sizes away', 'operation applied once or twice, single catalogues and data-random pairs of different sizes'],
        ['double arithmetic modelled as exact reals', 'serial execution (see C21 for schedules)'])
    W = ['particle-number', 'nz', 'ws', 'wc', 'w', 'extent-min', 'extent-max', 'extent-span']
    def J(op, **k): c.job('c11_place', budget=700, traces=3, expect=W + {'offset': ['displacement'], 'extents': ['displacement'], 'period': ['wrapped-nonnegative', 'wrapped-below-box', 'moved-by-whole-boxes'], 'centre': ['midpoint', 'displacement'], 'pad': ['lands-at-pad', 'displacement'], 'grids': ['lands-at-grid-pad', 'displacement']}[op] + (['reference-displacement', 'reference-extent-min'] if k.get('pair') else []), op=op, **k)
    for op in ('offset', 'centre', 'pad', 'grids', 'extents'):
        J(op, n=2); J(op, n=1); J(op, n=3, axis=(0, 1, 2)[len(op) % 3], twice=1)
        if op in ('centre', 'pad', 'grids'):
            for a in range(3): J(op, pair=1, n=2 + a % 2, m=3 - a % 2, axis=a, twice=a % 2)
            J(op, pair=1, n=1, m=2); J(op, pair=1, n=2, m=1)
    J('period', n=1, symbox=0); J('period', n=2, symbox=0, axis=2, lo=-6, hi=9)
    for a in range(3): J('period', n=1, axis=a, twice=a % 2, lo=-5, hi=6)
    if tier == 'thorough':
        for op in ('offset', 'centre', 'pad', 'grids', 'extents'):
            for a in range(3): J(op, n=4, axis=a, twice=a % 2)
            if op in ('centre', 'pad', 'grids'):
                for a in range(3): J(op, pair=1, n=3, m=3, axis=a, twice=1)
                J(op, pair=1, n=2, m=2)
        for a in range(3): J('period', n=2, axis=a, symbox=0, twice=1); J('period', n=1, axis=a)
    return c.main()
