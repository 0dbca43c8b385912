from vlib import Check
def main(tier, seed):
    c = Check('C13', tier, seed, 'model_checking',
        ['trv::ParticleCatalogue::load_catalogue_file', 'load_particle_data', 'initialise_particles', 'calc_total_weights', 'calc_pos_extents', 'trv::sys::split_string, has_extension'],
        ['text files with 1-5 data rows and 3-8 columns; every permutation of the six column names plus fixed layouts with absent, unknown, repeated and surplus columns', 'all weights and densities symbolic in [-4,4]; positions of the first two rows symbolic, later ones constants', '1-3 files per catalogue, comment lines, empty lines, mixed blanks and tabs, missing final newline; volume symbolic in [1/2,64] or absent', 'HDF5 input is outside (not compiled in this build)'],
        ['double arithmetic modelled as exact reals', 'number-to-text conversion is exact in the model; replayed witnesses use 17 digits', 'serial execution'])
    E = ['particle-number', 'position', 'nz', 'ws', 'wc', 'w', 'total-weight', 'total-sample-weight', 'extent-min', 'extent-max', 'extent-span']
    J = lambda expect=E, **k: c.job('c13_load', budget=600, traces=3, expect=expect, **k)
    for p in range(0, 720, 120): J(perm=1, n=1, plo=p, phi=p + 119, volume=p // 120 % 2)
    for i, cols in enumerate(['x:y:z', 'z:x:y', 'y:z:x:ws', 'wc:x:y:z', 'x:id:y:z:nz', 'nz:ws:x:y:z', 'ws:wc:z:y:x', 'a:b:x:y:wc:z:nz:ws', 'x:y:z:x:nz:nz', 'ra:x:dec:z:y:wc']):
        J(cols=cols, n=2, files=1 + i % 2, trail=i // 2 % 2, volume=(i + 1) % 3 > 0, extra=i % 2, comments=(i + 1) % 3 > 0)
    J(cols='wc:z:ws:y:nz:x', n=2, files=3); J(cols='z:y:x', n=1, files=3, trail=1); J(n=5, cols='ws:z:x:nz:y')
    J(op='array', n=1, expect=E + ['inconsistent-lengths-rejected']); J(op='array', n=2, twice=1, expect=E)
    J(op='missing', expect=['missing-position-rejected', 'missing-file-rejected']); J(op='missing', cols='ws:y:x:q:z', expect=['missing-position-rejected'])
    if tier == 'thorough':
        for p in range(0, 720, 120): J(perm=1, n=2, plo=p, phi=p + 119, cols='y:q:ws:z:nz:x', files=1 + p // 120 % 2)
        J(op='array', n=3, expect=E)
    return c.main()
