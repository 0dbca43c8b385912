from vlib import Check
def main(tier, seed):
    c = Check('C22', tier, seed, 'model_checking',
        ['trv::MeshField constructors (own plans, no plans, external plans), destructor, compute_assignment_window_in_fourier, compute_unweighted_field*, compute_ylm_wgtd_field, fourier_transform', 'trv::FieldStats constructor, destructor, compute_shotnoise_aliasing, record_binned_vectors', 'trv::ParticleCatalogue::initialise_particles, load_particle_data, finalise_particles, destructor', 'every compute_* measurement and calc_*_normalisation_* driver', 'trv::sys::update_maxmem, update_maxcntgrid, size_in_gb'],
        ['histories of 2 to 4 operations, each chosen by the solver from the listed operation sets with a solver-chosen variant (mesh, particle number, interlacing, failure kind)', 'at most three fields, two statistics objects and two catalogues alive; meshes of 8, 12 and 18 cells; 1-3 particles with a symbolic weight', 'after every operation: memory, real and complex mesh counts and their maxima equal the totals the history implies; after release: everything back, no FFTW array or plan still held', 'each measurement driver: balance on success and on rejected parameters', 'GPU memory, HDF5 input and catalogue files are outside; parameter sets that bypass validation with an unknown assignment scheme are outside (weights would leak)'],
        ['sizes as exact rationals of bytes', 'FFTW modelled by a stub that counts live arrays and plans; native runs compare the live heap (AddressSanitizer) over repeated histories and report any read after release'])
    E = ['memory', 'meshes', 'complex-meshes', 'real-meshes', 'peak-memory', 'peak-meshes', 'peak-mesh-count', 'all-released']
    h = lambda ops, steps, k=2, e=[], **w: c.job('c22_account', budget=400, traces=4, expect=E + e, ops=ops, steps=steps, kmax=k, **w)
    h('abxwW', 2, e=['rejected']); h('abxwW', 2, il=0); h('abxw', 3, 0); h('abw', 4, 0); h('bwx', 3, 1); h('stlvV', 2, e=['rejected']); h('stlvV', 3, 0); h('tls', 4, 0); h('cdefn', 2, e=['rejected', 'released']); h('cen', 3, 1, e=['rejected', 'kept-or-released']); h('cdf', 3, 1); h('acufg', 2); h('cau', 3, 1); h('bgw', 3, 1); h('bgw', 3, 1, il=0); h('asce', 4, 0); h('bstl', 3, 0); h('sv', 2, 2)
    if tier == 'thorough':
        h('abxwW', 3, 1); h('abxwW', 4, 0); h('stlvV', 3, 1); h('cdefn', 3, 2); h('sv', 3, 2); h('cdefn', 4, 0); h('acufgwb', 3, 1); h('absclw', 4, 0); h('cau', 4, 2); h('bgw', 5, 0)
    D = ['meshes-restored', 'memory-restored', 'mesh-count-restored', 'arrays-and-plans-restored', 'memory-balance', 'all-released', 'outcome', 'peak-covers', 'peak-meshes-cover']
    m = lambda op, **w: c.job('c22_account', budget=400, traces=4, expect=D, op=op, **w)
    for op, n in (('pk', 2), ('xi', 2), ('pkbox', 1), ('xibox', 1), ('win2', 1), ('norm', 1), ('mixed', 2)): m(op, cells=n); m(op, cells=n, set=1, reps=2) if tier == 'thorough' or op in ('norm', 'mixed', 'pkbox') else None
    m('empty', cells=0)
    for op in ('bk', 'zeta', 'bkbox', 'zetabox', 'win3'):
        for f in ('full', 'diag') + (('row', 'off-diag', 'triu') if tier == 'thorough' else ()): m(op, cells=5, form=f)
        m(op, cells=5, fail=2)
    m('win3', cells=5, wa=1)
    return c.main()
