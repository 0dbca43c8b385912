from vlib import Check
def main(tier, seed):
    c = Check('C02', tier, seed, 'model_checking',
        ['trv::MeshField::fourier_transform', 'inv_fourier_transform', 'apply_assignment_compensation', 'calc/compute_assignment_window_in_fourier', 'get_grid_wavevector', 'get_grid_pos_vector', 'shift_grid_indices_fourier', 'MeshField constructors (own and external plans)'],
        ['meshes with 2 to 6 cells per axis (even, odd, anisotropic), every mesh value symbolic in [-4,4]^2', 'box sizes symbolic in [1,8] in one job per scheme', 'all four schemes, both interlacing states, estimated and measured plans, repeated use of one field'],
        ['double arithmetic modelled as exact reals', 'FFTW replaced by the exact DFT (its documented contract; planning with FFTW_MEASURE overwrites the arrays)', 'serial execution'])
    ex = ['forward.re', 'compensated.re', 'wavevector', 'separation', 'window']
    J = lambda **k: c.job('c02_fft', budget=700, traces=3, expect=ex, **k)
    J(scheme='pcs', il=1, nx=3, ny=4, nz=2, l=4); J(scheme='tsc', il=0, nx=3, ny=4, nz=5, lx=4, ly=2, lz=8); J(scheme='cic', il=1, nx=5, ny=2, nz=3, symbox=1)
    J(scheme='cic', il=0, nx=2, ny=3, nz=4, symbox=1); J(scheme='cic', il=1, n=4, l=4, plan=1); J(scheme='ngp', il=1, nx=6, ny=3, nz=2, l=2, fftw='measure', twice=1)
    J(scheme='pcs', il=0, nx=4, ny=6, nz=2, l=8, fftw='measure', twice=1); J(scheme='tsc', il=1, nx=2, ny=5, nz=4, lx=1, ly=4, lz=2)
    if tier == 'thorough':
        for s in ('ngp', 'cic', 'tsc', 'pcs'):
            for il in (0, 1): J(scheme=s, il=il, nx=4, ny=5, nz=6, lx=4, ly=5, lz=3, twice=1); J(scheme=s, il=il, nx=3, ny=3, nz=4, symbox=1, plan=1 - il)
    return c.main()
