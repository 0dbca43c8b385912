from vlib import Check
def main(tier, seed):
    c = Check('C04', tier, seed, 'model_checking',
        ['trv::MeshField::inv_fourier_transform_ylm_wgtd_field_band_limited', 'inv_fourier_transform_sjl_ylm_wgtd_field', 'compute_assignment_window_in_fourier', 'get_grid_wavevector', 'SphericalHarmonicCalculator::store_reduced_spherical_harmonic_in_fourier_space'],
        ['meshes of 2-5 cells per axis (anisotropic, even and odd), all (or, on larger meshes, 6) complex mode values symbolic in [-4,4]', 'both band edges symbolic over ranges covering the populated shells; bands with at least one mode', 'separation symbolic in [1/16,8] for the spherical-Bessel field, orders 0-3', 'ell 0-4 with signs of m; all four schemes; own and external FFT plans; target mesh holding stale values; repeated calls'],
        ['double arithmetic modelled as exact reals', 'FFTW replaced by the exact discrete transform; the spherical-Bessel spline replaced by an uninterpreted function of its argument (spline error out of scope)', 'a band with no mode is outside the claim', 'serial execution'])
    J = lambda **k: c.job('c04_ylmfield', budget=600, traces=2, **k)
    EB = ['mode-count', 'effective-wavenumber', 'field.re', 'field.im']; ES = ['field.re', 'field.im']
    B = [dict(nx=3, ny=2, nz=4, l=4, scheme='tsc', ell=2, m=1, lo0=0, lo1=2, hi0='1.5', hi1=3), dict(nx=2, ny=5, nz=2, l=4, scheme='ngp', ell=1, m=0, lo0=0, lo1=2, hi0='1.5', hi1=3, nsym=6, ext=1, twice=1),
         dict(nx=3, ny=3, nz=3, lx=4, ly=5, lz=6, scheme='cic', ell=0, m=0, lo0=0, lo1='1.5', hi0='1.2', hi1=3, nsym=8), dict(nx=4, ny=4, nz=2, l=4, scheme='pcs', ell=3, m=-2, lo0=1, lo1=2, hi0='2.5', hi1=5, nsym=8, twice=1),
         dict(nx=4, ny=2, nz=3, lx=4, ly=4, lz=3, scheme='pcs', ell=4, m=3, lo0='1.5', lo1=3, hi0=3, hi1=5, nsym=10), dict(nx=2, ny=3, nz=2, lx=4, ly=3, lz=8, scheme='tsc', il=1, ell=2, m=-2, lo0=0, lo1=1, hi0='0.5', hi1=4)]
    for b in B: J(expect=EB, op='band', **b)
    for i, (n, l, m, jl, sch) in enumerate([((3, 2, 4), 2, -1, 2, 'cic'), ((2, 3, 2), 0, 0, 0, 'ngp'), ((2, 2, 4), 1, 1, 1, 'tsc'), ((3, 3, 2), 3, 2, 3, 'pcs')]): J(expect=ES, op='sj', nx=n[0], ny=n[1], nz=n[2], l=4, scheme=sch, ell=l, m=m, jl=jl, ext=i % 2, twice=i // 2, il=i % 2)
    if tier == 'thorough':
        for l in range(5):
            for m in range(-l, l + 1): J(expect=EB, op='band', nx=3, ny=2, nz=4, l=4, scheme='tsc', ell=l, m=m, lo0=0, lo1=3, hi0='1.5', hi1=5); J(expect=ES, op='sj', nx=3, ny=2, nz=4, l=4, scheme='cic', ell=l, m=m, jl=l)
        J(expect=EB, op='band', nx=5, ny=4, nz=3, l=4, scheme='pcs', ell=2, m=1, lo0=0, lo1=4, hi0=1, hi1=6, nsym=6)
    return c.main()
