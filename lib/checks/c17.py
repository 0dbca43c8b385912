from vlib import Check
def main(tier, seed):
    c = Check('C17', tier, seed, 'model_checking',
        ['trv::maths::SphericalHarmonicCalculator::calc_reduced_spherical_harmonic', 'store_reduced_spherical_harmonic_in_fourier_space', 'store_reduced_spherical_harmonic_in_config_space', 'trv::maths::wigner_3j', 'trv::calc_coupling_coeff_3pt', 'trv::validate_multipole_coupling'],
        ['all vectors with coordinates in [-8,8] at least 0.01 from the polar axis, and all vectors on the axis at least 0.01 from the origin (the code treats anything within 1e-9 as on it)', 'degrees 0-4 with every order (thorough: 0-8)', 'length rescaling by any factor in [1/64,64]', 'mesh tables on 3x4x5, 4x5x2 and 1x2x3 meshes with one box side symbolic in [1,2000]', 'couplings: all l1, l2 in 0-3 and every m1, m2, M for L in 0-4 (thorough: l1, l2 up to 5, L up to 6)'],
        ['double arithmetic modelled as exact reals', 'GSL associated Legendre functions and 3j symbols replaced by exact closed forms (recurrence; nearest square root of a rational)', 'serial execution'])
    J = lambda **k: c.job('c17_ylm', budget=700, traces=3, **k)
    lm = 4 if tier == 'quick' else 8
    for l in range(lm + 1):
        for m in range(-l, l + 1):
            J(op='point', ell=l, m=m, expect=['ylm.re', 'conjugation.re', 'parity.re'])
            if l in (1, 3, 6): J(op='scale', ell=l, m=m, expect=['scale.re'])
    for d in range(3): J(op='history', dir=d, lmax=3 if tier == 'quick' else 5, expect=['history.re'])
    for l in range(lm + 1): J(op='axis', ell=l, m=l // 2, expect=['axis.re']); J(op='axis', ell=l, m=0, expect=['axis.re']); J(op='addition', ell=l, u=l % 3, expect=['addition.re', 'unsold'])
    for (l, m), n, b in zip(((1, 0), (2, 1), (2, -2), (3, 2), (4, -3), (0, 0)), ((3, 4, 5), (4, 5, 2), (1, 2, 3), (4, 5, 2), (2, 3, 4), (3, 4, 5)), (0, 1, 2, 3, 2, 1)):
        J(op='mesh', ell=l, m=m, nx=n[0], ny=n[1], nz=n[2], symbox=b, expect=['fourier', 'config'])
    for L in range(5 if tier == 'quick' else 7): J(op='coupling', L=L, lmax=3 if tier == 'quick' else 5, expect=['coupling', 'selection', 'wigner', 'validate'])
    return c.main()
