from vlib import Check
def main(tier, seed):
    c = Check('C03', tier, seed, 'model_checking',
        ['trv::MeshField::compute_ylm_wgtd_field (both overloads)', 'compute_ylm_wgtd_quad_field (both overloads)', 'compute_unweighted_field', 'compute_unweighted_field_fluctuations_insitu', 'assign_weighted_field_to_mesh', 'SphericalHarmonicCalculator::calc_reduced_spherical_harmonic'],
        ['2 data + 2 random particles, weights symbolic in [-4,4], alpha symbolic in (0,4], meshes of 2-4 cells per axis, box 4', 'lines of sight symbolic (away from the polar axis) or fixed; one coordinate symbolic in some jobs', 'ell 0-4 with all signs of m (thorough: 0-6), all four schemes, both interlacing states'],
        ['double arithmetic modelled as exact reals', 'GSL associated Legendre replaced by the exact recurrence', 'serial execution'])
    J = lambda **k: c.job('c03_fields', budget=700, traces=3, expect=['mesh.re', 'mesh.im'] + (['shadow.re'] if k.get('il') else []), l=4, **k)
    for op in ('fluct', 'one', 'quad', 'quad1'):
        J(op=op, scheme='ngp', il=1, n=2, ell=1, m=1, symlos=1, twice=1); J(op=op, scheme='cic', il=0, n=3, ell=2, m=-1, symlos=1)
        J(op=op, scheme='pcs', il=1, n=4, ell=2, m=0); J(op=op, scheme='tsc', il=1, n=4, ell=3, m=-2); J(op=op, scheme='ngp', il=1, n=2, ell=0, m=0); J(op=op, scheme='ngp', il=0, n=2, ell=4, m=3, symlos=2)
        J(op=op, scheme='tsc', il=1, n=4, ell=1, m=0, sympos=1)
    for op in ('unweighted', 'boxfluct'):
        for sch, il in (('ngp', 1), ('cic', 0), ('tsc', 1), ('pcs', 1), ('pcs', 0)): J(op=op, scheme=sch, il=il, n=4, twice=1, sympos=1)
    if tier == 'thorough':
        for op in ('fluct', 'one', 'quad', 'quad1'):
            for l in range(7):
                for m in range(-l, l + 1): J(op=op, scheme='ngp', il=1, n=2, ell=l, m=m, symlos=2)
    return c.main()
