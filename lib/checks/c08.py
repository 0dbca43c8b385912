from vlib import Check
def main(tier, seed):
    c = Check('C08', tier, seed, 'model_checking',
        ['trv::compute_powspec', 'compute_corrfunc', 'compute_powspec_in_gpp_box', 'compute_corrfunc_in_gpp_box', 'compute_corrfunc_window', 'calc_ylm_wgtd_shotnoise_amp_for_powspec (both overloads)', 'calc_coupling_coeff_2pt', 'MeshField field assembly, fourier_transform', 'FieldStats::compute_ylm_wgtd_2pt_stats_in_fourier, _in_config', 'ParticleCatalogue::load_particle_data'],
        ['2-3 data and 2-3 random particles, systematic and clustering weights symbolic in [-4,4] (random systematic weights in [1/4,4] so that alpha exists), normalisation factor symbolic in [-4,4], window alpha in (0,4]', 'lines of sight fixed or with two components of one particle of either catalogue symbolic; one coordinate of one particle symbolic over the box in some jobs', 'multipoles l = 0-4 (thorough: 0-6), meshes of 2-4 cells per axis, all four schemes, both interlacing states, 2-3 bins including an empty one'],
        ['double arithmetic modelled as exact reals', 'FFTW replaced by the exact discrete transform', 'GSL Legendre functions and 3j symbols by exact recurrences', 'serial execution'])
    J = lambda **k: c.job('c08_twopt', budget=700, traces=2, **k)
    E = ['bin-centre', 'effective-coordinate', 'number', 'statistic', 'dimension']
    F = dict(l=60000, edges='0,0.00015,0.00018,0.0004', nsample=60, expect=E + ['shot-noise']); C = dict(lx='3.09', ly='2.46', lz='2.06', edges='0,1.1,1.5,1.9', nsample=40, expect=E)
    S = ['ngp', 'cic', 'tsc', 'pcs']; g = dict(nx=3, ny=2, nz=2)
    for i, l in enumerate((0, 1, 2, 3, 4) if tier == 'quick' else range(7)):
        for il in (0, 1):
            a, b = S[(i + il) % 4], S[(i + il + 2) % 4]
            J(op='pk', scheme=a, il=il, ell=l, symlos=3 if l <= 2 else i % 2, **g, **F); J(op='xi', scheme=b, il=il, ell=l, symlos=2 - il if l <= 2 else 0, **g, **C)
            J(op='pkbox', scheme=b, il=il, ell=l, nd=3, **dict(F, l=60000), nx=4, ny=3, nz=2); J(op='xibox', scheme=a, il=il, ell=l, nd=3, nx=3, ny=4, nz=2, lx='3.09', ly='4.1', lz='2.06', edges='0,1.1,1.5,1.9', nsample=40, expect=E)
            J(op='win', scheme=a, il=1 - il, ell=l, symlos=int(l <= 2), **g, **C)
    J(op='pk', scheme='pcs', il=1, ell=2, nx=3, ny=4, nz=2, nd=3, nr=3, **F); J(op='xi', scheme='cic', il=0, ell=2, nx=4, ny=3, nz=2, lx='4.1', ly='3.09', lz='2.06', nd=3, nr=2, edges='0,1.1,1.5,1.9', nsample=40, expect=E)
    for ax in range(3):
        L = ('3.09', '2.46', '2.06')[ax]
        J(op='pk', scheme='cic', il=ax % 2, ell=1 + ax, symw=0, sympos=1, axis=ax, xhi=60000, **g, **F); J(op='pkbox', scheme='tsc', il=1 - ax % 2, ell=2, sympos=1, axis=ax, xhi=60000, **g, **F)
        J(op='xi', scheme='ngp', il=1, ell=ax, symw=0, sympos=1, axis=ax, xhi=L, **g, **C); J(op='xibox', scheme='cic', il=0, ell=2 * (ax % 2), sympos=1, axis=ax, xhi=L, **g, **C); J(op='win', scheme='cic', il=0, ell=1, symw=0, sympos=1, axis=ax, xhi=L, **g, **C)
    if tier == 'thorough':
        for sch in S:
            for il in (0, 1): J(op='pk', scheme=sch, il=il, ell=2, nx=4, ny=5, nz=3, nd=3, nr=3, symlos=1, **F); J(op='xi', scheme=sch, il=il, ell=4, nx=4, ny=3, nz=4, lx='4.1', ly='3.09', lz='4.1', edges='0,1.1,1.5,1.9', nsample=40, expect=E); J(op='pkbox', scheme=sch, il=il, ell=4, sympos=1, nd=3, axis=2, xhi=60000, nx=4, ny=3, nz=5, **F)
    return c.main()
