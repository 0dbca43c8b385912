from vlib import Check
def main(tier, seed):
    c = Check('C09', tier, seed, 'model_checking',
        ['trv::compute_bispec', 'compute_3pcf', 'compute_bispec_in_gpp_box', 'compute_3pcf_in_gpp_box', 'compute_3pcf_window (with and without wide-angle kernel)', 'calc_ylm_wgtd_shotnoise_amp_for_bispec', 'calc_coupling_coeff_3pt, validate_multipole_coupling', 'MeshField::inv_fourier_transform_ylm_wgtd_field_band_limited, _sjl_ylm_wgtd_field, apply_assignment_compensation, apply_wide_angle_pow_law_kernel', 'FieldStats::compute_ylm_wgtd_2pt_stats_in_fourier, compute_uncoupled_shotnoise_for_3pcf, compute_uncoupled_shotnoise_for_bispec_per_bin'],
        ['2-3 data and 2 random particles; 1-2 data systematic weights and in some jobs a random clustering weight symbolic in [-4,4], normalisation factor symbolic in [-4,4], window alpha symbolic in (0,4]; in box jobs one coordinate symbolic over the box', 'all five shapes, row index and diagonal offset (both signs) enumerated by forking, 2-3 populated bins', 'degrees (l1,l2,L) with l1,l2 <= 2, L <= 2 (thorough: <= 3, 4), all four assignment schemes, no interlacing (switched off for three-point runs)', 'meshes of 3 cells per axis for degrees above zero: on even meshes the code obtains the terms of opposite orders by conjugation, which is exact only below the Nyquist modes; even meshes are covered for l1 = l2 = L = 0'],
        ['double arithmetic modelled as exact reals', 'FFTW replaced by the exact discrete transform', 'GSL Legendre functions and 3j symbols by exact recurrences, spherical-Bessel splines as uninterpreted functions', 'serial execution'])
    E = ['bin-centre-1', 'bin-centre-2', 'effective-1', 'effective-2', 'number-1', 'number-2', 'value', 'shot-noise', 'layout']
    F = dict(edges='0.00009,0.00012,0.00016,0.0002', nsample=60, l=60000); C = dict(edges='19,25,32,40', nsample=40, l='60.9')
    f2 = lambda op, form: form in ('row', 'off-diag') and not op.startswith('bk') and tier == 'quick'
    def J(op, form, sch, ls, **k):
        d = dict(F if op.startswith('bk') else C); d.update(n=3, symw=1); d.update(edges='19,25,32') if f2(op, form) or (op == 'zeta' and ls == (1, 1, 2) and tier == 'quick') else None; d.update(k); c.job('c09_threept', budget=800, traces=2, expect=E, op=op, form=form, scheme=sch, l1=ls[0], l2=ls[1], L=ls[2], **d)
    forms = ['full', 'triu', 'diag', 'row', 'off-diag']
    # every estimator in every shape, degrees rotating
    degs = {'full': (0, 1, 1), 'triu': (1, 1, 0), 'diag': (1, 1, 2), 'row': (2, 0, 2), 'off-diag': (0, 2, 2)}
    for k, op in enumerate(('bk', 'zeta', 'bkbox', 'zetabox', 'win', 'wa')):
        for i, f in enumerate(forms):
            w = dict(iwa=i % 2, jwa=1) if op == 'wa' else {}
            J(op, f, ['ngp', 'cic', 'tsc', 'pcs'][(i + k) % 4], degs[forms[(i + k) % 5]], **w)
            J(op, f, ['ngp', 'cic', 'tsc', 'pcs'][(i + k + 2) % 4], (0, 0, 0), nx=4, ny=2, nz=4, symw=1 + int(op.startswith('bk')), symr=int(op == 'bk' and f == 'off-diag'), **dict(w, **(dict(edges='0.00009,0.00012,0.00016') if op.startswith('bk') else dict(edges='14,18,24', l=60))))
    J('bk', 'triu', 'cic', (1, 1, 2), symw=2); J('zeta', 'triu', 'ngp', (1, 0, 1), edges='19,25,32'); J('bkbox', 'triu', 'tsc', (1, 1, 2), sympos=1, xhi=60000); J('zetabox', 'triu', 'cic', (1, 1, 0), sympos=1, xhi='60.9', axis=1); J('bk', 'row', 'ngp', (2, 2, 2)); J('bk', 'full', 'ngp', (1, 0, 1))
    for ls in ((1, 0, 0), (1, 1, 1), (2, 0, 1), (0, 1, 2), (2, 2, 1), (1, 1, 3)):
        for op in ('bk', 'zeta', 'bkbox', 'zetabox', 'win'): c.job('c09_threept', budget=100, traces=2, expect=['vanishing-multipole-rejected'], op=op, form='full', scheme='ngp', n=2, l1=ls[0], l2=ls[1], L=ls[2], **(F if op.startswith('bk') else C))
    for op in ('bk', 'zeta', 'bkbox', 'zetabox', 'win'): c.job('c09_threept', budget=100, traces=2, expect=['vanishing-multipole-rejected'], op=op, form='square', scheme='ngp', n=2, **(F if op.startswith('bk') else C))
    if tier == 'thorough':
        for op in ('bk', 'zeta', 'bkbox', 'zetabox', 'win', 'wa'):
            w = dict(iwa=1, jwa=1) if op == 'wa' else {}
            for ls in ((1, 1, 0), (1, 1, 2), (2, 0, 2), (0, 2, 2), (2, 2, 0)): J(op, 'full', 'cic', ls, **w)
            for ls in ((2, 2, 2), (1, 2, 1), (2, 1, 3), (1, 3, 2)): J(op, 'row', 'tsc', ls, **w)
            J(op, 'diag', 'pcs', (2, 2, 4), **w)
            if not op.endswith('box') : J(op, 'off-diag', 'cic', (1, 1, 2), symw=2, **w)
            else: J(op, 'off-diag', 'cic', (2, 2, 2), nd=3, sympos=1, xhi=60000 if op == 'bkbox' else '60.9', **w)
    c.jobs.sort(key=lambda j: -((j['conf']['op'].startswith(('zeta', 'win', 'wa'))) * 2 + (j['conf'].get('l1', 0) + j['conf'].get('l2', 0)) + (j['conf'].get('form') in ('row', 'off-diag')) + 4 * ('sympos' in j['conf']) - 9 * (j['budget'] == 100)))
    return c.main()
