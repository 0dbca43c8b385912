from vlib import Check
def main(tier, seed):
    c = Check('C06', tier, seed, 'model_checking',
        ['trv::FieldStats::compute_ylm_wgtd_2pt_stats_in_fourier', 'compute_ylm_wgtd_2pt_stats_in_config', 'compute_uncoupled_shotnoise_for_3pcf', 'compute_uncoupled_shotnoise_for_bispec_per_bin', 'compute_shotnoise_aliasing and the aliasing functions', 'if_fields_compatible', 'get_grid_wavevector, get_grid_pos_vector, calc_assignment_window_in_fourier'],
        ['meshes of 2-5 cells per axis (even, odd, anisotropic); both fields complex-symbolic in [-4,4] on all (or the first nsym) cells; shot-noise amplitude complex-symbolic', 'one or two bin edges symbolic over ranges crossing the populated shells, others concrete, 1-3 bins', 'edges not within one fine-sampling step (1e-5 in k, 0.1 or 1 in r) below a mode or pair magnitude: the code documents this sampling as its resolution', 'fine-sampling array length reduced from 1e6 (1e5) to cover exactly the populated range, except one full-size job with concrete edges', 'ell 0-4'],
        ['double arithmetic modelled as exact reals', 'FFTW replaced by the exact discrete transform', 'spherical-Bessel spline as an uninterpreted function', 'serial execution'])
    J = lambda **k: c.job('c06_stats', budget=700, traces=2, **k)
    E = ['number', 'effective-coordinate', 'statistic.re', 'statistic.im']; n3 = dict(nx=3, ny=2, nz=2)
    E = [e.split('.')[0] for e in E]
    F = dict(op='fourier', lx=60000, ly=47000, lz=60000); C = dict(op='config', lx='3.09', ly='2.46', lz='2.06'); S = dict(op='sn3pcf', lx='6.09', ly='4.3', lz='6.06')
    for i, (sch, il, l, m) in enumerate([('ngp', 0, 0, 0), ('cic', 0, 1, 1), ('tsc', 0, 2, -1), ('pcs', 0, 2, 2), ('ngp', 1, 1, 0), ('cic', 1, 0, 0), ('tsc', 1, 2, 1), ('pcs', 1, 4, -3)]):
        J(expect=E + ['shot-noise'], scheme=sch, il=il, ell=l, m=m, nsample=60, edges='0,0.00008:0.00012,0.0003' if i % 2 else '0.00012:0.00016,0.000165:0.00019', twice=i % 2, plan=i // 2 % 2, **n3, **F)
    J(expect=E, scheme='cic', il=0, ell=2, m=0, nsample=90, nx=4, ny=5, nz=3, nsym=4, edges='0.0001:0.00011,0.00018,0.0002:0.000215,0.0005', **F)
    J(expect=E, scheme='tsc', il=0, ell=0, m=0, nsample=90, nx=5, ny=4, nz=4, nsym=3, edges='0,0.0000005,0.000105:0.000108,0.00025:0.00026', **F)
    J(expect=E, scheme='ngp', il=0, ell=1, m=-1, nx=3, ny=2, nz=2, edges='0,0.00009,0.0002,0.0004', **F)
    for i, (sch, il, l, m) in enumerate([('cic', 0, 2, 1), ('ngp', 1, 0, 0), ('tsc', 0, 1, -1), ('pcs', 1, 4, 2)]):
        J(expect=E, scheme=sch, il=il, ell=l, m=m, nsample=40, edges='0.5:0.95,1.4:1.6' if i % 2 == 0 else '0,1.15:1.35,3', twice=i % 2, **n3, **C)
        J(expect=E, scheme=sch, il=il, ell=l, m=m, ellb=i % 3, mb=-(i % 3 > 0), nsample=20, edges='0,0.4:3,4', l1=i % 2, l2=i // 2, twice=i // 2, **n3, **S)
        J(expect=['uncoupled-bk'], op='bispec', scheme=sch, il=il, ell=min(l, 2), m=m if l < 3 else -2, ja=i % 3, jb=2 - i % 3, **n3, lx='6.09', ly='4.3', lz='6.06')
    J(expect=E, scheme='cic', il=0, ell=2, m=0, nsample=60, nx=5, ny=2, nz=3, nsym=4, op='config', lx='5.15', ly='2.06', lz='4.5', edges='0.3:0.9,1.1:1.45,9')
    c.job('c06_stats', budget=120, traces=2, expect=['rejected-iff-incompatible'], op='incompat', nx=3, ny=2, nz=2, l=4, scheme='ngp', il=0)
    if tier == 'thorough':
        for l in range(5):
            for m in range(-l, l + 1):
                J(expect=E, scheme='tsc', il=l % 2, ell=l, m=m, nsample=60, edges='0,0.00008:0.00012,0.0003', **n3, **F); J(expect=E, scheme='cic', il=m % 2, ell=l, m=m, nsample=40, edges='0.5:0.95,1.4:1.6', **n3, **C)
        J(expect=E, scheme='pcs', il=0, ell=2, m=1, nsample=120, nx=6, ny=5, nz=4, nsym=4, edges='0.0001:0.00013,0.0002:0.00023,0.0003:0.00033,0.0005', **F)
    return c.main()
