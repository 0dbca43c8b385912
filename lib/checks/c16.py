from vlib import Check
def main(tier, seed):
    q = tier == 'quick'
    c = Check('C16', tier, seed, 'model_checking',
        ['trv::maths::HankelTransform::' + m for m in ('HankelTransform', 'initialise', 'calc_lowring_pivot', 'compute_kernel_coeff', 'biased_transform', 'calc_post_sampts')] + ['trv::maths::SphericalBesselTransform::' + m for m in ('initialise', 'biased_transform', 'transform_cosmological_multipole')] + ['trv::array::extrap_pad', 'extrap_lin', 'extrap_loglin', 'triumvirate.transforms.SphericalBesselTransform', 'triumvirate.transforms.DoubleSphericalBesselTransform', 'triumvirate.transforms.resample_lin', 'triumvirate.transforms.resample_lglin'],
        ['core: 3, 4, 6 and 8 samples (transform sizes up to 8) spaced by a factor 2, every sample an arbitrary real (or complex) in [-8,8] ([1/8,8] under log-linear extrapolation); order mu arbitrary in [1/4,3], bias arbitrary in +-[1/8,1] or 0, pivot arbitrary in [1/4,4] in the jobs marked symbolic, with mu+1+-q > 1/8', 'core extrapolation options 1-4, one extension factor per job', 'low-ringing pivots and spherical transforms of degree 1-3 at concrete settings', 'Python: 3-6 (thorough 8) samples per axis, degrees 0-3, biases 0-1, all extrapolation options 0-5 in one and two dimensions, both layers, every sample symbolic; sample points and settings concrete', 'resampling: 4-6 symbolic samples per axis (different numbers per axis), spline orders 1-3'],
        ['arithmetic modelled as exact reals; sine, cosine, exponential, logarithm as uninterpreted functions with their algebraic identities', 'the complex log-gamma function is an uninterpreted function (exact values at concrete arguments) obeying conjugation; the harness uses the same function for the exact multiplier', 'FFTW replaced by the exact transform', 'transform size 16 and sizes with factors other than 2 and 3 are outside the bounds', 'complex input with extrapolation (documented for real input) outside the bounds', 'the Python harness replaces the compiled Hankel transform by a stand-in of the same interface (dense linear map per order, with its own extrapolation); the compiled layer is the core harness; traces replay with the stand-in too', 'oscillation-preserving extrapolation replaced by a marker in the transform harness (decided under C15)', 'scipy splines trusted as linear maps'])
    J = lambda **k: c.job('c16_hankel', budget=600, traces=2, **k)
    ET = ['transform', 'multiplier_re', 'output_point', 'input_kept', 'repeat', 'real', 'other']
    for n in (4, 6, 8):
        J(n=n, expect=ET)
        for mu, qq, kr in (('3/2', '1/2', 2), ('3/2', '-1/2', '1/2')): J(n=n, back=1, lowring=1, mu=mu, q=qq, kr=kr, expect=ET + ['returned', 'low_ringing', 'returned_point'])
    J(n=4, qneg=1, expect=ET); J(n=4, q=0, expect=ET); J(n=4, twice=1, expect=ET); J(n=4, im=1, expect=ET[:5])
    J(n=3, back=1, expect=ET + ['returned']); J(n=3, back=1, qneg=1, expect=ET + ['returned']); J(n=3, back=1, q=0, mu='1/2', expect=ET + ['returned'])
    J(n=4, back=1, lowring=1, mu='1/2', q=0, kr=1, expect=ET + ['returned', 'low_ringing']); J(n=4, lowring=1, mu='3/2', q='-1/2', kr=0, expect=ET + ['low_ringing'])
    for e in (1, 2, 3, 4): J(n=4, extrap=e, expect=ET + ['extended_input', 'extended_output']); J(n=4, extrap=e, mu='1/2', q=0, kr=1, expect=ET + ['extended_input'])
    J(n=6, extrap=1, mu='1/2', q=0, kr=1, factor='5/4', expect=ET + ['extended_input'])
    ES = ['transform', 'forward', 'backward', 'input_kept']
    B = lambda **k: J(op='sbt', **k)
    B(n=4, ell=1, kr=1, expect=ES); B(n=4, ell=2, expect=ES); B(n=4, ell=0, sized=1, kr=2, expect=ES); B(n=3, ell=3, kr=1, back=1, expect=ES + ['returned']); B(n=4, ell=3, kr=1, back=1, lowring=1, expect=ES + ['returned', 'low_ringing']); B(n=4, ell=2, kr=1, extrap=4, expect=ES); B(n=4, ell=1, kr=1, bias=1, expect=ES)
    J(op='reject', expect=['good', 'few', 'pivot', 'odd_extrapolated', 'poles', 'direction'])
    P = lambda **k: c.pyjob('c16_transforms', budget=500, traces=2, **k)
    E1 = ['values', 'directed+1', 'directed-1', 'input_kept', 'repeat', 'points', 'held', 'other']
    for e in range(6): P(op='one', n=4, extrap=e, deg=e % 4, expect=E1)
    for e in (1, 2, 3): P(op='one', n=4, extrap=e, layer='native', deg=e % 3, expect=E1)
    P(op='one', n=4, layer='default', expect=E1); P(op='one', n=4, layer='default', extrap=3, deg=2, expect=E1); P(op='one', n=4, im=1, deg=1, expect=E1); P(op='one', n=4, bias=1, deg=3, pivot=2, lowring=0, expect=E1); P(op='one', n=6, extrap=2, exp=1.5, deg=2, expect=E1); P(op='one', n=5, deg=1, expect=E1); P(op='one', n=6, extrap=4, exp=1.5, deg=1, expect=E1)
    E2 = ['values', 'directed+1', 'directed-1', 'input_kept', 'repeat', 'values_points', 'held']
    for n, d, b in ((2, [0, 0], [0, 0]), (3, [2, 0], [0, 0]), (4, [1, 1], [0, 1]), (4, [1, 3], [0, 0])): P(op='two', n=n, degs=d, biases=b, lowring=0 if d[0] != d[1] else 1, expect=E2)
    for e in range(1, 6):
        P(op='two', n=4 if not q or e == 3 else 2, degs=[2, 0] if e % 2 else [1, 1], extrap=e, extrap2d=1, lowring=0, expect=E2)
        if e != 4: P(op='two', n=4 if not q else 2, degs=[0, 2] if e % 2 else [1, 1], extrap=e, lowring=0, expect=E2)
    P(op='reject', expect=['option', 'odd', 'layer', 'direction'])
    ER = ['points', 'values']
    for k in ('lin', 'lglin'):
        for form in ('array', 'list', 'nested'): P(op='resample', kind=k, n=5, form=form, size=None if form == 'array' else 3 if form == 'list' else 7, expect=ER + ['input_kept'])
        P(op='resample', kind=k, n=4, spline=1, size=6, expect=ER)
        P(op='resample', kind=k, two=1, n=4, m=5, form='pair', expect=ER + ['points2']); P(op='resample', kind=k, two=1, n=4, form='shared', size=3, expect=ER); P(op='resample', kind=k, two=1, n=5, m=4, form='list', size=[3, 2], spline=2, expect=ER); P(op='resample', kind=k, two=1, n=4, m=6, form='pair', size=5, spline=1, expect=ER + ['points2'])
    if not q:
        for n in (4, 8):
            for ell in (0, 1, 2, 3): B(n=n, ell=ell, kr=1, lowring=1, back=1, expect=ES + ['returned'])
        J(n=6, back=1, lowring=1, mu='5/2', q=0, kr=1, expect=ET + ['returned']); J(n=8, im=1, mu='1/2', q=0, kr=1, expect=ET[:5]); J(n=6, qneg=1, expect=ET); J(n=8, extrap=0, qneg=1, expect=ET)
        for e in range(6):
            P(op='one', n=8, extrap=e, deg=(e + 1) % 4, pivot=.5, expect=E1); P(op='one', n=6, extrap=e, exp=1.5, deg=(e + 2) % 4, expect=E1)
    return c.main()
