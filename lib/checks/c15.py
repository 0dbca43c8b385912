from vlib import Check
def main(tier, seed):
    q = tier == 'quick'
    c = Check('C15', tier, seed, 'model_checking',
        ['triumvirate._arrayops.extrap_pad', 'extrap_lin', 'extrap_loglin', 'extrap_loglin_oscil', 'extrap2d_pad', 'extrap2d_lin', 'extrap2d_loglin', 'extrap2d_loglin_oscil', '_check_1d_array', '_check_2d_array', 'trv::array::extrap_lin', 'trv::array::extrap_loglin', 'trv::array::extrap_pad', 'trv::array::check_1d_array', 'trv::array::check_isclose', 'trv::array::get_sorted_indices'],
        ['arrays of %s points extended by 0-%d on each side, every value symbolic in [-64,64] (log-linear: one sign, magnitude in [1/64,64], a zero end value separately)' % (('2, 3, 5', 3) if q else ('2, 3, 5, 7', 5)), 'two-dimensional arrays from 2x2 to %s with different row and column extensions' % ('3x3' if q else '4x4'), 'oscillation-preserving: profiles of 8-10 points whose two end or two neighbouring points are symbolic over [1/8,8], the others fixed', 'sortedness: 2-4 points (rows 2x2), neighbouring values equal or at least 1/64 apart', 'spacing checks: exact sequences, and sequences with one point moved by 1/4 to 3/4 of a step (smaller deviations near the 1e-5 tolerance are not decided)', 'integer sort keys in [0,n-1], n up to 3 (thorough: 4)'],
        ['arithmetic modelled as exact reals', 'two equal zeros at an end of a log-linear input (0/0) are outside the bounds', 'the core has no two-dimensional extrapolation (its functions throw)', 'log-spacing check of the core only on sequences of one sign (floating-point exception flags are not modelled)'])
    P = lambda **k: c.pyjob('c15_extrap', budget=600, traces=3, **k)
    for n in ((2, 3, 5) if q else (2, 3, 5, 7)):
        for ne in ((0, 1, 3) if q else (0, 1, 3, 5)):
            P(op='1d', kind='pad', n=n, ne=ne, expect=['middle', 'size']); P(op='1d', kind='lin', n=n, ne=ne, expect=['middle'])
            for s in ('pos', 'neg'): P(op='1d', kind='loglin', sign=s, n=n, ne=ne, expect=['middle'])
    P(op='1d', kind='loglin', sign='pos', zero=0, n=4, ne=2, expect=['lower']); P(op='1d', kind='loglin', sign='neg', zero=3, n=4, ne=2, expect=['upper'])
    for n in (2, 3, 4): P(op='signs', n=n, expect=['accepted'])
    O = lambda **k: P(op='oscil', expect=['middle', 'geometric', 'bounded'], **k)
    up = '1,2,4,8,16,8,4,2,1'
    O(base=up, at='0,1', lo='1/8', hi='8', ne=2); O(base=up, at='7,8', lo='1/8', hi='8', ne=2)
    O(base=up, at='0,8', lo='1/8', hi='31/16', ne=3, mono=1)
    O(base='-1,-2,-4,-8,-16,-8,-4,-2,-1', at='0,1', lo='1/8', hi='8', ne=2)
    O(base='1,-2,4,-8,16,-8,4,-2,1,1/2', at='0,9', lo='1/8', hi='8', ne=2)
    O(base='1,2,3,2,-3,-2,-1,-1/2', at='0,7', lo='1/8', hi='8', ne=2); O(base='4,3,2,1,2,3,4,5', at='0,7', lo='1/8', hi='8', ne=2)
    for nr, nc, er, ec in ((2, 3, 1, 2), (3, 2, 2, 1), (2, 2, 0, 1), (3, 3, 2, 2)) + (() if q else ((4, 3, 3, 1), (4, 4, 1, 3))):
        for k, s in (('pad', 'any'), ('lin', 'any'), ('loglin', 'pos'), ('loglin', 'neg')):
            P(op='2d', kind=k, sign=s, nr=nr, nc=nc, er=er, ec=ec, expect=['middle', 'row_size', 'col_size'])
    for k in ('pad', 'lin'): P(op='2d', kind=k, scalar=1, tuple=0, nr=2, nc=3, er=2, ec=2, expect=['corner_size'])
    P(op='mismatch', expect=['accepted'])
    for n in (2, 3, 4): P(op='sorted', dim=1, n=n, expect=['accepted'])
    P(op='sorted', dim=2, n=2, expect=['accepted'])
    for o in ('spacing', 'logspacing'):
        for b in (-1, 0, 1, 3):
            P(op=o, dim=1, n=4, bad=b, expect=['accepted'])
            P(op=o, dim=2, n=3, bad=min(b, 2), expect=['accepted']); P(op=o, dim=2, n=3, bad=min(b, 2), transpose=1, expect=['accepted'])
        P(op=o, dim=1, n=4, bad=-1, neg=1, expect=['accepted'])
    J = lambda **k: c.job('c15_array', budget=600, traces=3, **k)
    for n in ((2, 3, 5) if q else (2, 3, 5, 7)):
        for ne in ((0, 1, 3) if q else (0, 1, 3, 5)):
            for k, sg in (('pad', 'any'), ('lin', 'any'), ('loglin', 'pos'), ('loglin', 'neg')): J(op='extrap', kind=k, sign=sg, n=n, ne=ne, dirty=int(ne == 1), expect=['middle', 'size'])
    for n in (2, 3, 4): J(op='sign', n=n, ne=2, expect=['accepted'])
    for lg in (0, 1):
        for b in (-1, 0, 2, 3):
            for r in (('5/4', '2', '3') if lg and b >= 0 else ('2',)): J(op='spacing', log=lg, n=4, bad=b, ratio=r, logbounds=1, expect=['accepted'])
        J(op='spacing', log=lg, n=4, bad=-1, neg=1, expect=['accepted'])
    for at in (0, 2): J(op='isclose', n=3, at=at, expect=['close'])
    for n in ((1, 2, 3) if q else (1, 2, 3, 4)): J(op='sort', n=n, expect=['once'])
    return c.main()
