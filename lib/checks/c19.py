from vlib import Check
def main(tier, seed):
    c = Check('C19', tier, seed, 'model_checking', ['triumvirate._arrayops.reshape_threept_datatab'],
        ['1-%d bins in triangular and full form, every value and coordinate symbolic in [-64,64] (real values; complex values in full form)' % (6 if tier == 'quick' else 12), 'rejection: every pair of lengths from 1 to %d, unknown shape names, one-dimensional coordinate input' % (16 if tier == 'quick' else 40)],
        ['arithmetic modelled as exact reals', 'flattened input is in the order the package writes it (row by row)', 'the row order and the coordinates themselves are not inspected by the code, only the lengths'])
    J = lambda **k: c.pyjob('c19_reshape', budget=500, traces=3, **k)
    N = 6 if tier == 'quick' else 12
    for n in range(1, N + 1):
        for f in ('triu', 'full'): J(op='roundtrip', n=n, form=f, expect=['coord', 'value', 'flatten', 'input'])
        J(op='roundtrip', n=n, form='full', cplx=1, expect=['value'])
    J(op='roundtrip', n=3, form='triu', explicit=0, expect=['mirror'])
    L = 16 if tier == 'quick' else 40
    for f in ('triu', 'full', 'tri'): J(op='reject', n=L if f != 'tri' else 4, form=f, expect=['accepted'])
    for f in ('triu', 'full'): J(op='reject', n=4, form=f, dim=1, expect=['accepted'])
    return c.main()
