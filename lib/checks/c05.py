from vlib import Check
def main(tier, seed):
    c = Check('C05', tier, seed, 'model_checking',
        ['trv::Binning constructors', 'Binning::set_bins (all four overloads)', 'Binning::compute_binning'],
        ['bin limits, custom edges and box sizes symbolic (limits in [0,512], box 1-4096); number of bins fixed per job 1-12 (thorough: 1-24); grid-based bins for mesh numbers 2-9 (thorough: 2-17)', 'padded schemes with more than 5 bins and an upper limit beyond the padding', 'both spaces; fresh objects and objects already binned'],
        ['double arithmetic modelled as exact reals', 'exp/log modelled by exact identities and monotonicity'])
    J = lambda **k: c.job('c05_binning', budget=500, traces=3, **k)
    E = ['count', 'first-edge', 'last-edge', 'increasing', 'centre', 'width', 'range-max']
    for space in ('config', 'fourier'):
        for nb in ((1, 2, 5, 12) if tier == 'quick' else (1, 2, 3, 4, 5, 7, 9, 12, 16, 24)):
            for sch in ('lin', 'log'):
                for via in ('direct', 'params'): J(scheme=sch, space=space, via=via, nb=nb, twice=nb % 2, expect=E)
            J(space=space, via='custom', nb=nb, twice=nb % 2, expect=E)
        for nb in ((6, 9) if tier == 'quick' else (6, 7, 8, 9, 12, 16, 24)):
            for sch in ('linpad', 'logpad'):
                for via in ('direct', 'params'): J(scheme=sch, space=space, via=via, nb=nb, twice=nb % 2, expect=E + ['pad-width'])
        for tw in (0, 1): J(space=space, via='grid', twice=tw, nmax=9 if tier == 'quick' else 17, expect=E)
        for sch in ('lin', 'log', 'linpad', 'logpad', 'other'): J(scheme=sch, space=space, via='reject', expect=['rejected'])
    return c.main()
