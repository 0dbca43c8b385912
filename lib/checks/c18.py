from vlib import Check
def main(tier, seed):
    q = tier == 'quick'
    c = Check('C18', tier, seed, 'model_checking',
        ['triumvirate.winconv.' + m for m in ('Multipole', 'WinConvTerm', 'WinConvFormulae', 'calc_threept_winconv_coeff', 'calc_threept_ic', 'TwoPCFWinConv', 'PowspecWinConv', 'ThreePCFWinConv', 'BispecWinConv.convolve', 'BispecWinConv.gen_winconv_mat', 'ThreePointWindow')] + ['triumvirate.transforms.SphericalBesselTransform', 'triumvirate.transforms.DoubleSphericalBesselTransform', 'triumvirate._mpitools.allocate_tasks', 'triumvirate._mpitools.distribute_tasks'],
        ['labels: up to 3 labels of 1-3 indices, each an arbitrary integer in 0..12 (order) or 0..3, plus 10..34 in steps (spellings)', 'task totals 1..64 (and 1..1000000 at 4-5 processes), each an arbitrary integer; 1-8 processes', 'window and input multipole samples on 4-5 (6 thorough) concrete sample points, each an arbitrary real in [-2,2] (windows [1/2,2] where a constraint divides by them), coefficients in [1/8,4], constraint in [-2,2]', 'formulae of 1-7 terms with and without a constraint; degrees 0-2; output points given, default, beyond the window range; matrices over 1-6 processes', 'where two symbolic factors would multiply, one of them is symbolic in a stated subset of entries and concrete in the rest'],
        ['arithmetic modelled as exact reals', 'scipy splines and Simpson integration trusted as linear maps of their samples (weights taken from the real library)', 'the compiled Hankel transform is a stand-in with the same interface: a fixed dense linear map per degree, with a pivot depending on the degree (the real one is the subject of C16)', 'sample points are concrete', 'MPI communicator is a stand-in running processes one after another, with size and type checks on gathering'])
    J = lambda **k: c.pyjob('c18_winconv', budget=500, traces=2, **k)
    for n in (1, 2, 3): J(op='order', n=n, labels=2, other=1, expect=['one_of_three', 'mirror', 'equality'])
    J(op='order', n=2, labels=3, expect=['transitive', 'sorted'])
    J(op='order', n=1, labels=3, expect=['transitive', 'sorted'])
    J(op='order', n=3, labels=3, expect=['transitive', 'sorted'])
    for n in (1, 2, 3): J(op='parse', n=n, expect=['index_str' , 'equal_mixed', 'reparse'])
    for n in (2, 3): J(op='parse', n=n, digits=3, shift=10, scale=12, expect=['index_comma'])
    J(op='badlabel', expect=['bad_rejected'])
    for nm in ('wilson+16', 'sugiyama+19'): J(op='named', name=nm, expect=['coefficient', 'stored_coefficient'])
    J(op='coeff', nl=4 if q else 8, expect=['coefficient', 'symbolic', 'constraint'])
    J(op='formula', expect=['outputs', 'coefficient', 'term'])
    for P in range(1, 9): J(op='tasks', procs=P, expect=['sum', 'adjacent', 'last'] if P > 1 else ['sum', 'last'])
    J(op='tasks', procs=5, ignored=1, max='1000000', expect=['sum']); J(op='tasks', procs=4, ignored=1, extra=2, expect=['sum']); J(op='badtasks', expect=['rejected'])
    E2 = ['conv0', 'conv2', 'window_kept', 'input_kept', 'rout']
    J(op='conv2', expect=E2); J(op='conv2', rout=0, same=1, how='str', expect=E2); J(op='conv2', rout=0, how='tuple', expect=E2); J(op='conv2', beyond=1, nout=4, spline=2, expect=E2); J(op='conv2', spline=1, how='pole', nz=5, nq=6, expect=E2)
    for form in ('std', 'noic', 'mixed'):
        for ic in ('given', 'computed') if form != 'noic' else ('given',):
            lin = dict(qsym=[1, 6]) if ic == 'computed' else {}
            E3 = ['conv000', 'window_kept', 'input_kept']
            if ic == 'given': J(op='conv3', form=form, ic=ic, nout=2, rout=1, zsym=[0, 3, 5], expect=E3); J(op='conv3', form=form, ic=ic, qsym=[0, 7], how='comma', expect=E3); J(op='conv3', form=form, ic=ic, same=1, rout=1, qsym=[], how='tuple', expect=E3)
            else: J(op='conv3', form=form, qsym=[], rout=1, expect=E3); J(op='conv3', form=form, qsym=[0, 6], zsym=[2], how='pole', expect=E3); J(op='conv3', form=form, same=1, qsym=[1], zsym=[], expect=E3)
        J(op='conv3', form=form, ic='given', diag=1, expect=['conv000'] + ([] if form == 'noic' else ['constraint_required'])); J(op='conv3', form=form, ic='given', diag=1, rout=1, how='pole', expect=['conv000'])
    J(op='unit', expect=['unit000', 'unit110', 'unit_diag110', 'unit0', 'unit2'])
    for form in ('std', 'mixed'):
        for k in (dict(), dict(common=1), dict(approx=1), dict(same=1), dict(same=1, common=1, approx=1)): J(op='ic', form=form, qsym=[1, 6], zsym=[0, 5, 9], expect=['constraint'], **k); J(op='ic', form=form, qsym=[], expect=['constraint'], **k)
    J(op='reject', expect=['complete_accepted', 'window_points', 'window_samples', 'input_points'])
    EP = ['xi0', 'xi2', 'pk0', 'pk2', 'window_kept', 'input_kept', 'arguments_kept']
    J(op='pow', expect=EP); J(op='pow', rcommon=1, kout=0, same=1, how='tuple', expect=EP); J(op='pow', extrap=1, how='comma', expect=EP); J(op='pow', lowring=0, kout=0, qsym=[0, 2, 4], expect=EP); J(op='pow', extrap=2, spline=2, expect=EP); J(op='pow', spline=1, kspline=2, expect=EP); J(op='pow', spline=3, kspline=1, rcommon=1, expect=EP)
    EB = ['zeta000', 'bk000', 'window_kept', 'input_kept', 'arguments_kept']
    J(op='bis', form='noic', lowring=0, zsym=[0, 1, 5, 10], expect=EB); J(op='bis', form='std', ic='given', rcommon=1, kout=0, zsym=[0, 5, 11], expect=EB); J(op='bis', form='std', qsym=[], zsym=[0, 1, 5], expect=EB); J(op='bis', form='mixed', lowring=0, zsym=[0, 2, 7], qsym=[], expect=EB); J(op='bis', form='mixed', ic='given', lowring=0, zsym=[0, 2], qsym=[3], how='tuple', expect=EB); J(op='bis', form='noic', nonlog=1, lowring=0, zsym=[0, 6], expect=EB + ['respaced']); J(op='bis', form='noic', spline=2, kspline=1, lowring=0, zsym=[0, 5], expect=EB); J(op='bis', form='noic', nonlog=1, spline=1, kspline=2, lowring=0, zsym=[0, 6], expect=EB + ['respaced'])
    EM = ['row', 'size']
    J(op='mat', form='one', n=3, spline=2, nout=2, expect=EM)
    J(op='mat', form='std', n=3, spline=2, nout=2, ic=1, concat=1, symc=0, expect=EM); J(op='mat', form='noic', n=3, spline=2, lowring=0, nout=2, diag=1, symc=0, expect=EM); J(op='mat', form='std', n=3, spline=2, nout=2, diag=1, concat=1, symc=0, expect=EM)
    for P, root in ((1, 0), (2, 1), (3, 0), (4, 2)) if q else ((1, 0), (2, 0), (2, 1), (3, 0), (3, 2), (4, 2), (6, 5)): J(op='mat', form='one', procs=P, root=root, n=2, spline=1, nout=2, symc=0, ic=P % 2, expect=EM + ([] if P == 1 else ['other_processes']))
    J(op='mat', form='std', procs=3, root=1, n=3, spline=2, nout=2, symc=0, concat=1, expect=EM); J(op='mat', form='one', procs=5, n=2, spline=1, nout=2, symc=0, expect=EM)
    for n in (3, 4):
        for log in (0, 1):
            if n == 4 or log: J(op='win', n=n, log=log, expect=['points', 'window', 'diagonal'])
    J(op='win', n=4, log=0, make=0, expect=['window']); J(op='win', n=4, log=0, make=5, expect=['window']); J(op='win', n=4, perpole=0, poles=['000', '110'], expect=['window'])
    for t in ('raw', 'shot'): J(op='win', n=3, text=t, expect=['window', 'points']); J(op='win', n=4, text=t, log=0, expect=['window'])
    for s in ('idx', 'idxdict'): J(op='win', n=3, sub=s, expect=['sub_window', 'original_window']); J(op='win', n=3, sub=s, inplace=1, expect=['sub_window', 'returned'])
    for s in ('r', 'rlow', 'rup', 'rdict', 'both'): J(op='win', n=3, sub=s, none=0, expect=['sub_window'])
    J(op='win', n=3, again='dict', expect=['dict_window']); J(op='win', n=3, again='common', expect=['dict_window'])
    for s in ('lin', 'lglin'): J(op='win', n=4, resample=s, expect=['resampled_window']); J(op='win', n=4, resample=s, size=3, spline=2, expect=['resampled_window'])
    if not q:
        for n in (4, 5):
            for s in ('idx', 'r', 'both', 'idxdict', 'rdict'): J(op='win', n=n, sub=s, inplace=n % 2, none=0, expect=['sub_window'])
            J(op='win', n=5, resample='lin', size=n, expect=['resampled_window']); J(op='win', n=5, text='shot', expect=['window'])
        for form in ('std', 'mixed'): J(op='conv3', form=form, nq=5, nz=4, qsym=[], rout=1, expect=['conv000']); J(op='bis', form=form, n=5, ic='given', lowring=0, zsym=[0, 3, 8, 20], qsym=[], expect=EB)
        J(op='pow', n=6, qsym=[0], expect=EP); J(op='conv2', nq=6, nz=6, expect=E2)
    c.pyjob('c18_winconv', budget=500, traces=2, known='bispectrum window convolution with a multipole of unequal degrees (e.g. 202) and low ringing on (default) interpolates both axes at the sample points of the first degree, although the second has another pivot', op='bis', form='mixed', ic='given', qsym=[], zsym=[1])
    return c.main()
