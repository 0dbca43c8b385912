from vlib import Check
def main(tier, seed):
    c = Check('C14', tier, seed, 'model_checking',
        ['trv::ParameterSet::ParameterSet(copy)', 'validate', 'read_from_file', 'trv::override_paramset_by_envvars', 'set_boxsize_from_expand', 'set_ngrid_from_cutoff', 'trv::sys::expand_envar_in_path, split_string, join_strings, has_extension'],
        ['box sizes symbolic in [1/4,16] or unset, expansion in [0,3], cutoff in [-1/2,5/2] (Fourier) / [1/2,4] (configuration) on boxes of 4-6 units, padding factor in [-1,9], range limits in [-1,3]', 'num_bins 0-9, idx_bin -4..9, ell1, ell2 0-2, mesh numbers 1-5 per axis or 6/8/10 or unset: every value', 'every documented string option plus one undocumented value each; all combinations of catalogue type, statistic, normalisation and interlacing; of form, degrees, binning, bin number and index (in slices); of directories, file lists, record path and wisdom settings', 'parameter files: all 39 keys in rotated and strided orders, with comments, empty assignments, decoy keys, decoy values and unset groups; values symbolic', 'GPU builds, negative box sizes, and grid-scale padding combined with an unset mesh are outside'],
        ['double arithmetic modelled as exact reals', 'the Nyquist scale of an unset box or mesh (x/0) only selects a warning and is modelled as a huge value', 'number-to-text conversion exact in the model; replays use 17 digits'])
    V = ['valid-set-accepted', 'invalid-set-rejected', 'volume', 'nmesh', 'shape', 'interlace', 'npoint', 'space', 'idempotent']
    J = lambda expect=V, **k: c.job('c14_params', budget=500, traces=4, expect=expect, **k)
    for ct in ('survey', 'random', 'sim', 'none', 'galaxies'): J(op='validate', ct0=ct, st=1, nc=1, il=1, expect=[] if ct == 'galaxies' else V)
    for fm in ('full', 'diag', 'off-diag', 'row', 'triu'):
        for st in ('bispec', 'powspec'): J(op='validate', st0=st, bins=1, fm0=fm, expect=['invalid-set-rejected'] + (V if fm != 'triu' else []))
    for bn in ('log', 'linpad', 'logpad', 'custom', 'pad'): J(op='validate', bins=1, bn0=bn, range=1, expect=['invalid-set-rejected'] if bn == 'pad' else V)
    J(op='validate', fm=1, ell=1, st0='3pcf'); J(op='validate', fm=1, ell=1, st0='3pcf-win', ct0='random', nc=1); J(op='validate', range=1, box=1); J(op='validate', bn=1, **{'as': 1}, fw=1, fm=1)
    J(op='validate', al=1, ps=1, padf=1); J(op='validate', al=1, ps=1, padf=1, grid=1, expect=V); J(op='validate', al=1, ps=1, padf=1, box=1)
    J(op='validate', box=1, grid=1, expect=['valid-set-accepted', 'volume', 'nmesh'])
    J(op='validate', grid=2, expect=V + ['grid-even', 'grid-resolves-cutoff']); J(op='validate', grid=2, st0='2pcf', clo='1/2', chi='4', expect=['grid-even', 'grid-resolves-cutoff']); J(op='validate', grid=2, st0='2pcf', clo='-1', chi='0', expect=['invalid-set-rejected']); J(op='validate', grid=2, czero=1, expect=['invalid-set-rejected']); J(op='validate', grid=2, czero=1, st0='3pcf', expect=['invalid-set-rejected'])
    J(op='validate', box=2, inf=1); J(op='validate', box=2, inf=1, grid=2); J(op='validate', box=2, inf=1, grid=2, czero=1, st0='2pcf')
    for init in (0, 1): J(op='validate', save=1, dirs=1, wis=1, fw=1, init=init); J(op='validate', save=1, st0='pairs', ct0='none', init=init, expect=['save-binned-vectors']); J(op='validate', files=1, dirs=1, ct=1, st0='modes', init=init, expect=['data-files', 'rand-files'])
    J(op='copy', expect=['copied', 'copy-initialised', 'assigned', 'copy-validates-alike']); J(op='env', expect=['override']); J(op='setbox', inf=1, expect=['expanded-box', 'expanded-volume', 'setbox'])
    R = lambda **k: J(op='read', expect=['read'], **k)
    R(); R(step=7, deco=1); R(step=11, tricky=1); R(step=17, tricky=1, deco=1, stat='bispec'); R(unset=1, inf=1, deco=1); R(unset=4, step=5); R(unset=7, inf=1, step=3); R(unset=2, rhi=3, step=13); R(unset=3, inf=1, tricky=1)
    if tier == 'thorough':
        for st in ('2pcf', '2pcf-win', '3pcf', '3pcf-win', '3pcf-win-wa', 'modes', 'pairs'): J(op='validate', st0=st, ct0='random' if 'win' in st else 'survey', bins=1, fm=1, ell=1)
        for bn in ('lin', 'log', 'linpad', 'logpad', 'custom'): J(op='validate', bins=1, fm=1, bn0=bn, st0='3pcf', range=1)
        for s in (3, 5, 9, 19, 23, 29): R(step=s, tricky=s % 2, deco=1)
        J(op='validate', grid=2, box=1, chi='3/4', clo='0'); J(op='validate', grid=2, chi='4')
    return c.main()
