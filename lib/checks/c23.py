from vlib import Check
def main(tier, seed):
    q = tier == 'quick'
    c = Check('C23', tier, seed, 'model_checking', ['triumvirate.twopt.' + m for m in ('_amalgamate_parameters', '_get_measurement_filename', '_print_measurement_header', '_assemble_measurement_datatab', '_compute_2pt_stats_survey_like', '_compute_2pt_stats_sim_like', 'compute_powspec', 'compute_corrfunc', 'compute_powspec_in_gpp_box', 'compute_corrfunc_in_gpp_box', 'compute_corrfunc_window')]
        + ['triumvirate.threept.' + m for m in ('_amalgamate_parameters', '_get_measurement_filename', '_print_measurement_header', '_assemble_measurement_datatab', '_compute_3pt_stats_survey_like', '_compute_3pt_stats_sim_like', 'compute_bispec', 'compute_3pcf', 'compute_bispec_in_gpp_box', 'compute_3pcf_in_gpp_box', 'compute_3pcf_window')]
        + ['triumvirate.parameters.ParameterSet (parameters.pyx)', 'fetch_paramset_template', '_modify_sampling_parameters', '_modify_measurement_parameters', '_set_ngrid_from_cutoff', 'triumvirate.catalogue.ParticleCatalogue placement and header methods'],
        ['2 data and 2 random particles (one axis of the first catalogue symbolic in [-8,8]), weights in [-4,4] (random systematic weights in [1/4,4]), number densities in [1/4,4] or all zero (box catalogues)', 'box sizes in [16,64] (derived boxes: expansion in [1,2]), pad factors, bin limits, lines of sight, normalisation factors and core results symbolic', 'mesh numbers fixed, or derived from a fixed cutoff and a symbolic box of 2-6 cells', 'every statistic and catalogue kind; settings given as keywords only, as a dictionary or as a ParameterSet, with the overrides, conventions, forms and saved formats of the job table'],
        ['arithmetic modelled as exact reals; saved numbers are compared before formatting', 'the compiled measurement and normalisation routines and catalogues are recorders returning symbolic results; the compiled binning is a stand-in', 'parameters.pyx is run as Python after rewriting its Cython declarations; the core parameter set behind it is a model of the checks and derivations decided in C14', 'np.savetxt and np.savez record their arguments', 'window measurements with an unset box and box measurements with the mixed-mesh convention are outside'])
    J = lambda stat, kind, expect=(), **k: c.pyjob('c23_drivers', budget=300, traces=2, stat=stat, kind=kind, expect=['accepted', 'one_call', 'norm_factor', 'core_volume', 'core_bin_min'] + list(expect), **k)
    two = [('powspec', 'survey'), ('2pcf', 'survey'), ('powspec', 'sim'), ('2pcf', 'sim'), ('2pcf-win', 'random')]; three = [('bispec', 'survey'), ('3pcf', 'survey'), ('bispec', 'sim'), ('3pcf', 'sim'), ('3pcf-win', 'random')]
    for s, k in two + three:
        t = (s, k) in three; cat = 'data_x' if k != 'random' else 'rand_x'
        for via in ('none', 'dict', 'obj'): J(s, k, via=via, expect=[cat])
        if k == 'survey':
            J(s, k, los='given', axes='z', expect=['los_data', 'los_rand']); J(s, k, los='los_data', axes='', raxes='y', via='obj', expect=['los_rand'])
            for al in ('box', 'grid'):
                J(s, k, align=al, over='alignment,pad', expect=['core_padfactor', 'rand_x']); J(s, k, align=al, via='dict', axes='', raxes='z', expect=['core_padfactor'])
                J(s, k, align=al, via='obj', over='alignment,pad,boxsize,ngrid', expect=['core_padfactor'])
        if k == 'random': J(s, k, los='given', axes='y', via='dict', expect=['los_rand', 'alpha'])
        if k == 'sim': J(s, k, nz='zero', axes='y', via='dict', expect=['data_nz']); J(s, k, nz='zero', axes='', expect=['data_nz'])
        for cv in ('none', 'mesh') + (('mesh-mixed',) if not t and k == 'survey' else ()): J(s, k, via='dict', conv=cv, axes=''); J(s, k, via='obj', conv=cv, axes='', save='.txt', expect=['header_norm', 'table', 'column_names'])
        J(s, k, save='.txt', axes='', expect=['header_norm', 'table']); J(s, k, save='.npz', axes='', via='dict', tag='_v1.5', dir='out/meas', expect=['header_norm', 'file_name']); J(s, k, save='.txt', axes='', via='obj', tag='_v1.5', dir='out/meas', expect=['header_norm', 'file_name'])
        for via in ('dict', 'obj'):
            J(s, k, via=via, over='degree,binning', axes='', expect=['binning_given']); J(s, k, via=via, over='degree,binning,boxsize,ngrid,assignment,interlace' + (',form,idx' if t else ''), axes='', deg=[1, 1, 0], **(dict(form='full') if t else {}), expect=['core_boxsize'])
            J(s, k, via=via, over='assignment', assignment='ngp', axes='')
            J(s, k, via=via, over='binning', num_bins=9, axes='')
        J(s, k, via='dict', types='none', axes='')
        if k != 'random':
            for via, ov in (('dict', ''), ('obj', ''), ('obj', 'expand'), ('none', 'expand')): J(s, k, via=via, unset_box=1, over=ov, axes='x' if k == 'survey' else 'z', raxes='', expect=['core_boxsize'])
            J(s, k, via='dict', unset_box=1, raxes='x', axes='', expect=['core_boxsize'])
        cut = dict(cutoff='1/8' if s in ('powspec', 'bispec') else '8')
        for via, ov in (('dict', ''), ('obj', ''), ('dict', 'cutoff_nyq'), ('none', 'cutoff_nyq')): J(s, k, via=via, over=ov, axes='', box=['16', '40'], expect=['core_ngrid'], **cut)
        for via, ov in (('dict', ''), ('obj', 'cutoff_nyq,expand')) if k != 'random' else (): J(s, k, via=via, over=ov, unset_box=1, axes='', expect=['core_ngrid'], **dict(cutoff='4' if s in ('powspec', 'bispec') else '1'))
        if t:
            for f, idx in (('full', None), ('row', 1), ('row', 0), ('off-diag', 2), ('off-diag', -1), ('off-diag', 0)):
                ex = dict(form=f) if idx is None else dict(form=f, idx=idx)
                J(s, k, axes='', save='.txt', expect=['file_name'], **ex); J(s, k, axes='', via='obj', over='form,idx', expect=['form'], **ex); J(s, k, axes='', via='dict', expect=['core_form'], **ex)
            if s == '3pcf-win': J(s, k, over='wa', axes='', expect=['wide_angle', 'core_wa']); J(s, k, over='wa,degree', via='obj', axes='', expect=['wide_angle', 'core_wa'])
            J(s, k, via='obj', form='row', idx=7, num_bins=9, over='binning,form,idx', axes='')
        J(s, k, axes='', logger=1); J(s, k, axes='', via='obj', logger=1, save='.txt')
        if not q:
            for ax in 'yz': J(s, k, axes=ax, raxes=ax if k == 'survey' else '', via='dict')
            J(s, k, axes='x', nd=3, nr=3, via='dict')
    return c.main()
