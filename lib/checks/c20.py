from vlib import Check
def main(tier, seed):
    c = Check('C20', tier, seed, 'model_checking',
        ['trv::io::print_measurement_header_to_file (both overloads)', 'print_measurement_datatab_to_file (power spectrum, 2PCF, 2PCF window, bispectrum, 3PCF, 3PCF window)', 'print_binned_vectors_to_file', 'trv::sys::make_write_dir, if_filepath_is_set'],
        ['0, 1 and 3 rows; every column value symbolic (in [-1000,1000], [1e-6,2e-6] or [1e9,2e9]); counts up to 2e9', 'degrees (ELL, ell1, ell2) from four triples with distinct labels', 'headers: catalogue sizes, weights, extents, box and the three normalisation factors symbolic; one or two catalogues; each normalisation convention', 'the text layout around the numbers (padding, wording of comments) is not part of the claim beyond labels and order', 'file-name and directory helpers on eleven path shapes, inside a scratch directory'],
        ['number-to-text conversion exact in the model; replays and solver-chosen runs read the real text back (relative 1e-9 in tables, 6e-4 absolute in headers)', 'double arithmetic modelled as exact reals'])
    H = ['data_source', 'data_ntotal', 'data_wtotal', 'data_wstotal', 'data_extent', 'rand_extent', 'rand_wstotal']; X = ['box', 'mesh', 'alignment', 'assignment', 'norm', 'norm_words', 'alternative', 'alternatives_words', 'comment']
    J = lambda **k: c.job('c20_print', budget=200, traces=4, **k)
    for i, nc in enumerate(('none', 'particle', 'mesh', 'mesh-mixed')):
        J(op='header', norm=nc, expect=H + X, alignment='centre' if i % 2 else 'pad', interlace='false' if i % 2 else 'true'); J(op='header', both=0, norm=nc, expect=['cat_source', 'cat_ntotal', 'cat_wtotal', 'cat_wstotal', 'cat_extent'] + X, assignment=('ngp', 'cic', 'tsc', 'pcs')[i])
    for op in ('powspec', '2pcf', '2pcf-win', 'bispec', '3pcf', '3pcf-win'):
        T = ['value', 'columns', 'column_present', 'column_number', 'rows', 'row_length']
        J(op=op, n=3, expect=T); J(op=op, n=1, ELL=4, ell1=2, ell2=0, expect=T); J(op=op, n=0, ELL=0, ell1=0, ell2=1, expect=['columns', 'rows', 'column_present'])
        J(op=op, n=2, ELL=1, ell1=3, ell2=2, lo='1/1000000', hi='2/1000000', expect=T); J(op=op, n=2, lo='1000000000', hi='2000000000', expect=T)
        if tier == 'thorough': J(op=op, n=8, ELL=3, ell1=1, ell2=4, expect=T); J(op=op, n=4, ELL=10, ell1=0, ell2=10, lo='-1/1000000000', hi='1/1000000000', expect=T)
    V = ['value', 'columns', 'rows', 'count', 'bins', 'box', 'mesh']
    J(op='vectors', n=3, bins=5, expect=V); J(op='vectors', n=1, bins=1, expect=V); J(op='vectors', n=0, expect=['columns', 'rows', 'count']); J(op='vectors', n=2, lo='1/1000000', hi='2/1000000', expect=V)
    J(op='paths', expect=['set', 'unset', 'made', 'failure_reported'])
    return c.main()
