from vlib import Check
def main(tier, seed):
    c = Check('C07', tier, seed, 'model_checking',
        ['trv::FieldStats::record_binned_vectors', 'trv::array::get_sorted_indices', 'trv::io::print_binned_vectors_to_file', 'trv::Binning::set_bins'],
        ['meshes of 2-6 cells per axis, even, odd and anisotropic; box sizes concrete', 'up to three bin edges (or the two limits of a linear, logarithmic or padded scheme) symbolic over ranges from below the smallest to beyond the largest mesh vector; 1-9 bins', 'both spaces, repeated recording, with and without the saved file'],
        ['double arithmetic modelled as exact reals (edges exactly equal to an irrational magnitude are decided exactly)', 'serial execution (see C21 for schedules)', 'printed numbers read back exactly; print precision is checked on the replayed native witnesses'])
    E = ['complete', 'count', 'each-once', 'vx', 'lower-edge', 'ordered-by-bin']; F = E + ['file-value', 'file-rows', 'file-columns', 'file-count-header']
    def J(expect=E, **k): c.job('c07_vectors', budget=700, traces=3, expect=F if k.get('save') else E, **k)
    J(nx=4, ny=3, nz=2, lx=4, ly=5, lz=6, edges='0:1,1.5:20', save=1)
    J(nx=5, ny=4, nz=3, l=5, edges='0:1,2:3', bins='lin', nb=3, twice=1)
    J(nx=3, ny=4, nz=3, l=5, edges='0.5:1,2:6', bins='log', nb=3)
    J(nx=3, ny=4, nz=5, lx=5, ly=4, lz=3, space='config', edges='0:1,1:4,4:10')
    J(nx=6, ny=5, nz=4, lx=6, ly=5, lz=8, space='config', edges='0,0.5:1.1,3:3.2', save=1, twice=1)
    J(nx=5, ny=5, nz=5, l=10, space='config', edges='1.5:4.5,4.6:9.5')
    J(nx=2, ny=6, nz=3, lx=8, ly=6, lz=4, edges='0.2:1.2,1.3,2:4,5', save=1)
    J(nx=6, ny=6, nz=6, l=6, edges='0.8:2.1,2.5')
    J(nx=4, ny=4, nz=3, l=200, space='config', edges='0,260:400', bins='linpad', nb=7)
    J(nx=3, ny=3, nz=4, l=20, edges='0,1.6:4', bins='linpad', nb=7, save=1)
    J(nx=4, ny=2, nz=5, lx=3, ly=9, lz=5, space='config', edges='0.25:1,2:3.5', bins='log', nb=2)
    if tier == 'thorough':
        for sp in ('fourier', 'config'):
            for n in ((7, 6, 5), (8, 3, 2), (2, 2, 9), (3, 7, 4)): J(nx=n[0], ny=n[1], nz=n[2], lx=7, ly=6, lz=5, space=sp, edges='0:3,3:12', save=1); J(nx=n[0], ny=n[1], nz=n[2], l=6, space=sp, edges='0.1:1,2:5', bins='log', nb=4, twice=1); J(nx=n[0], ny=n[1], nz=n[2], l=6, space=sp, edges='0:1,2:5', bins='lin', nb=4)
    return c.main()
