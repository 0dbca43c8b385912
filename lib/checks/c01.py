from vlib import Check
def main(tier, seed):
    c = Check('C01', tier, seed, 'model_checking',
        ['trv::MeshField::assign_weighted_field_to_mesh{,_ngp,_cic,_tsc,_pcs}', 'trv::MeshField::reset_density_field', 'trv::MeshField::ret_grid_index'],
        ['mesh 4x5x6 (thorough also 4x4x4, 7x5x4, 6x4x8)', '2 particles: one with all three coordinates symbolic over the whole box [0,L)^3, one fixed; complex weights of both symbolic in [-8,8]^2',
         'all four schemes, with and without interlacing'],
        ['double arithmetic modelled as exact reals (rounding outside the claim)', 'serial execution'])
    meshes = [dict(nx=4, ny=5, nz=6, lx=4, ly=10, lz=3)]
    if tier == 'thorough': meshes += [dict(nx=4, ny=4, nz=4, lx=2, ly=4, lz=8), dict(nx=7, ny=5, nz=4, lx=7, ly=10, lz=2)]
    for m in meshes:
        for s in ('pcs', 'tsc', 'cic', 'ngp'):
            for il in (1, 0):
                c.job('c01_mesh', budget=700, traces=6, expect=['cell.re', 'total.re'] + (['shadow-cell.re'] if il else []), scheme=s, il=il, **m)
    return c.main()
