import json
P=[]
def p(id,title,statement,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=['src/triumvirate/'+f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech])))
I=['inputs']; IC=['inputs','configurations']
p('C01','Mesh assignment deposits each particle with the exact periodic kernel',
 'For every particle position inside the box and every weight, each assignment scheme (NGP, CIC, TSC, PCS), with or without interlacing, gives every mesh cell exactly the value of the corresponding B-spline kernel wrapped periodically, divided by the cell volume, and the interlaced mesh gets the kernel at the half-cell-shifted position. Total weight is conserved, no memory outside the mesh is touched, and nothing is left over from an earlier assignment.',
 IC,'all particle coordinates in [0,L)^3, all complex weights, all four schemes, both interlacing states, anisotropic meshes and boxes',
 'Tests assign nothing or a handful of random particles and never compare cell values; boundary cells (wrap-around, half-grid ties) are measure-zero for random data.',
 ['src/field.cpp','include/field.hpp'],[('assign_weighted_field_to_mesh and its four scheme variants','src/triumvirate/src/field.cpp')])
p('C02','Mesh Fourier transforms: normalisation, wavevectors and inversion',
 'The forward transform of a mesh field is the discrete Fourier sum times the cell volume and the inverse transform is the inverse sum divided by the box volume, so that forward then inverse returns the original field; every mesh index maps to the signed wavevector or separation vector of the periodic grid. Interlaced transforms average the two meshes with the half-cell phase for that wavevector, and window compensation divides each mode by the assignment kernel for that wavevector.',
 IC,'all complex mesh values, all mesh indices, even and odd anisotropic meshes, all schemes and both interlacing states',
 'Tests never look at a transformed mesh; one mis-signed Nyquist or odd-mesh index disappears in binned sums compared to loose tolerances.',
 ['src/field.cpp'],[('fourier_transform, inv_fourier_transform, apply_assignment_compensation, grid vector helpers','src/triumvirate/src/field.cpp')])
p('C03','Catalogue fields: fluctuations and harmonic weighting are assembled exactly',
 'The density fluctuation, weighted density and quadratic (shot-noise) mesh fields built from data and random catalogues equal, cell by cell, the sum over data of weights times reduced spherical harmonic of the line of sight, plus or minus alpha times the same sum over randoms (alpha squared for quadratic fields), for the main mesh and the interlaced mesh alike. Box (unweighted) fluctuation fields equal the number density minus its mean on both meshes.',
 IC,'all particle weights, lines of sight, alpha values, multipoles (L,M) in range, both interlacing states',
 'Tests only compare end-to-end statistics at a fixed catalogue with interlacing off.',
 ['src/field.cpp'],[('compute_ylm_wgtd_field, compute_ylm_wgtd_quad_field, compute_unweighted_field, compute_unweighted_field_fluctuations_insitu','src/triumvirate/src/field.cpp')])
p('C04','Band-limited harmonic inverse transforms and spherical-Bessel fields are exact',
 'The field obtained by inverse transforming within a wavenumber band is the mean over exactly the modes of that band (lower edge included, upper excluded) of mode value times reduced spherical harmonic times the plane wave, together with the band-averaged wavenumber and mode count. The spherical-Bessel-weighted field at a separation is the inverse transform of the mode values weighted by spherical harmonic and spherical Bessel function.',
 IC,'all complex mode values, all band edges, multipoles in range, even and odd meshes',
 'Tests never inspect these meshes; band-edge membership is a measure-zero event for random edges.',
 ['src/field.cpp'],[('inv_fourier_transform_ylm_wgtd_field_band_limited, inv_fourier_transform_sjl_ylm_wgtd_field','src/triumvirate/src/field.cpp')])
p('C05','Binning schemes produce ordered, gap-free, correctly centred bins',
 'For every valid range and bin number, each scheme (linear, logarithmic, their padded variants, grid-based, custom) gives exactly the requested number of bins with strictly increasing contiguous edges from the first to the last requested limit (padded schemes start from zero with five bins of the padding width), centres at the mean of their two edges and widths equal to edge differences, whatever bins were set before. Bins are equally spaced, or in equal ratio, beyond the padding as the scheme says; a negative lower limit, a non-positive bin number, a logarithmic range from zero and an unknown scheme are rejected.',
 IC,'all range limits, bin numbers, schemes, spaces and box/mesh dimensions',
 'Tests check one or two fixed ranges.',
 ['src/dataobjs.cpp','dataobjs.pyx'],[('Binning::set_bins, set_grid_based_bins, set_bins(custom), copying','src/triumvirate/src/dataobjs.cpp')])
p('C06','Two-point binned statistics count every mode and pair once in the right bin',
 'The binned power, shot noise, mode count and effective wavenumber (and their separation-space counterparts) equal the averages over exactly those mesh modes or separations whose magnitude lies in the bin (lower edge included, upper excluded), weighted by the spherical harmonic of that vector and corrected for mesh assignment (a bin edge is resolved to the documented fine-sampling step). Empty bins report the bin centre and zeros, every effective coordinate lies inside its bin, and fields on incompatible meshes are rejected.',
 IC,'all complex mesh values of both input fields, all bin edges, multipoles, even and odd anisotropic meshes',
 'Tests compare a single catalogue; an off-by-one at a bin edge or a double-counted Nyquist mode needs an edge exactly at a mode magnitude.',
 ['src/field.cpp'],[('FieldStats::compute_ylm_wgtd_2pt_stats_in_fourier, compute_ylm_wgtd_2pt_stats_in_config, compute_uncoupled_shotnoise_for_3pcf, compute_shotnoise_aliasing','src/triumvirate/src/field.cpp')])
p('C07','Binned-vector records list every mesh vector of every bin exactly once',
 'The record of binned vectors contains, for each bin, exactly the mesh wavevectors or separation vectors whose magnitude lies in that bin, each once with its components and its bin edges, ordered by bin. Saving the record writes the same list.',
 IC,'all bin edges and mesh shapes within the bounds',
 'One fixed mesh is exercised by tests.',
 ['src/field.cpp','src/dataobjs.cpp'],[('FieldStats::record_binned_vectors','src/triumvirate/src/field.cpp')])
p('C08','Two-point estimators assemble multipoles with the right weights and scale',
 'The two-point statistics returned for catalogues (power spectrum, correlation function, their box versions and the window correlation function) equal the direct evaluation of the estimator definition from the mesh fields and particle sums: (2l+1) times the sum over m of monopole field times harmonic field, with shot noise from the particle weights and alpha. Swapping in rescaled weights changes raw results quadratically and leaves the normalised result unchanged.',
 IC,'all particle weights, alpha values, degrees, estimator kinds within the bounds',
 'Tests compare with stored numbers for one catalogue.',
 ['src/twopt.cpp'],[('compute_powspec, compute_corrfunc, compute_powspec_in_gpp_box, compute_corrfunc_in_gpp_box, compute_corrfunc_window, calc_ylm_wgtd_shotnoise_amp_for_powspec','src/triumvirate/src/twopt.cpp')])
p('C09','Three-point statistics have consistent layouts and values across forms',
 'The diagonal, off-diagonal, row, full and upper-triangular forms of a three-point statistic report the same value for the same pair of bins, each pair exactly once, with its coordinates, mode counts and shot noise in the matching slots, and no access outside the result arrays. Each value equals the direct evaluation of the three-point estimator from the mesh fields.',
 IC,'all particle weights, multipole degrees, forms, row indices and offsets, bin numbers within the bounds',
 'Tests exercise a single form and a single index per statistic.',
 ['src/threept.cpp'],[('compute_bispec, compute_3pcf, compute_bispec_in_gpp_box, compute_3pcf_in_gpp_box, compute_3pcf_window','src/triumvirate/src/threept.cpp')])
p('C10','Normalisation factors follow their definitions and leave inputs untouched',
 'The particle-based and mesh-based (including mixed data-random mesh) normalisation factors equal the reciprocals of their defining sums over particle weights and number densities or over mesh cells, for two-point and three-point statistics alike, and scale by the inverse square or inverse cube of a common rescaling of the weights; particle-based factors whose defining sum vanishes are rejected with an error. Computing them leaves particle weights, extents and (up to rounding) positions as they were, and the parameter set of the caller unchanged.',
 IC,'all particle weights, number densities, alpha values and positions',
 'Tests call them once with fixed weights.',
 ['src/twopt.cpp','src/threept.cpp'],[('calc_powspec_normalisation_from_particles/_mesh/_meshes, calc_bispec_normalisation_from_particles/_mesh','src/triumvirate/src/twopt.cpp, threept.cpp')])
p('C11','Core catalogue placement operations keep geometry intact',
 'Offsetting, centring, padding (by box fraction or grid cells) and periodic wrapping of the core particle catalogues translate all coordinates of one catalogue by one common vector (modulo the box when periodic), so that pair separations, weights and, for data-random pairs, their relative displacement are preserved. The resulting minimum or midpoint lands where the operation promises, wrapped coordinates lie in [0, L), and reported extents are the exact coordinate minima and maxima.',
 I,'all particle coordinates, box sizes, pad factors',
 'Tests use a three-particle catalogue at fixed positions.',
 ['src/particles.cpp'],[('ParticleCatalogue::offset_coords, offset_coords_for_periodicity, centre_in_box, pad_in_box, pad_grids, calc_pos_extents','src/triumvirate/src/particles.cpp')])
p('C12','Python catalogue placement, periodicity and line-of-sight operations are exact',
 'The Python catalogue operations (centring, padding by box fraction or grid, periodic wrapping, offsetting, extents and lines of sight) translate every particle by one common vector, applied to a reference catalogue by the same vector, land the extent where promised, wrap into [0, L) and give unit lines of sight along the positions. Weight columns not supplied default to one and any derived total equals its factors.',
 I,'all particle coordinates, box sizes and pad factors, single and paired catalogues',
 'Tests use one small catalogue with fixed numbers.',
 ['catalogue.py'],[('ParticleCatalogue.centre, pad, periodise, offset_coords, compute_los, compute_mean_density, bounds','src/triumvirate/catalogue.py')])
p('C13','Catalogue files load into the right columns with the documented defaults',
 'Loading a catalogue file assigns each named column to its particle attribute whatever the column order, skips comment and blank lines, uses the documented defaults (unit weights, density from count over volume) for absent columns, multiplies weights into the total weight, and accumulates totals over several files in order. Position columns that are missing are rejected.',
 ['inputs','configurations'],'all numeric column values and column orders within the bounds',
 'Tests read one file with one column order.',
 ['src/particles.cpp'],[('ParticleCatalogue::load_catalogue_file, load_particle_data, calc_total_weights','src/triumvirate/src/particles.cpp')])
p('C14','Parameter sets are validated, derived consistently and copied completely',
 'Validating a parameter set accepts exactly the documented combinations, rejects the others with an error, is idempotent, and derives the dependent values (volume, mesh number, assignment order, space, form, output names) from the inputs, with the mesh from a cutoff resolving that cutoff. Copying a parameter set reproduces every parameter, and reading a parameter file assigns each key its own value regardless of order, comments or keys sharing a substring.',
 ['inputs','configurations'],'all box sizes, cutoffs, mesh numbers, bin ranges and string options within the bounds',
 'Tests try a few valid files.',
 ['src/parameters.cpp','include/parameters.hpp'],[('ParameterSet copy constructor, read_from_file, validate','src/triumvirate/src/parameters.cpp')])
p('C15','Extrapolation and padding reproduce the samples and the claimed law',
 'Each one- and two-dimensional extrapolation (constant, zero, linear, log-linear, oscillation-preserving, padding) keeps the original samples unchanged in the middle, adds exactly the requested number of points on each side, and continues the linear or log-linear law of the end points on each side and axis, in the Python and the core implementation. Inputs violating the documented ordering, sign or spacing requirements are rejected, others accepted.',
 I,'all sample values, array lengths and extension sizes within the bounds',
 'Tests use one array with one extension size, often symmetric so that swapped sides or axes cannot show.',
 ['_arrayops.py','src/arrayops.cpp'],[('extrap_*, extrap2d_*, _check_1d_array, _check_2d_array','src/triumvirate/_arrayops.py'),('extrapolate_* functions','src/triumvirate/src/arrayops.cpp')])
p('C16','Hankel transforms are linear, correctly paired and leave inputs unchanged',
 'The logarithmic Hankel and spherical-Bessel transforms map sample k of an input to the output sample at the reciprocal coordinate through the pivot, apply the exact kernel multiplier to each harmonic with real output for real input, are linear, and undo each other when forward and backward are applied with the same settings. Input arrays are not modified, repeated use of one plan gives the same answer, and extrapolation never reads outside its arrays. Resampling returns evenly (or log-evenly) spaced points over the original range, with the requested number of points in each dimension and the interpolated samples at them.',
 IC,'all sample values, orders, biases and pivots within the bounds, with each extrapolation option',
 'Tests compare one analytic pair.',
 ['src/fftlog.cpp','transforms.py','_fftlog.pyx'],[('HankelTransform, SphericalBesselTransform','src/triumvirate/src/fftlog.cpp, transforms.py')])
p('C17','Spherical harmonics and coupling coefficients follow one convention',
 'The reduced spherical harmonic evaluated for any nonzero direction equals the documented Legendre-phase form, satisfies conjugation, parity and addition identities, is independent of vector length, and equals the tabulated mesh values on every mode and separation. Coupling coefficients equal the documented product of Wigner symbols and vanish unless the selection rules hold.',
 IC,'all vectors, degrees and orders within the bounds',
 'Tests do not touch individual harmonics.',
 ['src/maths.cpp','src/threept.cpp'],[('SphericalHarmonicCalculator, wigner_3j, calc_coupling_coeff_3pt','src/triumvirate/src/maths.cpp, threept.cpp')])
p('C18','Window convolution applies the exact linear combination of window multipoles',
 'The convolved multipoles returned by the window-convolution classes equal the sum over formula terms of coefficient times window multipole times unwindowed multipole, are linear in the input and reproduce the input for a unit window, and integral-constraint terms use the same coefficients. Multipole labels are ordered totally and consistently, parse from any documented spelling, and the parallel task split covers every task exactly once.',
 IC,'all multipole values, window values, coefficients, label pairs and task/process counts within the bounds',
 'Tests check the parsing of a few labels.',
 ['winconv.py','_mpitools.py'],[('Multipole, WinConvTerm, WinConvFormulae, ThreePointWindow, TwoPCFWinConv, ThreePCFWinConv','src/triumvirate/winconv.py'),('distribute_tasks and helpers','src/triumvirate/_mpitools.py')])
p('C19','Three-point table reshaping is an exact round trip',
 'Reshaping a flattened three-point measurement into a matrix places each value at the row and column of its coordinate pair, mirrors it for upper-triangular input, returns the common coordinates in order, and flattening the matrix again returns the input. Inputs whose length is not that of a full or triangular grid, of unequal lengths, or with unknown shape names are rejected.',
 I,'all multipole values and coordinate arrays within the bounds',
 'Tests use one 2- or 3-bin table.',
 ['_arrayops.py'],[('reshape_threept_datatab','src/triumvirate/_arrayops.py')])
p('C20','Output files report the measured values in labelled columns',
 'The files written for two-point and three-point measurements list one row per bin (or bin pair) in the order of the result arrays, with each column holding the quantity its header names, and the header reporting the catalogue counts, weights and extents, the box and mesh, and the normalisation factor of the chosen convention beside the alternatives. Output directories are created as needed, and a failure to create one is reported.',
 ['inputs','configurations'],'all measurement values and output layouts within the bounds',
 'No test parses an output table.',
 ['src/io.cpp'],[('print_measurement_header_to_file, print_measurement_datatab_to_file','src/triumvirate/src/io.cpp')])
p('C21','Parallel loops give the serial result under every thread schedule',
 'In every parallel region of the core, no two iterations (or threads) access the same memory location with one of them writing, unless through a reduction, atomic or private copy, so that results do not depend on the number of threads or the schedule.',
 ['schedules','inputs'],'all assignments of loop iterations to threads and all input values within the bounds',
 'A race needs a particular interleaving; tests run on tiny meshes and compare loosely.',
 ['src/field.cpp','src/particles.cpp','src/twopt.cpp','src/threept.cpp','src/maths.cpp'],[('OpenMP regions','src/triumvirate/src/*.cpp')])
p('C22','Resource accounting balances and failed calls release what they took',
 'Creating, using and destroying mesh fields, statistics objects and catalogues in any order leaves the reported memory and the real, complex and total mesh counts where they started, with every mesh array and transform plan freed; in between they equal what the live objects hold, and the reported maxima are the largest simultaneous totals. A measurement driver, or a call that fails on rejected data or parameters, restores the counts it found. No object is read after release.',
 ['histories','configurations'],'all construction, copy and destruction sequences within the bounds',
 'Tests never look at the counters.',
 ['src/monitor.cpp','src/field.cpp','src/particles.cpp'],[('update_maxmem, gbytesMem, count_grid, count_cgrid','src/triumvirate/src/monitor.cpp')])
p('C23','Python measurement functions hand the core exactly what was asked for',
 'For every catalogue, keyword override, parameter dictionary or ParameterSet, each Python measurement function calls the matching core routine exactly once, with: the catalogues aligned, padded or wrapped as documented and weights unchanged; lines of sight as given, or computed from the original positions; the settings (box, mesh, padding, assignment, interlacing, degrees, binning, form, wide-angle orders) as overridden, on both the Python object and the core parameter set; box size and mesh numbers derived as documented when unset; the ratio of total systematic weights as the weight contrast (one for a single catalogue); and the normalisation factor of the chosen convention. The results are returned unaltered, and are saved under the documented file name with matching values, column formats, column names and header. Valid settings and a standard logger are accepted.',
 IC,'all particle coordinates, weights, lines of sight, box sizes, expansion and padding factors, bin limits and core results; the combinations of statistic, catalogue kind, way of giving settings, overrides, conventions, forms and saved formats',
 'Tests call a few measurement functions with one fixed parameter set on fixed catalogues and compare with stored numbers; overrides, padding, derived meshes, saved headers and most catalogue kinds are not crossed.',
 ['twopt.py','threept.py','parameters.pyx','catalogue.py'],[('_amalgamate_parameters, _compute_2pt_stats_survey_like, _compute_2pt_stats_sim_like, compute_corrfunc_window','src/triumvirate/twopt.py'),('_compute_3pt_stats_survey_like, _compute_3pt_stats_sim_like, compute_3pcf_window','src/triumvirate/threept.py'),('ParameterSet and the override helpers','src/triumvirate/parameters.pyx')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P)); print(len(P),[ (x['id'],len(x['title'])) for x in P if len(x['title'])>80])
