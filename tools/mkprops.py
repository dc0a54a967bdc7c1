#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts live)."""
import json, os
S='src/triumvirate/'
P=[]
at=lambda f: f[1:] if f.startswith('/') else S+f
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[at(f) for f in files],
        state=[dict(name=a,meaning=b,where=S+c) for a,b,c in state],
        mechanism=[dict(name=a,where=at(b)) for a,b in mech],
        observe_at=list(observe),hook_needed=None)))

p('C01','Python catalogue: coordinate operations compose exactly',
 'After any sequence of catalogue operations (construct, offset, centre, pad, periodise, assign a column), the particle positions are exactly those given by composing the documented rigid shifts (or wraps into [0, L)), a reference catalogue is moved by exactly the same vector as the catalogue itself, and weights, densities and particle count are untouched. The reported bounds, spans, particle count and (sample/overall) weight sums always describe the data currently held. A request that is rejected leaves both catalogues unchanged.',
 ['inputs','histories'],'for every particle set, every box size and every sequence of operations on a catalogue and an optional reference catalogue',
 'test_catalogue checks single operations on one fixed catalogue; it never composes operations, never uses a reference catalogue of different extent after a prior shift, and never checks rejected requests.',
 ['catalogue.py'],[('offset_coords/centre/pad/periodise','catalogue.py'),('_calc_bounds, total weight refresh','catalogue.py')],
 [('_pdata','particle table','catalogue.py'),('bounds/spans/wtotal/wstotal/ntotal','derived summaries','catalogue.py')],
 ['ParticleCatalogue public attributes and __getitem__'])

p('C02','C++ catalogue: box alignment keeps pairs rigid and inside the box',
 'In the compiled library, centring, padding (by box fraction or by grid cells) and offsetting move every particle of all catalogues involved by one common vector, putting the reference catalogue at the documented place in the box; periodic wrapping changes each coordinate by a whole multiple of the box size into [0, L). Catalogue summaries (extents, spans, particle and weight totals) describe the current particles after every operation.',
 ['inputs','histories'],'for every particle set (data and random of any relative extent), box size, padding, and sequence of alignment operations',
 'the C++ particle code has no test of its own; Python tests reach it only through one or two measurement calls on one catalogue.',
 ['src/particles.cpp','include/particles.hpp'],[('offset_coords, centre_in_box, pad_in_box, pad_grids, offset_coords_for_periodicity','src/particles.cpp'),('calc_pos_extents, calc_total_weights','src/particles.cpp')],
 [('pdata, pos_min/max/span, wtotal, wstotal','particles and summaries','include/particles.hpp')],['public members of the C++ particle catalogue'])

p('C03','Catalogue files load to exactly the particles they contain',
 'Loading a catalogue file yields one particle per data row with each named column read from the position the column list gives it, whatever the column order, extra columns, comments and blank lines, with the documented defaults (unit weights; zero density, or count/volume for the compiled loader) for absent columns and, for several files, the concatenation in order. The Python and compiled loaders agree on the same file. Input lacking a mandatory coordinate column is rejected, never loaded with invented values.',
 ['inputs','configurations'],'for every text catalogue file, column order and subset of optional columns',
 'tests load two fixed files with one column order in Python; the compiled loader is never tested.',
 ['src/particles.cpp','catalogue.py'],[('load_catalogue_file','src/particles.cpp'),('read_from_file','catalogue.py')],
 observe=['C++ catalogue members after load_catalogue_file','Python ParticleCatalogue.read_from_file'])

p('C04','Parameter sets are always coherent and history-independent',
 'A parameter set is either rejected or coherent: every derived setting (mesh assignment order, point order and space of the statistic, shape, interlacing, FFT and normalisation switches, cell counts and volume) is the documented function of the primary settings, whichever route and order of assignments led to them. Invalid combinations (unknown option values, catalogue type incompatible with the statistic, bin count or bin index out of range) are rejected by every route: construction, item assignment, bulk update or file, and a rejected change is not silently treated as valid later.',
 ['configurations','histories'],'for all combinations of option values and all sequences of assignments/updates',
 'tests construct one or two fixed parameter dictionaries and assert a few fields; the combinations and assignment histories are unexplored.',
 ['parameters.pyx','src/parameters.cpp','include/parameters.hpp'],[('_parse_params/_validate','parameters.pyx'),('ParameterSet::validate','src/parameters.cpp')],
 [('_params','Python-side settings','parameters.pyx'),('thisptr','C++-side settings','parameters.pyx')],['ParameterSet item access; C++ public members'])

p('C05','Parameter files and overrides round-trip',
 'A parameter file in the documented key = value format sets exactly the parameters it names, independent of line order, spacing, comments and of keys whose names contain other keys, so that the file of used parameters the program writes, which lists every parameter and derived setting once with its value, when read back gives the same parameter set; the Python save/load pair has the same property. Copies of a parameter set equal the original in every field, and an environment override changes only the parameter it names.',
 ['inputs','configurations'],'for every valid parameter set and every layout of a parameter file',
 'one fixed parameter file per test; no test reads a file back or permutes lines, and the C++ parser is only run by the untested program.',
 ['src/parameters.cpp','parameters.pyx'],[('read_from_file/print_to_file/copy/override','src/parameters.cpp'),('save/load','parameters.pyx')],observe=['C++ ParameterSet public members after reading','Python ParameterSet items()'])

p('C06','Binning schemes partition the range as documented',
 'Every binning has exactly the requested number of bins with contiguous, strictly increasing edges, first/last edge at the documented ends of the range, centre the midpoint and width the difference of its edges, with equal (log-)widths for the linear (logarithmic) scheme and the documented padding bins for the padded ones, half the mesh number of equal bins from zero to half a mesh unit beyond half the mesh for grid-based bins, and the given (ascending) edges for custom bins. This is a function of the current settings only, not of any earlier scheme set on the same object. Out-of-domain requests (too few bins for padding, lower bound zero with logarithmic bins, unknown scheme) are rejected.',
 ['configurations','histories'],'for every space, scheme, range, bin count, mesh and sequence of re-settings',
 'tests cover one lin/log/linpad/logpad/custom configuration each without re-setting.',
 ['dataobjs.pyx','src/dataobjs.cpp'],[('Binning::set_bins overloads','src/dataobjs.cpp')],[('bin_edges/bin_centres/bin_widths','bins','include/dataobjs.hpp')],['Python Binning attributes; C++ public members'])

p('C07','Mesh assignment is an exact periodic B-spline deposit',
 'Assigning weighted particles to a mesh deposits at every grid cell exactly the sum over particles of weight times the B-spline kernel of the chosen order (NGP, CIC, TSC, PCS) divided by cell volume, with periodic wrap-around on all six faces, for the main mesh and, when interlacing, for the half-cell-shifted shadow mesh. Consequently total weight is conserved, the deposit is linear in the weights and independent of particle order, and shifting all particles by whole cells just rolls the mesh. ',
 ['inputs','configurations'],'for every particle position in the box (including faces, cell edges and the last half-cell), weight, mesh size and scheme, interlaced or not',
 'no unit test inspects a mesh; only end-to-end spectra of one large catalogue are compared at loose tolerance.',
 ['src/field.cpp'],[('assign_weighted_field_to_mesh_{ngp,cic,tsc,pcs}','src/field.cpp')],[('field, field_s','mesh and shadow mesh','include/field.hpp')],['public mesh arrays of the field class'])

p('C08','Field transforms: mode labelling, inversion and compensation are exact',
 'Forward transform of a mesh gives at each mesh mode the cell-volume-weighted discrete Fourier sum at that wavevector, inverse transform recovers the mesh, the interlaced combination averages the main and half-cell-shifted meshes with the phase that undoes the shift, and assignment compensation divides by the kernel window of that mode. Density fluctuations subtract exactly the mean (number density times volume fraction or alpha times randoms) so the zero mode vanishes, including with interlacing and weighting by spherical harmonics. Grid cells and modes are labelled by the nearest periodic image for even and odd mesh sizes.',
 ['inputs','configurations'],'for every particle set, mesh size, multipole and interlacing choice',
 'no unit test inspects modes; spectra of one catalogue with even mesh are compared.',
 ['src/field.cpp'],[('fourier_transform, inv_fourier_transform, apply_assignment_compensation, compute_*_field*','src/field.cpp')],observe=['public mesh arrays after each operation'])

p('C09','Mode and separation binning counts every vector exactly once',
 'Binning mesh wavevectors or separations assigns each mesh vector to exactly the bin whose half-open interval [edge_i, edge_i+1) contains its length and to none if out of range; the recorded vectors, per-bin counts and mean coordinates describe the same assignment, are sorted by bin, and agree with the counts and mean coordinates reported by the two-point statistics (whose bin edges are resolved to the library\'s sampling step, 1e-5 in wavenumber and 0.1 in separation). Empty bins are reported with zero count at their bin centre. Two-point statistics are the same whether they transform with plans of their own or with those of the field.',
 ['inputs','configurations'],'for every mesh size, box shape (anisotropic included) and binning',
 'tests compare a few counts on one mesh and one binning.',
 ['src/field.cpp','fieldmesh.py'],[('record_binned_vectors; k-/r-binning loops','src/field.cpp')],observe=['record_binned_vectors result; nmodes/npairs in two-point results'])

p('C10','Two-point Fourier statistics equal the direct mode sum',
 'The measured power-spectrum multipole in each bin is the average over the modes in the bin of the compensated product of the weighted density multipole with the monopole, weighted by the Legendre/spherical-harmonic factor of the line of sight, with shot noise the corresponding weighted particle sum and the result normalised by the documented factor; separate outputs for raw value and shot noise let the user form raw − shot noise. This holds for paired survey-type catalogues with per-particle lines of sight and for global line-of-sight simulation boxes.',
 ['inputs','configurations'],'for every small catalogue, weights, lines of sight, multipole, assignment scheme and binning',
 'tests compare against stored values for one catalogue, computed by the same code.',
 ['src/twopt.cpp','src/field.cpp','twopt.py'],[('compute_powspec, compute_powspec_in_gpp_box, calc_ylm_wgtd_2pt_stats_in_fourier','src/twopt.cpp')],observe=['compute_powspec / compute_powspec_in_gpp_box results'])

p('C11','Two-point configuration-space statistics equal the direct pair sum',
 'The measured two-point correlation (and window) multipole in each bin is the average over mesh separations in the bin of the periodic mesh cross-correlation of the weighted fields with the multipole weighting and with the self-pair (shot noise) contribution removed, normalised by the documented factor; pair counts and mean separations describe the same bins.',
 ['inputs','configurations'],'for every small catalogue, weights, lines of sight, multipole, assignment scheme and binning',
 'tests compare against stored values for one catalogue, computed by the same code.',
 ['src/twopt.cpp','src/field.cpp','twopt.py'],[('compute_corrfunc, compute_corrfunc_in_gpp_box, compute_corrfunc_window','src/twopt.cpp')],observe=['compute_corrfunc* results'])

p('C12','Bispectrum equals the direct triangle sum',
 'The measured bispectrum multipole at each bin pair equals the weighted sum over mesh mode triplets closing to zero, with first and second wavevectors in the two bins and the documented harmonic, coupling and degeneracy weights, divided by mode counts, and with the documented shot-noise terms; values in bins whose coupling vanishes by selection rules are rejected up front. It is independent of which equivalent representation (form) of the bin pairs is requested.',
 ['inputs','configurations'],'for every small catalogue, multipole triple, line-of-sight choice, form and binning',
 'tests compare two multipoles on one catalogue in diagonal form against stored output of the same code.',
 ['src/threept.cpp','src/field.cpp','threept.py'],[('compute_bispec, compute_bispec_in_gpp_box, compute_bispec_for_los_choice','src/threept.cpp')],observe=['compute_bispec* results'])

p('C13','Three-point correlation and window equal the direct triplet sum',
 'The measured three-point correlation (and window) multipole at each separation-bin pair equals the mesh sum over point triplets with the two separations averaged over their spherical shells with the documented harmonic weights, with the self-triplet (shot-noise) contributions removed as documented, normalised by the documented factor, and independent of the requested form.',
 ['inputs','configurations'],'for every small catalogue, multipole triple, form and binning',
 'tests compare one multipole on one catalogue in diagonal form against stored output of the same code.',
 ['src/threept.cpp','src/field.cpp','threept.py'],[('compute_3pcf, compute_3pcf_in_gpp_box, compute_3pcf_window','src/threept.cpp')],observe=['compute_3pcf* results'])

p('C14','All three-point output forms are slices of one table',
 'For the same catalogue and settings, the diagonal, off-diagonal (either sign), row, and triangular forms of any three-point statistic report, entry by entry (coordinates, mode counts, raw values, shot noise), the corresponding entries of the full form, in the documented order and with the documented length; when the two multipole degrees are equal, the full table is symmetric under exchange of the two coordinates.',
 ['inputs','configurations'],'for every statistic, multipole triple, form, index and bin count',
 'tests run diagonal form only (full form never measured).',
 ['src/threept.cpp','threept.py','dataobjs.pyx'],[('shape/index loops','src/threept.cpp'),('shape derivation','src/parameters.cpp')],observe=['threept.py results for each form'])

p('C15','Normalisation factors obey their definitions and scaling laws',
 'Particle-based and mesh-based normalisation factors (two- and three-point, mixed-mesh included) equal the documented weighted sums of the random catalogue (or counts over volume in boxes), so they are independent of particle order, and scale as the documented powers of alpha and of the weights; the shot noise from particles is the sum of squared weights; multiplying all random weights by one constant leaves every normalised survey statistic unchanged. A catalogue without usable densities is rejected instead of yielding a finite normalisation.',
 ['inputs','configurations'],'for every catalogue pair, weights, densities and normalisation convention',
 'one fixed catalogue and convention per test.',
 ['src/twopt.cpp','src/threept.cpp','twopt.py','threept.py'],[('calc_*_normalisation_from_{particles,mesh,meshes}','src/twopt.cpp'),('calc_bispec_normalisation_*','src/threept.cpp')],observe=['normalisation functions; norm in results header'])

p('C16','Measurements are pure functions of their arguments',
 'A measurement through the Python interface depends only on the catalogues, parameters and keyword overrides it is given: repeating it, or interleaving it with other measurements, gives the same results, and the caller\'s parameter set, catalogues, sampling parameters and binning are left untouched; keyword overrides beat parameter-set entries and are recorded in the parameters used; whether a logger is given, and of which kind, changes nothing but the messages, which report the steps that are taken in their order; file output holds exactly the returned arrays, distinct requests (statistic, multipole, form, tag) never share an output file, and loading saved output recovers the results.',
 ['histories','configurations'],'for every sequence of measurement calls with any override and output combination',
 'each test is a single isolated call; file contents and names are not cross-checked between calls.',
 ['twopt.py','threept.py','_twopt.pyx','_threept.pyx'],[('_amalgamate_parameters, _print_measurement_*','twopt.py'),('same','threept.py')],observe=['returned dictionaries, files under measurement_dir'])

p('C17','The command-line program and the Python interface agree',
 'For the same catalogue files and parameters, the stand-alone program and the Python interface produce the same measurement table (bins, counts, raw values, shot noise) for every statistic, catalogue type and form (padded and custom bins being the partition of the range that the program documents); running the program again from the parameters it recorded as used repeats the measurement; paths written with environment variables mean the paths they expand to, relative or absolute alike; an invalid configuration or unreadable input makes the program exit non-zero without producing or altering a measurement file (and an unwritable file of binned vectors makes it exit non-zero too, with the measurement already made left in place).',
 ['configurations','inputs'],'for every statistic type, catalogue type, form, alignment and binning',
 'the program is never executed by the tests.',
 ['main/triumvirate.cpp','src/io.cpp','twopt.py','threept.py'],[('main','main/triumvirate.cpp'),('print_measurement_datatab_to_file','src/io.cpp')],observe=['program exit status and output files'])

p('C18','Memory and object accounting returns to baseline',
 'The library\'s running memory and object counters equal the resources of the objects alive: after any sequence of creating, using, failing and destroying catalogues, fields and statistics they return to their initial values and never go negative, and the recorded maximum is at least every intermediate value.',
 ['histories','fault_sequences'],'for every sequence of object life cycles, including failed loads and repeated finalisation',
 'no test reads the counters.',
 ['src/monitor.cpp','src/field.cpp','src/particles.cpp','src/twopt.cpp','src/threept.cpp'],[('gbytesMem/gbytesMaxMem/count_* updates','src/monitor.cpp')],observe=['public counters of the monitor'])

p('C19','Angular coupling and spherical harmonics are exact',
 'The coupling coefficient of every multipole triple equals the product of degree factors and two Wigner 3-j symbols and vanishes exactly when selection rules say so; the three-point weight terms skipped are exactly the vanishing ones and mirrored terms carry the right sign; spherical harmonics evaluated on mesh directions match their polynomial definition, including at the origin and along axes; the interpolated spherical Bessel functions of any order (and copies of them) match the analytic functions to the documented interpolation accuracy; the gamma function obeys its recurrence and reflection and agrees with its logarithm and ratios.',
 ['inputs','configurations'],'for all degrees and orders up to the supported range and all mesh directions',
 'not tested at all directly; only through one or two multipoles.',
 ['src/maths.cpp','src/threept.cpp','threept.py'],[('calc_coupling_coeff_3pt, validate_multipole_coupling','src/threept.cpp'),('SphericalHarmonicCalculator','src/maths.cpp')],observe=['public maths and coupling functions'])

p('C20','Array extrapolation and reshaping preserve the given samples',
 'Extrapolating a one- or two-dimensional sample array adds exactly the requested number of samples at each end (per axis) following the documented rule — constant edge padding, linear, log-linear, oscillation-preserving or constant — while the original samples stay in place and unchanged; linear (log-linear) input is continued exactly. Flattened three-point tables reshape to the matrix whose entries are the table entries, symmetric when the table is triangular. The checks arrays undergo (shape, order, signs at the ends, linear and logarithmic spacing) pass exactly the arrays they describe.',
 ['inputs'],'for every array length, extension (equal or different per axis) and rule',
 'extrapolation helpers are exercised on one smooth array per kind.',
 ['_arrayops.py','src/arrayops.cpp'],[('extrap_*, extrap2d_*, reshape_threept_datatab','_arrayops.py'),('extrap_*','src/arrayops.cpp')],observe=['helper results; transform outputs with extrapolation'])

p('C21','Hankel-type transforms are linear, pure and mutually inverse',
 'Spherical-Bessel and double spherical-Bessel transforms are linear in their input, never modify the arrays they are given, return the documented number of log-spaced output samples reciprocal to the input samples, and transforming forward then backward returns the input with the documented parity factors and volume factors for each multipole degree. Self-reciprocal analytic pairs are reproduced, with any extrapolation option, order of calls and reuse of a transform object.',
 ['inputs','histories','configurations'],'for every multipole, bias, pivot, sample count, extrapolation option and sequence of transforms',
 'tests transform a few analytic functions once each; reuse, mutation, composition and extrapolation variants are not explored.',
 ['transforms.py','_fftlog.pyx','src/fftlog.cpp'],[('SphericalBesselTransform, DoubleSphericalBesselTransform, transform_cosmo_multipoles, resample_*','transforms.py'),('HankelTransform','src/fftlog.cpp')],observe=['public transform classes and functions'])

p('C22','Window-convolution formulae have exact coefficients and a total order',
 'Named window-convolution formulae consist of exactly the terms (window multipole, unwindowed multipole, coefficient) given by the published expressions, with multipoles collected without duplicates and sorted in one consistent total order in which equality, ordering and hashing of multipoles agree whatever notation they were written in. User-defined formulae given in any accepted notation are equivalent.',
 ['inputs','configurations'],'for all multipole indices and notations and all formula entries',
 'tests check construction of a few multipoles and print formulae; the coefficients and ordering are not verified.',
 ['winconv.py'],[('Multipole, WinConvTerm, WinConvFormulae, NAMED_FORMULAE, calc_threept_winconv_coeff','winconv.py')],observe=['public winconv classes'])

p('C23','Three-point window tables keep their meaning under every operation',
 'A three-point window object built from flattened or matrix data, sub-selected by index or range, resampled or saved and reloaded holds for each multipole the matrix entries of the source at exactly the selected separations (symmetric when triangular input is used), with the separations themselves consistent; operations with inplace disabled leave the original untouched.',
 ['histories','inputs'],'for every table, multipole set and sequence of selection/resampling/save/load operations',
 'tests construct one window and call one selection.',
 ['winconv.py'],[('ThreePointWindow','winconv.py')],observe=['ThreePointWindow attributes'])

p('C24','Window convolution is the linear operator its formula defines',
 'Convolving model multipoles with a window gives, in configuration space, the sum over formula terms of coefficient times window times model multipole (less the integral constraint where configured), is linear in the model, agrees with the generated window-convolution matrix applied to the stacked model vector, and is independent of how inputs are keyed or how many processes the matrix generation is split over; every matrix row/column is computed exactly once.',
 ['inputs','configurations','schedules'],'for every formula, window, model vector and process count',
 'tests do one convolution with trivial input each; matrix generation is not tested, nor is process distribution.',
 ['winconv.py','_mpitools.py'],[('TwoPCFWinConv, ThreePCFWinConv, PowspecWinConv, BispecWinConv, gen_winconv_mat','winconv.py'),('allocate_tasks/distribute_tasks','_mpitools.py')],observe=['convolve(), convolve_ic(), gen_winconv_mat()'])

p('C25','Companion tools transform files as documented and lose nothing',
 'Exchanging the coordinate axes of a three-point measurement file swaps degrees, columns and row order in the new file and nothing else, is undone by exchanging again, and leaves the source alone; it agrees with measuring the exchanged multipole. Combining measurements stacks, for every realisation common to all components and in order of serial number, the components in the order asked for, and refuses unequal sets of realisations. Deriving a parameter file from a template changes exactly the named parameters to the values given (with the type of the template) and leaves every other line, warning about parameters the template lacks. The listed window-convolution terms are exactly the non-vanishing ones of the formula. No tool ever changes a file other than its output.',
 ['inputs','histories','configurations'],'for every measurement file, set of realisations, template and list of changes',
 'the tools under apps/ are not run by the tests at all.',
 ['/apps/io','/apps/calculators'],[('exchange_coord_axes','/apps/io/exchange_coord_axes.py'),('comb_data_vectors','/apps/io/comb_data_vectors.py'),('gen_param_file','/apps/io/gen_param_file.py'),('gen_wc_coeffs','/apps/calculators/gen_wc_coeffs.py')],observe=['files written by the tools, their output'])

p('C26','Messages and progress are shown exactly as asked, and never change results',
 'A logger shows a message exactly when its level is at or above the limit set last, once, with its type and arguments; warnings of Python come through the package logger whatever their text or file. A progress bar is shown exactly when a node has been reached or passed since it was shown last (percentages by default, or the interval or nodes given), with the matching percentage and length, never beyond its nodes, and ends its line on completion; bad counts, widths, nodes, tasks and intervals are refused. Every bar of a three-point measurement belongs to one component that counts, its percentages rise and end at 100, for every form and multipole; showing bars does not change a single bit of what is measured, and nothing below the verbosity is logged. Splitting, joining, extensions, clock times and environment variables in paths are treated exactly.',
 ['inputs','histories','configurations'],'for every sequence of messages, levels and progress updates, and every three-point measurement',
 'the tests never run the progress bar or inspect any message.',
 ['src/monitor.cpp','include/monitor.hpp','src/threept.cpp','logger.py'],[('Logger, ProgressBar, split_string, join_strings, expand_envar_in_path','src/monitor.cpp'),('component loops','src/threept.cpp'),('setup_logger','logger.py')],observe=['standard output','results of measurements'])

p('C27','Transform planning and wisdom never show in results and leave one usable file per mesh and direction',
 'Measuring with any planner scheme, with or without a directory of FFTW wisdom, gives the results of the plain estimate. After a measurement with wisdom, the forward and backward files of its mesh are in the directory (for every mesh measured by the process, not only the first), new ones suffice to plan that mesh again, existing ones, even unusable ones, are left as they are (unless planning takes over a second in spite of them), no other file is touched and no file stays open; the program creates the directory, the Python package does not. Wisdom with the estimate scheme is refused before anything happens.',
 ['histories','configurations','faults'],'for every history of processes, measurements, meshes, schemes and directories',
 'the tests run one scheme without wisdom.',
 ['src/field.cpp','src/parameters.cpp','include/monitor.hpp','main/triumvirate.cpp'],[('MeshField::MeshField','src/field.cpp'),('ParameterSet::validate','src/parameters.cpp')],observe=['files of the wisdom directory','results of measurements'])

p('C28','Results do not depend on the number of threads or on their schedule',
 'Whatever the number of OpenMP threads and the way they interleave, every parallel computation (catalogue totals and extents, shifts, mesh assignment in every scheme with and without interlacing, weighted fields, transforms, band-limited and Bessel-weighted transforms, compensations, binned two-point statistics, mode and pair counts, shot-noise terms, recorded binned vectors as a set, normalisations, and the full two- and three-point statistics in every form) gives the single-threaded result up to the rounding of the order of additions: no contribution is lost, counted twice or mixed with that of another thread.',
 ['inputs','configurations','schedules'],'for every catalogue, configuration, thread count and interleaving',
 'the tests run tiny inputs whose loops hardly overlap, and compare loosely.',
 ['src/field.cpp','src/twopt.cpp','src/threept.cpp','src/particles.cpp','src/maths.cpp','src/arrayops.cpp','include/monitor.hpp'],[('MeshField::assign_weighted_field_to_mesh','src/field.cpp'),('FieldStats::compute_ylm_wgtd_2pt_stats_in_fourier','src/field.cpp'),('compute_bispec','src/threept.cpp'),('ParticleCatalogue::calc_pos_extents','src/particles.cpp')],observe=['results of library calls at different thread counts'])

os.makedirs('/verif',exist_ok=True)
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
