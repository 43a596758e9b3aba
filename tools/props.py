#!/usr/bin/env python3
"""source of properties.jsonl (run by hand)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = 'longitudinal_tomography/'
P = []


def p(id, title, statement, over, text, tests, files, mech, observe=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': tests,
              'anchors': {'files': [L + f for f in files],
                          'mechanism': [{'name': a, 'where': L + b} for a, b in mech],
                          'observe_at': observe or []}})


p('P01', 'Tracking is reversible: all frames lie on one orbit',
  'Tracking a particle backwards undoes tracking it forwards. Kick and drift of one turn downwards restore exactly what the ones upwards changed '
  '(over the reals), and whichever frame a distribution is given at, also a number of turns off a frame, the coordinates reported for '
  'the frames before and after it are one orbit: starting again from the coordinates reported for any other frame gives the same '
  'coordinates in every frame. This holds for the compiled routine in both precisions and with constant or turn-dependent phase difference, '
  'for the turn-by-turn routine, and for tracking with self-fields (the self-field kick is undone by the voltage of the same frame interval and '
  'bin).',
  ['inputs', 'configurations'],
  'all coordinates, voltages, phases, coefficients per turn; start frames and turn offsets (frames and turns per frame within the bound)',
  'The tests track one distribution and compare stored rows; no test goes back from what was reached, and the coefficients of the test '
  'machines hardly vary from turn to turn, so that a wrong turn index stays within the tolerance.',
  ['cpp_routines/kick_and_drift.cpp', 'cpp_routines/libtomo.cpp', 'tracking/tracking.py'],
  [('kick_and_drift, kick_up/down, drift_up/down', 'cpp_routines/kick_and_drift.cpp'),
   ('Tracking.kick_and_drift, kick_and_drift_self', 'tracking/tracking.py')],
  ['xp, yp of kick_and_drift', 'result of Tracking.kick_and_drift / kick_and_drift_self'])

p('P02', 'One turn of tracking applies exactly the RF kick and the drift',
  'Tracking a particle through one turn forward changes its energy by the two-harmonic RF voltage at its phase minus '
  'the energy gain of the synchronous particle, and its phase by minus the drift coefficient times its energy; one '
  'turn backward changes them by the opposite amounts. This holds for every particle, in double and in single '
  'precision, and in every implementation on the same terms.',
  ['inputs', 'configurations'],
  'all particle coordinates, RF parameters, harmonic ratios, particle counts, both directions, both precisions',
  'The tests compare a handful of coordinates and mostly one precision; the map must hold for every particle and '
  'parameter value and in every implementation.',
  ['cpp_routines/kick_and_drift.cpp', 'cpp_routines/libtomo.cpp', 'python_routines/kick_and_drift_cupy.py'],
  [('kick_up / kick_down', 'cpp_routines/kick_and_drift.cpp'), ('drift_up / drift_down', 'cpp_routines/kick_and_drift.cpp')],
  ['libtomo.kick', 'libtomo.drift'])

p('P03', 'Every tracked row holds the coordinates at its own measured frame',
  'Tracking started from any frame (and any turn offset from it) returns, in row n, the coordinates of all particles '
  'at the machine turn of frame n, obtained from the initial distribution by alternating drift and kick with the '
  'machine values of each turn, forward above the start and backward below it. This holds with and without '
  'self-fields, in the compiled routine and in the turn-by-turn one, and a start outside of the measured turns is rejected.',
  ['inputs', 'configurations'],
  'all starting frames and turn offsets, numbers of profiles and of turns between them, machine programs, with or without self-fields',
  'Tests track from one or two starting frames with fixed machine settings; the row/turn correspondence must hold for all of them.',
  ['tracking/tracking.py', 'tracking/__tracking.py', 'cpp_routines/kick_and_drift.cpp'],
  [('Tracking.track', 'tracking/tracking.py'), ('kick_and_drift', 'cpp_routines/kick_and_drift.cpp')])

p('P05', 'Reconstructed weights are never negative and never silently all zero',
  'Every particle weight a reconstruction returns, for one bunch or several, native or hybrid, is the accumulated back '
  'projection with negative values replaced by zero after each back projection; when all weights or a whole '
  'projection vanish the reconstruction fails with an error instead of returning numbers. The measured profiles enter with '
  'negative samples removed and each profile at unit area.',
  ['inputs', 'configurations'], 'all coordinate sets, profiles (negative samples, empty bins included), iteration and bunch counts, both precisions',
  'Tests reconstruct one or two data sets, where few weights go negative and none of the degenerate cases occurs.',
  ['cpp_routines/reconstruct.cpp', 'cpp_routines/libtomo.cpp', 'tomography/tomography.py', 'tomography/tomography_multibunch.py', 'tomography/__tomography.py'],
  [('clip, sum and the zero checks', 'cpp_routines/reconstruct.cpp'), ('Tomography.run', 'tomography/tomography.py')],
  ['Tomography.run', 'Tomography.run_hybrid', 'libtomo.reconstruct', 'libtomo.reconstruct_multi'])

p('P06', 'Reconstruction is the documented back-projection iteration',
  'The weights start as the back projection of the measured profiles; each iteration projects them, normalises every '
  'projected profile, multiplies its difference to the measurement by the largest bin occupancy over the occupancy of the bin, and '
  'back projects that onto the weights. Each particle contributes to and reads exactly its own bin of each profile. The '
  'native, hybrid and multi-bunch routines, in both precisions, perform this same iteration; the returned projection is that '
  'of the returned weights.',
  ['inputs', 'configurations'], 'all coordinates, profiles, numbers of iterations, particles, bins, profiles and bunches, both precisions',
  'Tests compare a few reconstructions with stored numbers after one or two iterations; an error in a later iteration, '
  'in another bunch or for empty bins does not show.',
  ['cpp_routines/reconstruct.cpp', 'cpp_routines/libtomo.cpp', 'tomography/tomography.py', 'tomography/tomography_multibunch.py', 'tomography/__tomography.py'],
  [('reconstruct / reconstruct_multi', 'cpp_routines/reconstruct.cpp'), ('run_hybrid', 'tomography/tomography.py')],
  ['libtomo.reconstruct', 'libtomo.reconstruct_multi', 'libtomo.project', 'libtomo.back_project', 'Tomography.run', 'Tomography.run_hybrid'])

p('P07', 'The discrepancy history measures each projection against the data',
  'A reconstruction of n iterations returns n+1 discrepancies: entry k is the root mean square, over all bins of all '
  'profiles, of the difference between the measured profiles and the k-th normalised projection, the last one belonging '
  'to the projection that is returned. With several bunches there is, besides, one history per bunch over the window of that bunch.',
  ['inputs', 'configurations'], 'all profiles, coordinates, numbers of iterations and bunches, bunch windows, both precisions',
  'Tests look at the final discrepancy of one example, if any.',
  ['cpp_routines/reconstruct.cpp', 'tomography/tomography.py', 'tomography/tomography_multibunch.py', 'tomography/__tomography.py'],
  [('discrepancy / discrepancy_multi', 'cpp_routines/reconstruct.cpp'), ('_discrepancy', 'tomography/__tomography.py')],
  ['Tomography.diff', 'Tomography.diff_split', 'libtomo.reconstruct'])

p('P08', 'Progress callbacks are called once per step with true counters',
  'A callback given to the tracking or to a reconstruction is called after every turn respectively every iteration and once '
  'at the end of a reconstruction, with the number of steps done and the total, in order, and it is never called when none was given. '
  'The counters never exceed the total and do not depend on the precision or the entry point.',
  ['inputs', 'histories'], 'all numbers of turns and iterations, starting frames and offsets, entry points and precisions',
  'Tests pass no callback or only count the calls of one run.',
  ['cpp_routines/reconstruct.cpp', 'cpp_routines/kick_and_drift.cpp', 'cpp_routines/libtomo.cpp', 'tomography/tomography.py', 'tracking/tracking.py'],
  [('callback of reconstruct', 'cpp_routines/reconstruct.cpp'), ('callback of kick_and_drift', 'cpp_routines/kick_and_drift.cpp')],
  ['Tracking.track(callback)', 'Tomography.run(callback)'])

p('P12', 'Extension-module functions keep their signatures and callers match them',
  'Every function of the extension module is exported under its documented name for double and, where offered, single '
  'precision, with the documented argument names, order and defaults, each name belonging to the parameter it names; and every call the '
  'package makes to it binds to one of its overloads with the arguments in the right positions.',
  ['configurations'], 'all exported functions, overloads and call sites',
  'Tests call with positional arguments only, and mis-named or shifted arguments of one overload or of one rarely used caller are not exercised.',
  ['cpp_routines/libtomo.cpp', 'cpp_routines/tomolib_wrappers.py', 'tracking/tracking.py', 'tomography/tomography.py', 'tomography/tomography_multibunch.py', 'data/data_treatment.py'],
  [('module definition', 'cpp_routines/libtomo.cpp')], ['libtomo'])

p('P13', 'A reconstruction never starts from missing or inconsistent coordinates',
  'Particle coordinates are accepted only as a two-dimensional array with one column per profile and all x inside of '
  'the image width; y only after x and with the same shape; None clears them. The number of particles always is that '
  'of the accepted x. Running without x fails with the documented error, and profiles that are zero after '
  'removing negative samples are refused when the object is made.',
  ['inputs', 'histories'], 'all values assigned to the coordinates in any order, and all waterfalls',
  'Tests assign one or two bad values; the accept set and the state left behind must be exact.',
  ['tomography/__tomography.py', 'tomography/tomography.py', 'tomography/tomography_multibunch.py'],
  [('xp / yp setters', 'tomography/__tomography.py')], ['Tomography.xp', 'Tomography.yp', 'Tomography.run'])

p('P14', 'Lost particles are removed everywhere, once, and only they',
  'A particle whose x-coordinate leaves the image in any frame is removed from all frames of both coordinates; every '
  'other particle is kept, in order and unchanged. The reported number of lost particles is the number removed, and '
  'losing all of them is an error. Coordinates prepared for the reconstruction are the kept ones truncated to bins, '
  'one row per particle.',
  ['inputs'], 'all coordinate arrays, including particles lost in several frames, on the edges, or none',
  'Tests use one array with a few lost particles; removal must be exact for every pattern of losses.',
  ['tracking/particles.py'], [('filter_lost', 'tracking/particles.py'), ('ready_for_tomography', 'tracking/particles.py')])

p('P15', 'Physical and image coordinates convert into each other consistently',
  'Physical coordinates (phase and energy offset from the synchronous particle) are converted to bins of the '
  'image, and bins back to physical coordinates, with the synchronous phase, revolution frequency, bin width and origin of '
  'the very turn the coordinates belong to, so that one conversion undoes the other. Coordinates given by a user are accepted '
  'only as two equally long sequences.',
  ['inputs', 'configurations'], 'all coordinates, machines, frames and turn offsets',
  'Tests convert the particles of one machine; a wrong turn or term that vanishes there stays invisible.',
  ['tracking/particles.py'], [('physical_to_coords', 'tracking/particles.py'), ('_bin_nr_to_physical_coords', 'tracking/particles.py')])

p('P16', 'The start distribution fills the reconstruction area uniformly and completely',
  'The automatic start distribution has the requested number of equally spaced particles along each axis of every bin '
  'between the phase limits and strictly inside of the energy limits of that column, and no other particles; it is expressed in physical '
  'units at the turn being reconstructed, and the limits, bin height and origin used are stored for later conversions.',
  ['inputs', 'configurations'], 'all machines, reconstruction areas, particles per bin, frames and turn offsets',
  'Tests compare the distribution of one machine.',
  ['tracking/particles.py', 'tracking/phase_space_info.py'], [('homogeneous_distribution', 'tracking/particles.py')])

p('P17', 'Validation accepts exactly the documented domain of each input',
  'Machine parameters, frame parameters, particle coordinates, array contents and reconstruction indices are accepted '
  'exactly when they lie in their documented domain, and otherwise rejected with the documented exception class. '
  'No invalid value passes and no valid value, including the boundary ones, is refused.',
  ['inputs'], 'all parameter values, including limits of ranges, negative indices and array offsets',
  'Tests try a few invalid values per check; the accept set must be exact for all values, in particular at the boundaries.',
  ['assertions.py'], [('assert_* family', 'assertions.py')])

p('P18', 'Per-turn machine values obey the synchrotron equations at every turn',
  'For every turn of the measured interval the synchronous energy, relativistic factors, slip factor, drift '
  'coefficient, revolution frequency, RF voltages, turn time and energy gain computed for a machine follow from its '
  'magnetic field and RF parameters, referenced to the reference frame, and the synchronous phase is sought where the '
  'RF energy gain equals the gain required by the field ramp.',
  ['inputs', 'configurations'],
  'all machine parameters, reference frames, numbers of turns and profiles',
  'Tests pin the arrays of one or two example machines, where several terms vanish or coincide.',
  ['utils/physics.py', 'tracking/machine.py', 'tracking/machine_base.py'],
  [('values_at_turns', 'tracking/machine.py'), ('physics relations', 'utils/physics.py')])

p('P20', 'Phase-space image geometry is consistent with the machine',
  'The energy height of a bin, the coordinate origin and the limits of the area to be populated are determined from '
  'the machine at the reconstructed turn by the documented trajectory relations, stay inside of the image, and an '
  'empty or inconsistent area is rejected.',
  ['inputs', 'configurations'], 'all machines, reconstructed turns, maximum energy settings and full or partial images',
  'Tests use one machine per function; the geometry must be right for every machine, phase range and image size.',
  ['tracking/phase_space_info.py'],
  [('find_dEbin', 'tracking/phase_space_info.py'), ('find_binned_phase_energy_limits', 'tracking/phase_space_info.py')])

p('P04', 'Self-field voltages follow from the measured line density',
  'The self-field voltage of every profile gap is the charge-weighted mean, over the two neighbouring profiles, of the derivative '
  'of the line density times the coefficient (direct space charge and wall impedance) of each profile, the phase wrap covers the '
  'measured length with whole RF periods, and tracking with self-fields adds at every turn the voltage of the bin a particle is in, '
  'forwards, and takes it away backwards.',
  ['inputs', 'configurations'], 'all profiles, machines, user filters, reconstructed profiles and turn offsets',
  'Tests cover one machine, with one self-field tracking; wrong signs, bins or turns that are small there stay invisible.',
  ['data/profiles.py', 'tracking/tracking.py'], [('calc_self_fields', 'data/profiles.py'), ('kick_and_drift_self', 'tracking/tracking.py')])

p('P21', 'Every input-file entry reaches the parameter it stands for',
  'Each line of a Fortran-style input file becomes the machine, frame or reconstruction parameter documented for that line, with '
  'profile and frame numbers converted from 1-based to 0-based, flags from integers, and the time limits of the reconstruction '
  'derived from the skipped bins; inputs with the wrong number of lines or of data points are refused; raw data come from the '
  'piped lines or from the named file.',
  ['inputs'], 'all input files',
  'Tests read two or three example files in which many entries share a value, so swapped lines pass.',
  ['utils/tomo_input.py', 'tracking/machine.py'], [('txt_input_to_machine', 'utils/tomo_input.py'), ('_split_input', 'utils/tomo_input.py')])

p('P22', 'Raw data become the waterfall the frame settings describe',
  'Raw data of exactly frames times bins samples are cut into frames, the skipped frames and bins (and no others) are removed, the '
  'baseline of the reference frame is subtracted, and neighbouring bins are merged with sampling time and synchronous '
  'position rescaled by the same factor; the total signal of full bins is conserved and the raw data handed in are not modified.',
  ['inputs', 'configurations'], 'all raw data, frame settings and rebinning factors, including incomplete last bins',
  'Tests use one data set with one rebin factor and few skipped bins.',
  ['utils/tomo_input.py', 'data/pre_process.py', 'compat/fortran.py'], [('Frames.to_waterfall', 'utils/tomo_input.py'), ('rebin', 'data/pre_process.py')])

p('P23', 'Files and texts for the original program have its exact format and numbering',
  'The files written for the Fortran program and the tomoscope (profile, self-field voltage, phase-space image, discrepancy) '
  'are named after the frame counted from one, hold one value per line in the documented exponent format in row order, and '
  'replace an earlier file. The plot information has every line of the original in its order, with the machine and binning values of the '
  'reconstructed frame, frame numbers counted from one, and zeros for the foot-tangent fit unless all three fit results are present; '
  'it is refused while the energy bin size or the phase limits are unknown. With Fortran output enabled (and only then) the tracking prints the '
  'plot information of an automatically created distribution, and both the compiled and the turn-by-turn routine one status line per '
  'tracked frame; a verbose reconstruction prints the number of every iteration.',
  ['inputs', 'configurations'],
  'all arrays and array sizes, frame numbers, output folders, fit results present or absent, Fortran output enabled or not',
  'The tests compare one small file each; numbering, padding for two- and three-digit indices, missing fit values and overwritten '
  'files are not exercised.',
  ['compat/fortran.py', 'compat/tomoscope.py', 'tracking/tracking.py', 'cpp_routines/kick_and_drift.cpp', 'cpp_routines/reconstruct.cpp'],
  [('save_* / write_plotinfo / print_tracking_status', 'compat/fortran.py'), ('save_*', 'compat/tomoscope.py')],
  ['files written', 'standard output', 'compat.fortran.write_plotinfo'])

p('P24', 'Data handed in by the caller is left as it was',
  'No function or method of the package writes into an array, list or object of the caller except into its documented outputs: the coordinate '
  'buffers of the kick, drift and tracking routines, the weights of back_project, the profiles of project, the particle counts, the lines given '
  'to txt_input_to_machine (line ends are stripped), and machine.dEbin, machine.dtbin and machine.synch_part_x where automatic binning and '
  're-binning set them. This includes writes through views, through attributes that share memory with an argument, and through other '
  'functions, and holds for the compiled routines: waterfall, coordinates and voltages given to them are only read. Data given to an object '
  '(waterfall, coordinates, raw data) is not overwritten by the computations of that object, so that they can be repeated.',
  ['inputs', 'histories'],
  'all functions, arguments and call sequences; arrays of any type and layout (also those for which a conversion makes no copy)',
  'The tests compare results, not what became of the arguments; a missing copy only shows for arrays that already have the working type.',
  ['data/profiles.py', 'data/pre_process.py', 'data/data_treatment.py', 'tracking/tracking.py', 'tracking/particles.py', 'utils/tomo_config.py',
   'utils/tomo_output.py', 'tomography/__tomography.py', 'cpp_routines/libtomo.cpp'],
  [('Profiles.waterfall', 'data/profiles.py'), ('Tracking.track', 'tracking/tracking.py'), ('TomographyABC', 'tomography/__tomography.py'),
   ('wrapper_*', 'cpp_routines/libtomo.cpp')],
  ['arguments after the call', 'Profiles.waterfall', 'Tomography.xp'])

p('P25', 'The phase-space image puts every weight into the cell of its particle',
  'The image of a reconstructed frame is the two-dimensional histogram of the particle coordinates of that frame, weighted with the particle '
  'weights, indexed by time first and energy second; a coordinate outside of the image (negative ones included) is refused before '
  'anything is written. The image made for output is that histogram with negative cells set to zero, divided by its sum. The physical axes '
  'have the synchronous particle at zero and the time and energy bin sizes as steps; they are refused while the energy bin size is unknown. '
  'Macro-particles drawn from a density come from cells whose share of the total is at least the threshold, in proportion to the density, spread '
  'evenly over their cell, as many as requested.',
  ['inputs', 'configurations'],
  'all coordinates (negative and too large ones included), weights, numbers of bins and particles, frames, bin sizes, both precisions',
  'Tests bin a handful of particles inside of the image; borders, negative weights and other frames are not exercised.',
  ['cpp_routines/data_treatment.cpp', 'cpp_routines/libtomo.cpp', 'utils/tomo_output.py', 'data/data_treatment.py'],
  [('make_phase_space', 'cpp_routines/data_treatment.cpp'), ('create_phase_space_image', 'utils/tomo_output.py'),
   ('phase_space, phase_space_from_coordinates, density_to_macro', 'data/data_treatment.py')],
  ['libtomo.make_phase_space', 'utils.tomo_output.create_phase_space_image', 'data.data_treatment.phase_space'])

p('P26', 'A profile set holds non-negative profiles and their charge',
  'A Profiles object accepts only as many profiles as the machine has, stores them with negative values raised to zero, refuses data '
  'that vanish completely, tells the machine the number of bins, and reports as charge the integral of the reference profile divided '
  'by elementary charge and pick-up sensitivity.',
  ['inputs'], 'all waterfalls and machines',
  'Tests use one waterfall and one reference frame.',
  ['data/profiles.py'], [('waterfall', 'data/profiles.py'), ('calc_profilecharge', 'data/profiles.py')])

p('P27', 'Beam quality figures follow from the phase-space image',
  'The RMS emittance is pi times the product of the time and energy spreads of the image projections, the 90 % and fractional '
  'emittance count the fullest cells needed to hold the fraction, and the momentum spread follows relativistically from the '
  'energy spread; fractions outside 0 to 100 are refused.',
  ['inputs'], 'all images, bin axes, fractions, energies and masses',
  'Tests pin numbers for one image.',
  ['data/post_process.py'], [('emittance_rms', 'data/post_process.py'), ('post_process', 'data/post_process.py')])

p('P28', 'Cutting, selecting and fitting profiles uses the right bins',
  'Automatic cuts bracket the signal with the requested margin and stay in the data, explicit cuts are validated and keep exactly '
  'the requested bins, bad profiles are removed consistently from profiles and tracked coordinates, and the fitted synchronous '
  'position comes from the tangents to the bunch at the documented bins and the bunch-length relation of the reference turn.',
  ['inputs', 'configurations'], 'all waterfalls, thresholds, margins, cuts and machines',
  'Tests use one bunch; wrong bins at the edges or wrong turns stay invisible.',
  ['data/pre_process.py'], [('get_cuts', 'data/pre_process.py'), ('fit_synch_part_x', 'data/pre_process.py')])


p('P32', 'The complete reconstruction connects its steps correctly for every input',
  'Running a reconstruction from an input file reads the file, builds machine, profiles and charge from it, fits the synchronous position when '
  'the input leaves it open, tracks from the requested frame (by default the first film frame) with self-fields when the input asks for '
  'them, converts coordinates unless the self-field tracking already did, reconstructs with the requested number of iterations, and returns '
  'time axis, energy axis and the image of that frame, without negative cells and with unit sum. In tomoscope mode (and only then) it '
  'announces the start, prints progress, and writes image and profile of every film frame and the discrepancy into the requested folder, '
  'or that of the input file when none is given. The convenience functions for reading, tracking and reconstructing do the same steps on the '
  'same data and hand on the frame, the number of iterations and the progress callback.',
  ['inputs', 'configurations'],
  'all input files, frames, output folders, tomoscope and plot settings, self-fields enabled or not, film ranges',
  'Tests run one or two input files without tomoscope output; other combinations of the options are not exercised.',
  ['utils/tomo_run.py', 'shortcuts.py'],
  [('run', 'utils/tomo_run.py'), ('read_input_file, track, tomogram', 'shortcuts.py')],
  ['utils.tomo_run.run', 'shortcuts.read_input_file', 'shortcuts.track', 'shortcuts.tomogram'])


p('P31', 'Old names and deprecated functions still do what their replacements do',
  'Code written against the older layout keeps working and computes the same: the package can be imported as tomo; every *_ftn function of '
  'utils.tomo_output writes, prints, returns and refuses what the function of the compat package with the same name does, given its arguments by '
  'position or by keyword; rebin, fit_synch_part_x and the Fortran baseline reached through data.data_treatment or utils.data_treatment give '
  'the results of their replacements; the functions of cpp_routines.tomolib_wrappers hand every argument to the compiled function of the '
  'same name unchanged and in its place, and kick_and_drift refuses a call with neither a machine nor all machine values.',
  ['inputs', 'configurations'],
  'all arguments, given by position or by keyword, with and without the optional ones',
  'The tests call the new functions; most old names are not called at all.',
  ['utils/tomo_output.py', 'utils/data_treatment.py', 'data/data_treatment.py', 'cpp_routines/tomolib_wrappers.py'],
  [('*_ftn', 'utils/tomo_output.py'), ('deprecated functions', 'data/data_treatment.py'), ('wrappers', 'cpp_routines/tomolib_wrappers.py')],
  ['utils.tomo_output.*_ftn', 'utils.data_treatment', 'cpp_routines.tomolib_wrappers', 'import tomo'])

p('P09', 'Native parallel loops are free of data races',
  'The result of every exported function of libtomo is independent of the number of threads and of how iterations are scheduled: no two '
  'iterations of a loop run in parallel access the same memory cell or the same shared variable when one of them writes it, except as reductions, '
  'atomic updates or inside critical sections; scalars used inside a parallel loop are private to the iteration or read only.',
  ['inputs', 'schedules'],
  'all thread counts, schedules and array contents with the documented sizes (particles, profiles, bins, bunches)',
  'A race shows only in unlucky schedules with many threads and particles; tests use few particles and one run.',
  ['cpp_routines/reconstruct.cpp', 'cpp_routines/kick_and_drift.cpp', 'cpp_routines/libtomo.cpp'],
  [('OpenMP loops', 'cpp_routines/reconstruct.cpp'), ('OpenMP loops', 'cpp_routines/kick_and_drift.cpp')],
  ['libtomo.reconstruct', 'libtomo.reconstruct_multi', 'libtomo.kick_and_drift', 'libtomo.project', 'libtomo.back_project'])

p('P11', 'Native code stays inside of its buffers',
  'For arguments of the documented sizes and ranges (turn arrays of dturns*(frames-1)+1 values, a start inside of the tracked frames, bin '
  'coordinates of reconstruct, project and back_project inside of their profile) no exported function of libtomo reads or writes '
  'outside of an array or of a buffer it allocated; make_phase_space refuses coordinates outside of the image with an '
  'exception instead, before it writes anything.',
  ['inputs', 'configurations'],
  'all sizes (turns, frames, particles, bins, bunches), starting frames and offsets between frames, and coordinates',
  'Reading one element too far gives no error under test; the edge combinations of start, offset and frame count are not sampled.',
  ['cpp_routines/reconstruct.cpp', 'cpp_routines/kick_and_drift.cpp', 'cpp_routines/data_treatment.cpp', 'cpp_routines/libtomo.cpp'],
  [('make_phase_space', 'cpp_routines/data_treatment.cpp'), ('kick_and_drift', 'cpp_routines/kick_and_drift.cpp'),
   ('reconstruct', 'cpp_routines/reconstruct.cpp')],
  ['libtomo.make_phase_space', 'libtomo.kick_and_drift', 'libtomo.reconstruct', 'libtomo.reconstruct_multi'])

p('P10', 'Native memory is released exactly once, however a call ends',
  'Every buffer allocated by an exported function of libtomo is released exactly once and by the matching operator on every way the call can end: '
  'normally, when phase space is reduced to zeroes or a coordinate is refused, and when the progress callback or the machine object raises. '
  'A buffer returned to Python is owned by the array that shows it and lives as long as that array. No memory is used after its release. The '
  'exception raised by Python code called from the extension (callback, attribute of the machine) reaches the caller unchanged.',
  ['inputs', 'fault_sequences'],
  'all exits of every exported function: normal, every throw statement, every call of Python code that may raise, at every iteration',
  'A leak or a double release on an exceptional path does not fail a test; no test raises from a callback.',
  ['cpp_routines/libtomo.cpp', 'cpp_routines/reconstruct.cpp', 'cpp_routines/data_treatment.cpp'],
  [('wrapper_reconstruct', 'cpp_routines/libtomo.cpp'), ('cleanup', 'cpp_routines/reconstruct.cpp'),
   ('make_phase_space', 'cpp_routines/data_treatment.cpp')],
  ['libtomo.reconstruct', 'libtomo.reconstruct_multi', 'libtomo.kick_and_drift', 'libtomo.make_phase_space'])

p('P30', 'Failures are reported by the documented exceptions',
  'Every exception class of the package can be caught as TomoException (an Exception), and the argument errors also as the builtin error they '
  'refine (ValueError, IndexError, RuntimeError). The functions which read, check and reconstruct raise the documented class exactly when its '
  'condition holds and nothing else: inconsistent array shapes and lengths, values outside of allowed ranges, machine and space charge parameters, '
  'raw data and profiles, energy and phase limits, tracking arguments. No path, in particular no failure path, ends with an '
  'undefined name, a missing member or a message that cannot be formatted instead, and no handler swallows a failure that it does not '
  'handle.',
  ['inputs', 'fault_sequences'],
  'all raise statements, handlers and references of the package; all inputs of the functions that report the documented errors',
  'Failure paths are the least exercised; a test checks one failing input per class, and many paths are not tested at all.',
  ['exceptions.py', 'assertions.py', 'utils/tomo_input.py', 'tracking/machine.py', 'tomography/tomography.py', 'data/profiles.py'],
  [('exception classes', 'exceptions.py'), ('checks', 'assertions.py')],
  ['exceptions.*', 'assertions.*', 'Machine', 'Profiles', 'Tracking', 'Tomography'])

p('P19', 'Synchronous phase searches: consistent equation, slope and turn',
  'Every Newton search of the package is given the exact derivative, with respect to the sought phase, of the function whose root it seeks, for '
  'every machine (constant or programmed voltages, one or two RF systems, relative phase constant or per turn) and turn; function and slope '
  'take all their values at the turn searched. The synchronous phase is the phase where the energy gain of both RF systems equals the '
  'gain required by the magnetic field, started from the solution with the first system only in the window above or below '
  'transition; the synchronous particle is placed where both bunch edges have the same potential. A search that does not converge in finding the '
  'synchronous phase is reported as ValueError.',
  ['inputs', 'configurations'],
  'all phases, voltages, harmonic ratios, relative phases, turns and machines',
  'A wrong slope still converges for the few machines tested (often with the second RF off and constant voltage), or to another root.',
  ['utils/physics.py', 'data/pre_process.py', 'tracking/programs_machine.py', 'tracking/machine.py'],
  [('derivatives', 'utils/physics.py'), ('fit_synch_part_x', 'data/pre_process.py')],
  ['Machine.phi0', 'ProgramsMachine.phi0', 'physics.d*', 'physics.phase_low*', 'fit_synch_part_x'])

p('P29', 'Device and precision settings take effect together, in any order',
  'After any sequence of use_cpu, use_gpu, set_single_precision and set_double_precision (of the package or of AppConfig) the reported '
  'precision is the last one set and the reported device the last one chosen; tracking, reconstruction, phase space and array routines offered '
  'by the configuration all belong to that device (the compiled library and NumPy, or the CUDA routines and CuPy) and none of the other device '
  'remains; casts give arrays of that precision on that device, cast_to_cpu always on the CPU; on the GPU every kernel in use is the one compiled for '
  'that precision. A negative device number changes nothing.',
  ['histories', 'configurations'],
  'all sequences of configuration calls (finite state, explored completely)',
  'Tests set one device and precision at the start; switching back and forth, in particular with a GPU, is not tested.',
  ['utils/tomo_config.py', '__init__.py', 'python_routines/kick_and_drift_cuda.py', 'python_routines/reconstruct_cuda.py'],
  [('AppConfig', 'utils/tomo_config.py'), ('GPUDev', 'utils/tomo_config.py')],
  ['use_cpu', 'use_gpu', 'set_single_precision', 'set_double_precision', 'AppConfig.get_precision', 'conf.cast'])


p('P33', 'Figures of merit of profiles and images follow their definitions',
  'For every profile, the bunch length by tangent fit is the distance between the zero crossings of the straight lines fitted to the edges at 15 % '
  'of the maximum (both edges fitted alike), and profiles without room for the fit or longer than an RF period are refused. For every machine, '
  'frame and image: the matched area is the area enclosed by the trajectory of the requested length in the bucket of that frame; the emittance of '
  'a share of the particles is the area of the densest cells holding it, for shares strictly between 0 and 1; the RMS emittance and the mean '
  'and spread in time and energy are the statistical moments of the image along its own axes, square or not; density as a function of emittance '
  'sums the image inside, and averages it along, the trajectories of growing area; clipping to an emittance zeroes the weights outside the '
  'trajectory of that area, keeps their sum, and reports the outermost particles of each time bin.',
  ['inputs'],
  'all profiles, images (also not square), machines, frames, target emittances and shares',
  'Tests check these functions on a few square images and smooth profiles against stored numbers.',
  ['utils/tomographics.py'],
  [('foot_tangent_fit_dq, foot_tangent_fit, foot_tangent_fit_density', 'utils/tomographics.py'),
   ('matched_area_calc, emittance_density_calc, rms_params', 'utils/tomographics.py'),
   ('density_vs_emittance, tomo_weight_clipping', 'utils/tomographics.py')],
  ['utils.tomographics.foot_tangent_fit', 'utils.tomographics.matched_area_calc', 'utils.tomographics.rms_params',
   'utils.tomographics.tomo_weight_clipping'])


def write():
    with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
        for x in sorted(P, key=lambda x: x['id']):
            assert len(x['title']) <= 80, x['title']
            for a in x['anchors']['files']:
                assert os.path.exists('/repo/' + a), a
            f.write(json.dumps(x) + '\n')


if __name__ == '__main__':
    write()
    print(len(P))
