PROPS = {}


def P(pid, src, rule, **kw):
    PROPS[pid] = dict(src=src if isinstance(src, list) else [src], rule=rule, **kw)


P('M01', 'm01.cpp', 'random words of axis rotations, inverses, half-turn conjugations, products, displacements and assignments '
  '(angles incl. 0, multiples of pi/4, 1e-10..1e-2 and generic); non-trivial = a complete word evaluated by library and oracle; '
  'distinct = distinct word/parameters')
P('M02', 'm02.cpp', 'random vectors/matrices (sizes 1..10, special and wide-range values, views, wrong shapes), matrices of prescribed condition number and rank, permuted and '
  'singular ones, 6x6 symplectic maps with and without coupling; non-trivial = every operation of the family evaluated; distinct = distinct shape/leading value',
  require=['refusals', 'null-space', 'underdetermined', 'overdetermined'])
P('M03', 'm03.cpp', 'random sparse and dense maps (all fill factors, built by terms, by matrix, copied), vectors, moment sets of 2 and 3 planes, one- to three-plane matrices with and without reference momentum, '
  'and every element map against a matrix exponential; non-trivial = all operations of the family evaluated; distinct = distinct map/vector values',
  require=['quadratic-terms', 'off-momentum', 'partial', 'from-matrix'])
P('M04', 'm04.cpp', 'random tables (2..50 nodes, equal/arbitrary spacing, unsorted input, orders 1..6), arguments at nodes, neighbours, between and outside; random histograms; random wildcard patterns with alternatives '
  'and names biased to match; ranges; distinct = distinct table/pattern', require=['node', 'neighbour', 'extrapolated', 'nodes', 'high-order-nodes', 'polynomial', 'refused', 'matching', 'not-matching', 'alternatives', 'entries'])

P('G01', 'g01.cpp', 'random straight/arc geometries (lengths 0..1e3 m, curvature 0, 1e-12.. and large angles of both signs) and random nested sequences (3 origins, 0..800 leaves, zero-length members, geometry patches, copies, before/after consolidation); '
  'positions at, next to and between the joints, forward and backward; distinct = distinct lengths/curvatures',
  require=['backward', 'seq-backward', 'outside', 'flat-arc', 'arc-', 'patch', 'copies', 'origin-exit', 'before-consolidation'])

P('G02', 'g02.cpp', 'random trees of frames (sequences with 3 origins, girders, simple mounts, movers, components; depth 1-4), random histories of translations, rotations, sets, clears, support and mover motions (1e-6..1 rad/m); '
  'every pose, boundary transform and support of every frame compared with a forward-kinematics model; distinct = distinct tree/length/operation count',
  require=['entrance-plane', 'exit-plane', 'girder', 'girder-tilt', 'simple-mount', 'support-motion', 'mover-motion', 'outsiders', 'copies', 'restored', 'misaligned-before-consolidation'])

P('L01', 'l01.cpp', 'random construction scripts (20 component types, repeated names, shared components, drifts, nested girders/mounts/movers, ready-made frames, geometry patches, loose elements, elements installed into drifts); every query compared with a list model; distinct = distinct sequence of types and lengths',
  require=['elements', 'pattern-some', 'pattern-none', 'named-section', 'named-refused', 'refused', 'ring-steps', 'found', 'unknown-name', 'installed', 'append-frame', 'patch', 'supports', 'typed-query-hits', 'second-model', 'empty'])

P('T01', 't01.cpp', 'random scripts of adding, removing, clearing, initialising and logging processes (priorities -1..3, six kinds of step limits, activity per element) around tracked elements of length 0..27 km, and whole runs/continuations over beamlines and rings with the transport process; '
  'every call a process receives is logged and the log judged by a trace specification; distinct = distinct element lengths', require=['rounds', 'multi-step', 'zero-length', 'removed', 'remove-absent', 'cleared', 'divided', 'no-active', 'runs', 'continues', 'logged'])

P('T05', 't05.cpp', 'random lattices (17 element kinds, nested and misaligned frames, geometry patches, 3 integrator sets) tracked in one run, in random partitions, by several trackers, turn by turn, step by step, repeatedly, with output objects and with processes throwing exceptions; '
  'compared with a frame-by-frame composition; distinct = distinct final coordinates', require=['comparisons', 'patches', 'misaligned', 'stepped', 'partitions', 'on-axis', 'records', 'exceptions', 'turns'])

P('C01', 'c01.cpp', 'random lines (1..10 drifts, magnets, correctors, bends, markers, collimators; zero and odd lengths; four aperture shapes and tilted jaws), bunches of 1..60 particles, all seven choices of planes, one or several turns in lines and rings, other processes that force sub-steps, one or two outputs, index lists, loss thresholds, scattering jaws with short last bins; an observer on each side of the collimation process judges every step; distinct = distinct loss history',
  require=['losses', 'planes', 'lost-in-zero-length', 'lost-before-exit', 'indexed', 'sorted', 'stopped', 'not-stopped', 'scattered', 'absorbed', 'untouched', 'short-bin', 'substeps'])
P('C02', 'c02.cpp', 'the lines, bunches, planes, steps and turns of C01 (default and 0.01..1 m bins, bunches re-sorted inside elements, repeated Track calls) with every reported loss followed alone through its element; straight lines judged by geometry; proton scattering in tilted jaws of six materials at 50..7000 GeV with the bin of every loss observed; distinct = distinct loss record',
  require=['zero-length', 'straight', 'magnet', 'at-entrance', 'at-check', 'inside', 'later-turns', 'sorted', 'jaw-losses', 'within-bin', 'jaw-later-turns', 'other-losses'])
P('C03', 'c03.cpp', 'random circles, rectangles, ellipses, rect-ellipses, octagons (1e-5..2 m, built directly, by the short constructor and by the factory) and straight, displaced, rotated and one-sided jaws; points on all four quadrants hugging the boundary (1e-9..0.3 relative), on the axes, at corners and far outside; distinct = distinct shape',
  require=['inside', 'outside', 'close', 'factory', 'unknown-type', 'one-sided', 'two-sided', 'resized'])
P('C04', 'c04.cpp', 'random profiles (2..9 entries, steps, negative start, four shapes) and tapered/tilted/displaced collimator jaws; positions at entries, joints, next to them, before the entrance and beyond the end; points hugging the interpolated boundary; distinct = distinct profile',
  require=['inside', 'outside', 'at-entry', 'at-joint', 'beyond-end', 'step-in-profile', 'tapered', 'closing', 'opening', 'offset', 'centred'])
P('C05', 'c05.cpp', 'random lattices (2..25 elements) with TFS aperture tables (rows for all/some elements, several rows per drift, zero-length rows, empty rows, steps, tapers, type changes, rounding of printed positions), pre-set collimator apertures, zero-length elements; acceptance of every installed aperture probed at many positions; survey output parsed; distinct = distinct lattice/table',
  require=['drifts', 'magnets', 'inside', 'outside', 'tapered', 'type-change', 'wrapped', 'kept', 'zero-length', 'several-rows', 'zero-row', 'surveyed'])

P('B01', 'b01.cpp', 'random bunches (1..600 particles, offsets up to 1e4 sigma, equal particles; plain, proton, electron and macro-particle bunches) under random histories of adding, erasing, sorting, swapping, recharging and centroid setting, statistics in random order with reused results; histograms, slicings and conversions with values on the bin edges; distinct = distinct offsets/sizes',
  require=['moments', 'projected', 'added', 'erased', 'sorted', 'set-centroid', 'recharged', 'swapped', 'copied', 'on-edge', 'truncated', 'normalised', 'filtered', 'tails', 'smp-adjusted', 'to-slices', 'to-particles'])
P('B02', 'b02.cpp', 'random beam data (Twiss, dispersion, coupling, centroids, zero and non-zero spreads) x 7 distributions x cut-offs x filters x bunch types x seeds; every particle transformed back to normalised coordinates by an independent inverse; beam-matrix conversions, multivariate normals and macro-particle bunches; distinct = distinct beam data',
  require=['normal', 'uniform', 'ring', 'halo1-h', 'halo1-v', 'halo2-h', 'halo2-v', 'cuts', 'filtered', 'statistics', 'coupled', 'dispersive', 'reseeded', 'round-trips', 'round-beams', 'coupled-modes', 'multinormal', 'smp'])
P('B03', 'b03.cpp', 'random bunches (0..60 particles, extreme values, both signs of zero) written, parsed by an independent reader and read back (comments, blank lines, CRLF, append mode, streams, files), truncated/mutated/garbage inputs, macro-particle files; distinct = distinct content',
  require=['round-trips', 'file', 'vectors', 'streams', 'indexed', 'refused', 'accepted', 'truncated-streams', 'smp'])
P('B04', 'b04.cpp', 'random particle and macro-particle bunches under random sequences of 1..8 reference changes; absolute momentum and time of every particle compared with the initial ones after every call; distinct = distinct reference/offset',
  require=['momentum-by', 'momentum-to-mean', 'time-to-mean', 'smp-momentum', 'smp-time'])
P('T03', 't03.cpp', 'random drifts, quadrupoles (normal, skew, rotated), sextupoles to decapoles, arbitrary multipole mixtures, solenoids, correctors and sector bends (gradient, tilt, pole faces, fringe, mismatched momentum) with random strength, length, charge sign, momentum, integrator set; transfer matrix, second-order terms, chromatic matrix and sliced multipoles compared with RK4 integration of the exact Lorentz equations; distinct = distinct length or momentum deviation',
  require=['transport', 'symplectic', 'thin-lens', 'pole-faces', 'multipole', 'corrector'])
P('T02', 't02.cpp', 'random lattices (all elements, misaligned frames, patches) and bunches of 1..40 particles incl. extreme ones, each particle tracked in company, permuted, in subsets with duplicates, alone and repeatedly; results compared bit for bit, machine digest (fields, geometry, frames) before and after; distinct = distinct reference momentum',
  require=['compared', 'extreme', 'nonfinite', 'misaligned', 'patches'])
P('T04', 't04.cpp', 'random elements (drift, monitor, solenoid, correctors, multipoles of every order and mixtures, bends with gradient, multipoles, tilt and pole faces) and particles in every integrator set: finite-difference Jacobians checked for J^T S J = S, random partitions into steps, rotation of field and beam, time reversal through the mirrored element; distinct = distinct length or angle',
  require=['jacobians', 'linear', 'second-order', 'rotated-quad', 'transport', 'symplectic', 'thin-lens'])
P('T06', 't06.cpp', 'random lattices with frames and girders nested up to 3 deep and random accumulated displacements and rotations (incl. rolls by 90 degrees and zero rotations) of components, frames and girders, tracked in all integrator sets over whole lines and sections; compared with ray transformation through independently composed poses + tracking of the bare component; field-free lines; undone misalignments; distinct = distinct momentum',
  require=['compared', 'frames', 'arcs', 'rolled', 'misaligned', 'sections', 'empty', 'restored'])
P('T07', 't07.cpp', 'random travelling-wave, standing-wave and transverse cavities (all phases incl. crest and zero crossing, relative gains 0, 1e-9..20, 100 MHz..30 GHz, full and plain acceleration) and particles with offsets of up to two wavelengths and 30% momentum deviation in three integrator sets; one step, random steps and chains of cavities; compared with closed forms in extended precision and the stated field; distinct = distinct length/offset',
  require=['particles', 'full', 'plain', 'off', 'zero-crossing', 'split', 'damping', 'set', 'swrf', 'twrf'])
P('T08', 't08.cpp', 'random elements (drifts, quadrupoles in any direction with dipole kicks, thin lenses, correctors, solenoids, accelerating structures, bends with gradients, tilts and pole faces; either charge, momentum deviations, one or several steps), beamlines of up to 12 elements misaligned and nested in frames, transformations, and histories of operations on macro-particle bunches of up to 60 slices, constructed and converted; compared with particles tracked from the centroids, with moments propagated by the observed linear map, and with sums in extended precision; distinct = distinct element length or bunch',
  require=['moments', 'drift', 'quadrupole', 'skew', 'rotated', 'thin', 'corrector', 'solenoid', 'accelerating', 'sextupole', 'bend', 'pole-faces', 'nonlinear', 'steps', 'patches', 'misaligned', 'aligned', 'rolled', 'statistics', 'reference', 'sorted', 'files', 'constructed', 'converted', 'binned'])
P('I01', 'i01.cpp', 'random sequences of 1..75 operations on data tables (columns, rows, rows of values, typed and textual get/set, headers, row objects, copies) with valid and invalid names, types, rows and texts; every outcome and the complete table compared with a typed reference model; iterators walked at random; distinct = distinct operation sequence',
  require=['operations', 'refused', 'with-refusals', 'row-values', 'steps', 'copied-rows', 'refused-rows'])
P('I02', 'i02.cpp', 'random tables (0..6 headers, 1..8 columns, 0..30 rows, extreme numbers, arbitrary text incl. empty) written through streams of any format and files and read back; files laid out differently; every prefix and random mutations of files; acceptance and values judged by an independent reader; distinct = distinct file',
  require=['cells', 'file', 'odd-stream', 'refused', 'accepted', 'truncated', 'crlf', 'parsed-cells'])
P('R01', 'r01.cpp', 'random seeds (0..5 words) and random histories of calls of all generators, restarts, other seeds and interleaved local streams (32 and 64-bit hashes) replayed value by value; cross-stream repetition and correlation; range monitors on every value; samples of 30000..40000 against the exact mean, variance, distribution function (level 1e-12) and tails; distinct = distinct seed/parameter',
  require=['automatic', 'local-replays', 'pairs', 'cut', 'distributions'])
P('C07', 'c07.cpp', 'random sequences of 1..12 elements (repeated, long and zero-length ones, starting anywhere up to 27 km), 0..400 losses at entrances, exits, bin edges and between, all three kinds of map, warm regions, repeated finalising and continued recording; detailed tables with patterns; the written tables parsed back; maps made by real runs; distinct = distinct loss list',
  require=['tencm', 'precise', 'nearest', 'finalised-again', 'warm', 'cold', 'bin-edge', 'not-selected', 'rows', 'run-losses'])
P('C08', 'c08.cpp', 'every standard material (also with the SixTrack values) against textbook constants and scaling laws; random materials and random mixtures of 1..6 components by number and by weight (permuted, scaled, nested, variadic) against exact averages, nuclei drawn from mixtures counted; malformed mixtures; random histories of copying, assigning, extra properties; copied and printed tables; distinct = distinct mixture/history',
  require=['book', 'materials', 'sixtrack', 'by-weight', 'by-number', 'varargs', 'elastic-nucleus', 'rutherford-nucleus', 'refused', 'assigned', 'copied', 'extras', 'printed'])
P('C09', 'c09.cpp', 'random lines with several collimators and settings files (gaps with offsets, or beam sizes; any order, layout and rounding; names that are not in the model; one-sided jaws; impact factors; parallel jaws; jaw errors), lattice functions at the entrance and exit of every element; the acceptance of each configured collimator probed at many points and compared with the gap, tilt and centre the file defines; other elements compared before and after; malformed files; distinct = distinct setting',
  require=['gap-file', 'offsets', 'envelope-file', 'parallel-jaws', 'one-sided-jaw', 'errors', 'untouched', 'rounded', 'inside', 'outside', 'refused', 'misplaced', 'with-material', 'radiation-length', 'replaced'])

P('C06', 'c06.cpp', 'eight materials, a mixture and modified densities at 10..7000 GeV: free paths, ionisation losses, multiple scattering, the choice and the kinematics of every interaction of the SixTrack-like and advanced models compared with the stated laws (Kolmogorov-Smirnov and counting tests, kinematic identities event by event), and whole histories of protons in blocks and along jaw faces observed from inside the model; distinct = distinct parameters',
  require=['paths', 'landau', 'material_replaced', 'default_excitation', 'simple', 'chosen', 'switched', 'elastic', 'diffractive', 'mixture', 'through', 'absorbed', 'escaped', 'interactions', 'refused'])
P('I03', 'i03.cpp', 'random optics tables (30 row types, column orders and extra columns, zero lengths, nested LINE structure, both signs of the momentum, both ways to give bend angles) with random interface options, several appended tables and defective tables; every component compared with an independent reading of its row; distinct = distinct number of rows and length',
  require=['components', 'fields', 'bends', 'pole_faces', 'solenoids', 'cavities', 'typed_found', 'frames', 'flattened', 'from_file', 'radiation', 'single_cell', 'as_drift', 'ignore_zero', 'appended', 'refused', 'skipped'])
P('O01', 'o01.cpp', 'random stable FODO rings with strength, alignment and corrector errors, coupling, sextupoles, cavities, radiation and path-length scaling; orbits found from random starting points and at random elements, tracked once round by the harness and compared with an independent Newton search; the ring compared before and after; distinct = distinct orbits',
  require=['orbits', 'converged', 'compared', 'off_momentum', 'from_inside', 'extra_process', 'perfect', 'radiation', 'path_length', 'energy_balance', 'rms'])
P('O03', 'o03.cpp', 'random stable rings; one-turn and sectional matrices about given and closed orbits, from any observation point, with radiation and path-length scaling, compared with five-point differences of rays tracked by the harness; symplectic condition; dispersion at and along the ring; distinct = distinct matrix elements and dispersions',
  require=['radiation', 'path_length', 'observation_point', 'sections', 'closed_orbit', 'symplectic', 'dispersions', 'inside', 'vertical', 'rms'])
P('O02', 'o02.cpp', 'random stable rings (errors, coupling, gradient bends, sextupoles, cavities); lattice-function matrices of every mode at every element tested for invariance, transport, normalisation and orthogonality on maps differenced from rays tracked by the harness, Courant-Snyder functions and phases, dispersion, averages and look-ups, tables that must be refused, chromatic derivatives, phase advances with integer parts, tunes from spectra, damping and emittance against synchrotron integrals; distinct = distinct functions',
  require=['invariants', 'courant_snyder', 'orbit_given', 'dispersions', 'coupled', 'longitudinal', 'averages', 'printed', 'refused', 'orbit_table', 'derivatives', 'chromatic', 'advances', 'beyond_one', 'by_name', 'maps', 'spectra', 'lines', 'diffusion', 'damping', 'emittance', 'gradient_bends'])
P('W04', 'w04.cpp', 'random lenses (holes down to zero, thin shells, offsets, three profiles, both directions, four modes, momenta 0.3..7000 GeV/c) in lines with other elements and other processes asking for small steps, 1..25 turns, particles in the hole, on its edges and far outside; every particle before and after every process step compared with the closed-form kick; kick functions, tables, copies, changed settings; distinct = distinct radii',
  require=['dc', 'ac', 'skip-on', 'skip-off', 'diffusive-on', 'diffusive-off', 'hole', 'simple', 'measured', 'lhc', 'focusing', 'defocusing', 'displaced', 'outside', 'several-steps', 'elsewhere', 'tables', 'settings', 'invalid-mode', 'ac-unset', 'series', 'momenta'])
P('W02', 'w02.cpp', 'random lines of bends (with gradients), quadrupoles, sextupoles, correctors, solenoids and drifts, electrons, muons and protons from low to extreme momenta, angles or canonical variables, fixed or following reference, 1..9 steps or a maximum step, other processes asking for small steps, 0..20 particles; every particle before and after every process step compared with the classical loss; photon counts with a recording generator, default spectrum against its distribution and moments; distinct = distinct line or bunch',
  require=['bends', 'multipoles', 'gradient', 'canonical', 'angles', 'electrons', 'protons', 'muons', 'several-steps', 'reference', 'empty', 'between', 'no-field', 'photons', 'late-generator', 'spread', 'bunches', 'multipole', 'spectra'])
P('W03', 'w03.cpp', 'random lines of bends (gradients, pole faces, fields off by 5 %), solenoids, multipoles and cavities, charges of either sign and none, 0.05..300 GeV/c, separate spin momentum, 1..7 steps beside other processes, any spin and amplitude; every spin before and after every process step against the Thomas-BMT rotation, spins along the velocity without anomaly, spin tunes on the axis, orbits with and without spins, frames, sorting, removal, copies, output; distinct = distinct final spins',
  require=['bends', 'solenoids', 'multipoles', 'gradient', 'pole-faces', 'negative', 'positive', 'neutral', 'no-field', 'several-steps', 'spin-momentum', 'orbits', 'helicities', 'rings', 'copies', 'sorted', 'erased', 'rotated', 'shifted', 'lost'])
P('L02', 'l02.cpp', 'random models of 15 kinds of elements, magnet movers and corrector windings with shared, dotted and prefix names; patterns with wildcards and alternatives over the model or a beamline; reads, writes, increments with the state of every element of the model compared before and after; channel arrays and saved states against a list; klystrons in both modes over sequences of settings; distinct = distinct model, array or setting',
  require=['beamline', 'repository', 'none', 'several', 'read-only', 'alternatives', 'dots', 'increments', 'writes', 'windings', 'operations', 'resets', 'caches', 'replaced', 'empty', 'vector-sum', 'balanced', 'off'])
P('A01', 'a01.cpp', 'random sets of supports (curved, coincident, upstream of the origin, any order of the list, reference points at a support or elsewhere) under both ground motion models: covariance of thousands of histories against the law, independence of successive increments, vibration; histories of operations against the same history with scaled constants; same seed, restart; models with girders and mounts followed and restored exactly; eigensystems recorded and read back; distinct = distinct ground or history',
  require=['trials', 'arc', 'plane-increments', 'plane-absolute', 'vibration', 'coincident-supports', 'reference-at-a-support', 'increments', 'zero-steps', 'resets', 'to-increments', 'to-absolute', 'records', 'moved', 'supports'])
P('L03', 'l03.cpp', 'random beamlines with nested frames, shared and dotted names and elements already displaced; sequences of set and added shifts and rotations (spreads of 1e-10 to 1e-3, means, directions without spread) by patterns with wildcards and alternatives over the beamline or a part; every transform compared with what the errors drawn make of it, all others unchanged bit for bit; pooled distribution; same seed; clearing; distinct = distinct machine and history',
  require=['judged', 'shifts', 'rotations', 'set', 'added', 'sub-beamlines', 'alternatives', 'hits'])
P('I04', 'i04.cpp', 'random XTFF files written column by column (20 kinds of records, energies along linacs with beam loading, girders and mounts nested, apertures, types treated as drifts, reference momentum given or read), several files appended, several models from one reader; types, names, lengths, positions, fields evaluated at points, pole faces, apertures at points, frames by what moves with them, header, reports; missing, truncated and impossible files; distinct = distinct file',
  require=['components', 'multipoles', 'skew', 'skew-negative', 'rbends', 'sbends', 'straight-bends', 'solenoids', 'cavities', 'crabs', 'correctors', 'wires', 'round-apertures', 'rectangular-apertures', 'frames', 'reports', 'as-drift', 'reference-momentum', 'logs', 'beam-loading', 'appended', 'second-model', 'missing', 'truncated', 'crab-plane', 'tilts'])
P('W06', 'w06.cpp', 'random lines of position and profile monitors (lengths, measurement points incl. both ends, displaced, rolled, reflected, scaled, with responses, inactive, shared, default and removed buffers), particle and macro-particle bunches, 1..4 turns, random tracking steps, compared with free flight; noise statistics; channels with offsets over several generations of models; feedback loops of 1..6 signals and actuators with gains, set points, pulse delays and disturbances against normal equations; bunch records; checks for bad particles; distinct = distinct line, loop or bunch',
  require=['positions', 'profiles', 'smp', 'steps', 'misaligned', 'reflected', 'scaled', 'response', 'off-centre', 'default-buffer', 'all-inactive', 'series', 'readings', 'rebuilt', 'again', 'pulses', 'delayed', 'setpoints', 'restored', 'arrays', 'written', 'culled', 'kept', 'reports', 'large-ids'])
P('W01', 'w01.cpp', 'bunches of 1..400 particles (five longitudinal shapes, off-centre, without length or charge, either sign, truncated tails, any order of particles), 1..1200 bins, six kinds of longitudinal and transverse wake functions, CSR wakes with their smoothing, kicks at centre or exit, random steps, 1..3 wake elements with bends between, collimator modes 1..5 with rotated copies of the bunch, coupler kicks of cavities, macro-particle bunches with any slice width; compared with the convolution, with the direct sum over particles ahead, and with free flight; distinct = distinct bunch and binning',
  require=['kicks', 'transverse', 'centre', 'steps', 'csr', 'no-charge', 'no-length', 'truncated', 'bends', 'direct-sums', 'mode-kicks', 'rotated', 'many-bins', 'two-processes', 'coupler-kicks', 'rf-only', 'macro-kicks', 'macro-bends', 'shared-slices', 'walls'])

P('S01', 's01.cpp', 'the workloads of every other check and composite programs, run on builds with AddressSanitizer (stack use after return, initialisation order, strings), UndefinedBehaviorSanitizer (with conversions out of range) and checked iterators and containers; only what the instruments report is judged; distinct = distinct case of a workload',
  multi='dbg', technique='runtime monitoring: the randomised workloads of every check and composite random programs under AddressSanitizer, UndefinedBehaviorSanitizer and checked libstdc++ containers; the sanitizers decide', note='Decides the property on every generated case of the run (seeded; counts in evidence); says nothing about call sequences not generated. Trusts clang 18 sanitizers.', scale=(0.3, 3), budget=(10, 200), mincases=5000)
P('S02', 's01.cpp', 'the workloads of every other check and composite programs under valgrind memcheck: decisions, addresses and outputs which depend on memory never written; only what the instrument reports is judged; distinct = distinct case of a workload',
  multi='plain', technique='runtime monitoring: the randomised workloads of every check and composite random programs under valgrind memcheck; memcheck decides', note='Decides the property on every generated case of the run (seeded; counts in evidence); says nothing about call sequences not generated. Trusts valgrind 3.22; the workload of C06 is left out because its long double iterations do not end under the 64-bit arithmetic of valgrind.', scale=(0.2, 2), budget=(12, 200), mincases=500, skip=['C06'])
