"""Statement of every property (source of properties.jsonl) and how it is decided (source of DESIGN.md table)."""
SPEC = {}


def S(pid, title, statement, over, text, why, files, mech, how):
    assert len(title) <= 80, title
    SPEC[pid] = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                     anchors=dict(files=['Merlin++/' + f for f in files],
                                  mechanism=[dict(name=n, where=w) for n, w in mech]), how=how)


S('M01', 'Rotations and rigid transforms form one consistent group',
  'Every rotation or rigid transform built from axis rotations, displacements, products, inverses and half-turn conjugations acts on points, '
  'directions and phase-space rays exactly as the corresponding 3x3 matrix and displacement do, to rounding. Inverses undo, products apply right '
  'to left, copies are independent values, and nothing reports itself as an identity (or as untransformed) unless it is one.',
  ['inputs', 'histories'], 'all words over the rotation/transform operations, all angles including 0, multiples of pi/2 and tiny ones',
  'No test exercises transforms directly; tests track through a few fixed misalignments.',
  ['AxisRotations.cpp', 'GeneralRotation.cpp', 'IdentityRotation.cpp', 'Rotation3D.h', 'Transform3D.h', 'Transform2D.h', 'PSvectorTransform3D.cpp', 'Transformable.h', 'Transformable.cpp'],
  [('specialised rotation representations with double dispatch', 'AxisRotations.cpp'), ('shared reference-counted representation', 'Rotation3D.h')],
  'random operation words run on the library under ASan/UBSan; every result compared online with a long-double 3x3 matrix + displacement model, plus algebraic monitors (inverse, norm, associativity, false-identity)')

S('M02', 'Dense linear algebra returns what the algebra defines',
  'Vector and matrix arithmetic, views, transposes, products, inverses, determinants, linear solves, singular-value solves and eigen-decompositions '
  'return the mathematically defined result (to conditioning) for every shape they accept. Shapes they do not accept are refused with an exception, and no operation touches memory outside its operands or changes an operand it should only read.',
  ['inputs'], 'all shapes up to 12x12, well- and ill-conditioned, singular and permuted matrices, all sub-views',
  'No unit test covers the matrix library; optics tests use a handful of 6x6 matrices.',
  ['TLAS.h', 'TLASimp.h', 'TMatrixLib.h', 'LinearAlgebra.h', 'LinearAlgebra.cpp'],
  [('LU / SVD / Gauss-Jordan / QR eigen solver', 'TLASimp.h, LinearAlgebra.cpp')],
  'random shapes/values under ASan+UBSan; oracle = naive long-double loops and residual monitors (A*inv(A)=I, LU solve residual, singular-value orthogonality, eigen residual, symplectic condition)')

S('M03', 'Linear and second-order maps act, compose and propagate moments correctly',
  'A linear map applied to a vector, to a bunch of vectors or to a set of first and second moments gives the same answer as the full 6x6 matrix it represents, '
  'and composing maps equals applying one after the other. A second-order map applied to a vector equals its linear part plus the stated quadratic sum.',
  ['inputs'], 'all sparse maps, all vectors and moment sets, all orders of composition',
  'Tests never construct maps by hand; they only see the net result of tracking.',
  ['RMap.h', 'RMap.cpp', 'RTMap.h', 'RTMap.cpp', 'MatrixMaps.h', 'MatrixMaps.cpp', 'PSTypes.h', 'PSmoments.cpp', 'TransportRMap.h', 'TransportRMap.cpp'],
  [('sparse row/column/value storage', 'RMap.h'), ('symmetric second-moment storage', 'PSTypes.h')],
  'random sparse maps evaluated against dense long-double matrices; per-element linear maps compared with ODE-derived matrices and symplecticity monitor')

S('M04', 'Tables, histograms and spline interpolation return the data they were given',
  'An interpolating function returns the tabulated value at every node, follows its stated interpolation rule between nodes, and refuses (or extrapolates as documented) outside its range. A histogram counts every entry in exactly one bin. A name pattern matches exactly the names that its literals, wildcards and alternatives describe.',
  ['inputs'], 'all node sets (equal and unequal spacing, 2..50 nodes), all arguments including the end points and neighbours of nodes',
  'No test covers interpolation or histogramming.',
  ['Interpolation.h', 'Interpolation.cpp', 'Histogram.h', 'Histogram.cpp', 'utils.h', 'StringPattern.h', 'StringPattern.cpp', 'RangeBase.h'],
  [('array/linear interpolation methods', 'Interpolation.cpp')],
  'random tables against a direct long-double evaluation; boundary and node probing under ASan')

S('G01', 'Element geometry: transforms along a path compose and invert',
  'For every element geometry the transform from s0 to s1 followed by the one from s1 to s2 equals the one from s0 to s2, going back is the inverse, and the total equals entrance-to-exit. Straight geometry advances along z; arc geometry follows the circle of its curvature; positions outside the extent are refused.',
  ['inputs'], 'all lengths, curvatures (both signs, tiny), all positions inside, at and outside the extent',
  'Tests only use geometry through tracking of fixed lattices.',
  ['AcceleratorGeometry.h', 'RectangularGeometry.cpp', 'ArcGeometry.cpp', 'LatticeFrame.cpp', 'SequenceFrame.cpp', 'SequenceGeometry.cpp'],
  [('GetGeometryTransform family', 'ArcGeometry.cpp, RectangularGeometry.cpp, SequenceGeometry.cpp')],
  'random positions on random single and nested geometries; the transform is compared with an independently integrated Frenet frame')

S('G02', 'Frame misalignment moves what it should and nothing else',
  'Displacing or rotating a component, a nested frame, a girder or a support moves exactly the components inside it, by the same rigid motion about that frame\'s origin, and clearing the displacement restores the ideal machine. The transform a component reports to global or to an enclosing frame is the composition of every frame between.',
  ['inputs', 'histories'], 'all nestings of frames, all sequences of displacements, offsets and clears, all support motions',
  'ground_movement checks one support configuration; nested frames and movers are not tested.',
  ['LatticeFrame.cpp', 'SequenceFrame.cpp', 'ComponentFrame.cpp', 'SupportStructure.cpp', 'MagnetMover.cpp', 'AcceleratorSupport.h', 'Transformable.cpp'],
  [('local frame transformations and entrance/exit plane corrections', 'LatticeFrame.cpp'), ('support motion to frame offset', 'SupportStructure.cpp')],
  'random nested models; every component\'s physical pose is reconstructed by an independent forward-kinematics model and compared after every operation')

S('L01', 'The accelerator model contains exactly what was put into it, in order',
  'A constructed model lists every appended component exactly once, in order, with arc positions equal to the accumulated lengths. Beamlines, rings, reversed beamlines and name or type queries select exactly the matching components of the model, and unknown names or impossible requests are refused.',
  ['inputs', 'programs'], 'all construction scripts (nested frames, girders, drifts, markers, repeated names, random element types) and all index/name/pattern queries',
  'Tests build a few models and look at a few elements.',
  ['AcceleratorModel.cpp', 'AcceleratorModelConstructor.cpp', 'ElementRepository.cpp', 'RingIterator.h', 'StringPattern.cpp', 'TypeFactory.h'],
  [('flat lattice vector and element repository', 'AcceleratorModel.cpp'), ('frame stack', 'AcceleratorModelConstructor.cpp')],
  'random construction scripts against a plain list model, all queries compared')

S('L02', 'Read/write channels act on exactly the named quantity of the named elements',
  'A channel obtained for an element attribute reads that attribute\'s current value, writing sets it, incrementing adds to it, and no other attribute of any element changes. Channel arrays keep the order of the elements they were built from.',
  ['inputs', 'histories'], 'all element types with channels, all keys, all interleavings of reads, writes, increments and direct setter calls',
  'No test uses channels.',
  ['Channels.h', 'ChannelServer.h', 'ChannelServer.cpp', 'BasicChannelCtor.h', 'TIC.h', 'MagnetMover.cpp', 'Klystron.h', 'CorrectorWinding.cpp'],
  [('channel constructors keyed by ID patterns', 'ChannelServer.cpp')],
  'random channel traffic with a shadow state of every attribute of every element compared after every step')

S('L03', 'Random alignment errors hit exactly the selected elements with the stated spread',
  'Applying random alignment errors (shifts or rotations) changes only elements whose name matches the pattern, only in the requested degrees of freedom, normally distributed with the requested mean and spread, however small. The same random seed gives the same machine, and clearing removes every error.',
  ['inputs', 'configurations'], 'all patterns, all combinations of degrees of freedom, means, spreads and seeds',
  'No test applies random errors.',
  ['AcceleratorErrors.h', 'AcceleratorErrors.cpp', 'RandomNG.h'],
  [('pattern match and normal sampling per element', 'AcceleratorErrors.cpp')],
  'random lattices; before/after poses of all components diffed; sample moments tested at 6 sigma')

S('T01', 'Tracking runs each process over each element exactly once, in priority order',
  'While a bunch is tracked every active process sees the elements in beam order, its steps tile each element from 0 to the full length without gap or overlap, no step exceeds the shortest limit any active process asked for, and at each step processes act in priority order. Adding and removing processes takes effect exactly for the named process and is reported truthfully.',
  ['schedules', 'programs', 'configurations'], 'all sets of processes with arbitrary priorities, activity patterns and step limits, all beamlines, adding and removing in any order',
  'Tests use fixed process lists and only look at the final bunch.',
  ['ProcessStepManager.cpp', 'TrackingSimulation.cpp', 'BunchProcess.h', 'TrackingOutputAV.cpp', 'TTrackingOutput.h'],
  [('sorted process list and minimum step loop', 'ProcessStepManager.cpp')],
  'recording processes log every call; the event log is checked against a trace specification (tiling, order, minimum step, membership)')

S('T02', 'Particles are tracked independently, reproducibly and keep their identity',
  'Without collective processes, where one particle ends up depends only on its own start and the machine: not on the other particles in the bunch, their number or order. Tracking neither creates, drops, duplicates nor relabels particles, leaves the machine unchanged, and repeating it gives identical coordinates.',
  ['inputs', 'configurations'], 'all element types, integrator sets and bunch sizes/orders; mixed-sign and large amplitude particles',
  'Tests compare a handful of final numbers for one bunch.',
  ['TCovMechanics.h', 'TrackingSimulation.cpp', 'ParticleComponentTracker.h', 'StdIntegrators.cpp', 'TransportIntegrators.cpp', 'SymplecticIntegrators.cpp', 'ParticleBunch.cpp'],
  [('per-particle maps applied over the bunch', 'StdIntegrators.cpp, TransportIntegrators.cpp, SymplecticIntegrators.cpp')],
  'metamorphic monitor: the same particle tracked alone, in company, permuted and repeated; bitwise/rounding comparison and full model state digest')

S('T03', 'Element tracking reproduces the Lorentz force to the order each model claims',
  'For drifts, dipoles, correctors, multipoles of every order, solenoids and sector bends (with pole faces and fringe), the change of coordinates through an element agrees with direct integration of the equations of motion, in every integrator set, to the order in amplitude, momentum deviation and slicing that the set claims. Signs, tilts, charge and reference momentum dependence included.',
  ['inputs', 'configurations'], 'all field strengths and combinations, both charge signs, off-momentum particles, all integrator sets, all slicings',
  'LHC optics tests cover one machine, one charge, mid-plane fields.',
  ['StdIntegrators.cpp', 'TransportIntegrators.cpp', 'SymplecticIntegrators.cpp', 'TransportMatrix.cpp', 'BasicTransportMaps.cpp', 'MultipoleField.cpp', 'SectorBend.cpp', 'Solenoid.cpp'],
  [('kick-drift and matrix integrators', 'StdIntegrators.cpp, TransportIntegrators.cpp, SymplecticIntegrators.cpp')],
  'random elements and particles tracked by the library; oracle = high-order ODE integration of the particle in the element\'s own field; residual compared with an amplitude-scaled bound')

S('T04', 'Tracking is symplectic, composable in steps and covariant',
  'The map of any element conserves phase-space volume pairing to the claimed order, splitting an element into sub-steps gives the same result to the claimed order, rotating field and particle together changes nothing, and running an equal-and-opposite machine restores the particle.',
  ['inputs', 'configurations'], 'all elements and integrator sets; all rotation angles of field and beam; all sub-step partitions',
  'Tests cannot see symplectic error or asymmetric treatment of skew and normal components from one lattice.',
  ['StdIntegrators.cpp', 'TransportIntegrators.cpp', 'SymplecticIntegrators.cpp', 'PSvectorTransform3D.cpp', 'BasicTransportMaps.cpp'],
  [('exact sub-map composition', 'SymplecticIntegrators.cpp')],
  'finite-difference Jacobians of the tracked map checked for J^T S J = S; metamorphic comparisons (split, rotate, reverse)')

S('T05', 'Tracking a lattice is the composition of tracking its parts',
  'Tracking a beamline in one go, piece by piece, in several calls, with a fresh or a continued bunch, or for n turns of a ring equals applying the parts in sequence. Run works on a fresh bunch every time and Continue carries on where the bunch was left; output hooks see each selected element once per pass.',
  ['programs', 'histories'], 'all partitions of a lattice into beamlines, all start/end indices, all turn counts, all sequences of Run and Continue',
  'Tests run each lattice one way only.',
  ['TrackingSimulation.cpp', 'TrackingSimulation.h', 'ParticleTracker.h', 'AcceleratorModel.cpp', 'RingIterator.h', 'TTrackSim.h'],
  [('PerformTracking over lattice iterators', 'TrackingSimulation.cpp')],
  'metamorphic comparison over random partitions; recording output object checks the visit trace')

S('T06', 'A misaligned element acts as the aligned one seen from displaced coordinates',
  'Tracking through components in displaced or rotated frames equals transforming the particle into the component\'s own coordinates, tracking through the aligned component and transforming back, at every nesting depth. Misaligning a field-free region changes nothing and a rotation by exactly zero is no rotation.',
  ['inputs', 'configurations'], 'all displacements and rotations (including arcs) of single components, girders and nested frames',
  'Only one ground-motion style test; no check of rotated or nested frames.',
  ['LatticeFrame.cpp', 'TransformationHandler', 'TComponentTracker.h', 'ParticleBunch.cpp', 'SequenceFrame.cpp', 'FrameTraverser.h', 'SMPTransform3D.cpp'],
  [('entrance/exit/boundary transforms issued by the component frames', 'LatticeFrame.cpp, SequenceFrame.cpp')],
  'oracle: ray transform through the independently computed pose + library tracking of the bare component')

S('T07', 'RF cavities change energy and time consistently',
  'Through travelling- and standing-wave structures and transverse RF cavities the energy gain, focusing, reference momentum and time of flight agree with the stated field, phase, frequency and length for every particle offset in time. Reference and relative momenta always describe the same physical momentum before and after.',
  ['inputs', 'configurations'], 'all phases, voltages, frequencies, lengths, momentum offsets; full-acceleration and plain tracking; rings and linacs',
  'No test tracks through RF.',
  ['TWRFStructure.cpp', 'SWRFStructure.cpp', 'TransverseRFStructure.cpp', 'TWRFfield.cpp', 'SWRFfield.cpp', 'StdIntegrators.cpp', 'RFStructure.cpp'],
  [('RF integrators', 'StdIntegrators.cpp')],
  'oracle: closed-form / integrated energy gain; monitors on P0(1+dp) bookkeeping')

S('T08', 'Macro-particle and particle tracking agree to first order',
  'A sliced macro-particle bunch tracked through any linear beamline has centroids equal to those of particles started at the slice centroids and second moments equal to those propagated by the linear map, and its total charge is conserved. Beam moments reported for the bunch are the charge-weighted moments of its slices.',
  ['inputs', 'configurations'], 'all linear lattices including misaligned and accelerating elements, all slice populations',
  'No test uses macro-particle bunches.',
  ['SliceMacroParticle.cpp', 'SMPBunch.cpp', 'SMPBunchConstructor.cpp', 'SMPStdIntegrators.cpp', 'SMPTransform3D.cpp', 'SMPComponentTracker.h'],
  [('slice moment propagation', 'SMPStdIntegrators.cpp')],
  'differential monitor: macro-particle tracking vs. particle tracking of centroid and Jacobian-propagated moments')

S('B01', 'Bunch moments and statistics are those of the particles it holds',
  'Centroid, second moments, projected moments, charge, size and energy spread reported by a bunch equal the charge-independent sample moments of its particles, whatever was computed before, and computing them does not change the bunch. Adjusting the centroid yields the requested mean.',
  ['inputs', 'histories'], 'all bunches (1..5000 particles, huge offsets, equal particles), all orders of calls',
  'bunch_test uses a few hand-made particles.',
  ['ParticleBunch.cpp', 'ParticleBunchUtilities.cpp', 'Bunch.h', 'PSmoments.cpp', 'BeamData.h', 'ParticleBunchTypes.h'],
  [('moment accumulation', 'ParticleBunch.cpp')],
  'random bunches; oracle = two-pass long-double moments')

S('B02', 'Constructed bunches follow the requested beam distribution',
  'Every particle distribution delivers the requested number of particles, with unique identities, the requested means, emittances, Twiss, dispersion, coupling, charge and momentum, inside the requested cut-offs or filter, and is reproducible from the seed.',
  ['inputs', 'configurations'], 'all distributions, Twiss/dispersion/coupling/cut-off settings, filters and seeds',
  'particle_bunch_constructor_test covers a few parameter sets.',
  ['ParticleBunchConstructor.h', 'ParticleBunchConstructor.cpp', 'ParticleDistributionGenerator.cpp', 'BunchFilter.cpp', 'HaloParticleDistributionGenerator.h', 'NormalTransform.cpp', 'BeamData.cpp'],
  [('normalised sampling then normal-mode transform', 'ParticleDistributionGenerator.cpp, ParticleBunch.cpp')],
  'statistical monitors at >=6 sigma and exact support monitors (ring amplitude, cuts) against an independent Twiss back-transform')

S('B03', 'Bunch files read back as the bunch that was written',
  'Writing a bunch and reading it back yields the same particles (to printed precision), order, identities and reference data; the text form has the documented columns. Malformed or truncated input never yields invented particles or memory errors.',
  ['inputs', 'fault_sequences'], 'all bunches incl. extreme values, all file modes; truncated and corrupted files',
  'bunch_io_test round-trips one small bunch.',
  ['ParticleBunch.cpp', 'BunchIO.cpp', 'PSTypes.h', 'PSvector.cpp'],
  [('stream operators', 'ParticleBunch.cpp')],
  'random round trips plus mutation of files under ASan; particle-by-particle comparison')

S('B04', 'Changing the reference of a bunch never changes the physics of its particles',
  'Adjusting the reference momentum or time, to the mean or to a given value, leaves every particle\'s absolute momentum, angles and absolute time unchanged to rounding. Only the split between reference and deviation changes.',
  ['inputs', 'histories'], 'all bunches and all sequences of reference changes',
  'Not tested beyond one call.',
  ['ReferenceParticle.h', 'ReferenceParticle.cpp', 'ParticleBunch.cpp', 'SMPBunch.cpp', 'Bunch.h'],
  [('AdjustRefMomentum / AdjustRefTime', 'ParticleBunch.cpp')],
  'absolute momentum/time of each particle recorded before and after each call')

S('R01', 'Random numbers have the stated distribution and are reproducible',
  'Each generator call returns samples of the requested distribution (mean, spread, cut, range), the same seed yields the same sequence, and independently seeded local streams neither repeat nor disturb each other.',
  ['inputs', 'histories'], 'all distributions, parameters and cut-offs, all interleavings of init, reset and local generators',
  'random_test.py samples fixed parameters only.',
  ['RandomNG.h', 'RandomNG.cpp', 'NormalTransform.cpp'],
  [('mt19937 master and local streams', 'RandomNG.cpp')],
  'goodness-of-fit monitors at fixed 1e-9 false-alarm level, hard range monitors, sequence replay comparison')

S('O01', 'The closed orbit is a fixed point of the one-turn map',
  'The orbit returned by the closed-orbit finder, tracked once around the same ring with the same settings, comes back to itself within the tolerance reported, for every stable ring with errors, with or without RF and radiation. The ring itself is not changed.',
  ['inputs', 'configurations'], 'random stable rings with dipole errors, misalignments, momentum offsets, start positions',
  'Only one LHC lattice is ever solved.',
  ['ClosedOrbit.cpp', 'ClosedOrbit.h', 'TransferMatrix.cpp', 'RingDeltaTProcess.cpp'],
  [('Newton iteration on the tracked map', 'ClosedOrbit.cpp')],
  'returned orbit re-tracked with an independent tracker instance, residual monitor and analytic small-kick orbit')

S('O02', 'Lattice functions, tunes and phase advances are those of the one-turn map',
  'Computed Twiss functions, dispersion, phase advance and tunes satisfy the defining relations of the lattice\'s own transfer maps at every element, and agree among the different calculators in the library. Evaluating them does not change the machine.',
  ['inputs', 'configurations'], 'random stable coupled and uncoupled rings, all observation points, all requested functions',
  'Compared with MAD-X for one LHC sequence only (data-dependent).',
  ['LatticeFunctions.cpp', 'LatticeFunctions.h', 'PhaseAdvance.cpp', 'BetatronTunes.cpp', 'Dispersion.cpp', 'EquilibriumDistribution.cpp', 'FFT', 'LinearAlgebra.cpp'],
  [('eigenvectors of the one-turn matrix propagated by tracking', 'LatticeFunctions.cpp')],
  'oracle: one-turn matrices from independently composed element matrices; Twiss from the matrix trace; propagation identities')

S('O03', 'The transfer matrix is the derivative of the tracked map',
  'The transfer matrix returned for a ring or beamline about an orbit equals the derivative of the tracked map there, and is symplectic when the elements are. Dispersion equals the derivative of the off-momentum orbit.',
  ['inputs', 'configurations'], 'random rings and lines, positions, orbits, step sizes',
  'Never tested directly.',
  ['TransferMatrix.cpp', 'TransferMatrix.h', 'Dispersion.cpp'],
  [('finite differences of tracked rays', 'TransferMatrix.cpp')],
  'oracle: product of analytic element matrices and Richardson finite differences')

S('C01', 'Collimation accounts for every particle exactly once',
  'In every tracking run each particle is at the end either still in the bunch or recorded as lost, never both, never neither and never twice; particles inside every aperture on every check are never removed and particles outside are always removed. Counts, identities and reported losses agree.',
  ['inputs', 'histories', 'configurations'], 'all lattices with apertures and collimators, scattering on/off, all bunch shapes, multiple turns, all loss output types',
  'collimate_particle_process_test uses hand-placed particles and one aperture.',
  ['CollimateParticleProcess.cpp', 'CollimateProtonProcess.cpp', 'CollimationOutput.h', 'ScatteringProcess.cpp', 'ScatteringModel.cpp'],
  [('loss detection and Dispose calls', 'CollimateParticleProcess.cpp')],
  'recording CollimationOutput + id ledger: conservation, exactly-once and aperture-membership monitors against an independent aperture/trajectory model')

S('C02', 'Losses are reported where they happen',
  'Every reported loss names the element in which it happened, the turn, and a position inside that element within the chosen bin of the place where the trajectory leaves the aperture, with the coordinates of the particle there.',
  ['inputs', 'histories'], 'all element lengths and bin sizes, all trajectories and apertures, several turns',
  'Tests compare a loss map histogram of one machine.',
  ['CollimateParticleProcess.cpp', 'LossMapCollimationOutput.cpp', 'DetailedCollimationOutput.cpp'],
  [('re-tracking of lost particles in bins', 'CollimateParticleProcess.cpp')],
  'straight and bent trajectories intersected analytically with the aperture; loss record compared')

S('C03', 'Apertures accept exactly the points of their shape',
  'Every aperture shape accepts a point if and only if it lies inside the defining curves, for every sign, quadrant and parameter set, and is invariant under the symmetries of the shape.',
  ['inputs'], 'all shapes and parameters, points everywhere with emphasis on the boundary and on shortcut regions',
  'aperture_test probes a few points per shape.',
  ['Aperture.h', 'Aperture.cpp', 'CollimatorAperture.h', 'CollimatorAperture.cpp', 'SimpleApertures.h'],
  [('fast acceptance tests followed by exact tests', 'Aperture.cpp')],
  'point-membership oracle from the defining inequalities; boundary-hugging sampling')

S('C04', 'Interpolated and tapered apertures follow their profile along the element',
  'An interpolated aperture accepts at each longitudinal position exactly the points of the shape interpolated between the neighbouring profile entries, reproduces each entry at its position, and a tapered or tilted collimator jaw moves linearly between its ends.',
  ['inputs'], 'all profiles (repeated, unequal and single positions), all positions including the ends',
  'No test covers interpolated apertures except through one LHC file.',
  ['InterpolatedApertures.h', 'InterpolatedApertures.cpp', 'CollimatorAperture.cpp', 'Aperture.cpp'],
  [('search for neighbouring profile entries', 'InterpolatedApertures.cpp')],
  'oracle: linear interpolation of the parameters + membership inequality')

S('C05', 'Aperture configuration gives each element the apertures of its own place',
  'Reading an aperture table and configuring a lattice gives every drift the piecewise linear profile that the table states between its entrance and exit, and every other element the shape of the first table entry at or behind its entrance. Elements that already have an aperture and elements without length are left alone, and a survey reports the installed limits where they are.',
  ['inputs', 'configurations'], 'all tables (gaps, duplicates, end points) against random lattices',
  'aperture_config_test.py uses the LHC table.',
  ['ApertureConfiguration.cpp', 'Aperture.cpp', 'InterpolatedApertures.cpp', 'ApertureSurvey.cpp'],
  [('search by arc position', 'ApertureConfiguration.cpp')],
  'profile of the table vs. acceptance of the installed aperture probed at many s')

S('C06', 'Scattering obeys its conservation laws and cross sections',
  'Every scattering interaction leaves energy no larger than before, follows the stated angular and energy-loss distributions, and picks interaction kinds in proportion to the material\'s cross sections; absorbed particles are never tracked further. Step lengths sum to the path travelled in material.',
  ['inputs', 'configurations'], 'all materials, scattering models, energies and path lengths',
  'cu50_test.py looks at the final histogram of one material.',
  ['ScatteringModel.cpp', 'ScatteringProcess.cpp', 'ElasticScatter.cpp', 'DiffractiveScatter.cpp', 'CoulombScatter.cpp', 'CrossSections.cpp', 'MaterialData.cpp'],
  [('path length and interaction choice', 'ScatteringModel.cpp, CollimateProtonProcess.cpp')],
  'hooked interactions: kinematic monitors per event and distribution monitors at >=6 sigma')

S('C07', 'Loss-map outputs contain every recorded loss once',
  'The loss maps and detailed loss tables written after a run contain each recorded loss exactly once in the bin of its position, are sorted as documented and add up to the number of losses.',
  ['inputs', 'histories'], 'all sequences of losses (repeated positions, several turns, all element kinds), all output types',
  'Only one LHC histogram test.',
  ['LossMapCollimationOutput.cpp', 'DetailedCollimationOutput.cpp', 'FlukaCollimationOutput.cpp', 'TurnCollimationOutput'],
  [('grouping and merging of loss records', 'LossMapCollimationOutput.cpp')],
  'replay of synthetic losses; output parsed and reconciled with the ledger')

S('C08', 'Material data are physically consistent and mixtures follow their composition',
  'Every material reports positive, mutually consistent properties, lookups by name return the named material or are refused, and mixtures have the averages their mass or number fractions define.',
  ['inputs'], 'all materials and all mixtures of them in any proportion and order',
  'materials test reads some values.',
  ['MaterialData.cpp', 'MaterialProperties.cpp', 'Material.cpp', 'MaterialDatabase.cpp', 'CompositeMaterial.cpp'],
  [('derived quantities', 'MaterialProperties.cpp, CompositeMaterial.cpp')],
  'oracle: independent evaluation of the formulae; mixture metamorphic monitors')

S('C09', 'Collimator settings files set exactly the collimators they name',
  'After configuring from a collimator file each named collimator has the half-gap, tilt, material and offsets that the file and the beam size at its position define; others are unchanged, and missing or malformed entries are refused.',
  ['inputs', 'configurations'], 'all settings files (order, duplicates, unknown names, sigma and absolute modes) and lattices',
  'Only the LHC collimator file is read by tests.',
  ['CollimatorDatabase.cpp', 'CollimatorSurvey.cpp', 'CollimatorAperture.cpp'],
  [('settings application from lattice functions', 'CollimatorDatabase.cpp')],
  'random files against independently evaluated jaw settings')

S('W01', 'Wakefields are the convolution of the bunch with the wake',
  'The kicks given by a wakefield process equal the sum over preceding charge of wake function times charge (and offset), conserve the intended totals, are causal, vanish for zero charge, scale linearly with charge and are independent of particle order.',
  ['inputs', 'configurations'], 'all bunch shapes, bin numbers, wake functions, recalculation modes; particle and macro-particle bunches',
  'No test covers wakefields.',
  ['WakeFieldProcess.cpp', 'SMPWakeFieldProcess.cpp', 'CollimatorWakeProcess.cpp', 'WakePotentials.h', 'ParticleBunchUtilities.cpp', 'CollimatorWakePotentials.h'],
  [('slicing and bunch wake', 'WakeFieldProcess.cpp')],
  'oracle: direct binned convolution; causality/linearity/permutation monitors')

S('W02', 'Synchrotron radiation removes the right energy and only energy',
  'In a bend every particle loses on average the classical radiated energy for its field, momentum and path (none in field-free elements), photon energies are non-negative and follow the stated spectrum, and direction is unaffected apart from momentum scaling.',
  ['inputs', 'configurations'], 'all fields, energies, modes (mean/quantum, pole-face, quadrupole radiation), step sizes',
  'No test covers radiation.',
  ['SynchRadParticleProcess.cpp', 'SynchRadParticleProcess.h', 'RingDeltaTProcess.cpp', 'BasicTransportMaps.cpp'],
  [('photon generation per step', 'SynchRadParticleProcess.cpp')],
  'oracle: analytic energy loss and photon number; statistical monitors')

S('W03', 'Spin keeps its length and precesses as the field dictates',
  'Spin tracking preserves each particle\'s spin length, precesses by the Thomas-BMT angle about the local field through every element, and follows frame rotations; orbits are unaffected.',
  ['inputs', 'configurations'], 'all fields, energies, frames and initial spins',
  'No test covers spin.',
  ['SpinParticleProcess.cpp', 'SpinParticleProcess.h'],
  [('per-step rotation', 'SpinParticleProcess.cpp')],
  'oracle: direct integration of Thomas-BMT; norm monitor per particle per step')

S('W04', 'The hollow electron lens kicks only what its profile covers',
  'Particles inside the hole of a hollow electron lens are untouched; others are kicked radially with the strength its profile, current and geometry define, with the sign given by the beam directions; operation modes switch the kick in the stated turn pattern.',
  ['inputs', 'histories', 'configurations'], 'all radii, profiles, currents, operation modes, turns and offsets',
  'HEL tests check a footprint of one configuration.',
  ['HollowELensProcess.cpp', 'HollowElectronLens.cpp'],
  [('kick profile and operation mode', 'HollowELensProcess.cpp')],
  'oracle: closed-form kick per mode')

S('W05', 'Cavity failures and time-dependent processes act on schedule',
  'Crab-cavity failure and other turn-dependent processes apply their kick or change exactly on the turns and elements their schedule states, with the stated amplitude, and nothing otherwise.',
  ['histories', 'configurations'], 'all failure turns, durations, phases and voltages',
  'No test covers them.',
  ['CCFailureProcess.cpp', 'RingDeltaTProcess.cpp', 'Bunch', 'SymplecticIntegrators.cpp'],
  [('turn counters', 'CCFailureProcess.cpp')],
  'oracle: schedule model per turn')

S('W06', 'Monitors and feedback report and correct what the beam does',
  'BPMs, profile and rms monitors report the moments of the bunch that passes, within their resolution and including their own offset, at their place and nowhere else, to every registered buffer once per passage. Linear feedback drives its actuators by gain times the projected error.',
  ['inputs', 'histories'], 'all monitors, offsets, resolutions, buffer registrations, feedback matrices and signal sequences',
  'No test covers monitors or feedback.',
  ['BPM.cpp', 'RMSProfileMonitor.cpp', 'Monitor.cpp', 'MonitorProcess.cpp', 'BPMDataBufferServer.cpp', 'BPMVectorBuffer.cpp', 'LinearFBSystem.cpp', 'TTrackingOutput.h', 'KlystronChannels'],
  [('MakeMeasurement and buffers', 'BPM.cpp'), ('pseudo-inverse feedback', 'LinearFBSystem.cpp')],
  'measurements recorded through a subscribing buffer and compared with directly computed bunch moments')

S('I01', 'Data tables hold exactly what was put in and refuse the rest',
  'A data table returns each stored cell with its value and type, keeps columns the same length, honours header entries, and refuses wrong types, unknown names and out-of-range rows without changing anything.',
  ['histories', 'inputs'], 'all sequences of column/row/header operations, valid and invalid',
  'datatable_test is example based.',
  ['DataTable.h', 'DataTable.cpp', 'DataTableRowIterator'],
  [('typed column storage', 'DataTable.cpp')],
  'random operation sequences against a reference model with typed cells; exception oracle')

S('I02', 'TFS files round-trip and malformed ones are refused',
  'Writing a table as TFS and reading it back gives the same header, columns, types and values (to printed precision), whatever legal text they contain. Malformed or truncated files raise an error instead of crashing or yielding wrong data.',
  ['inputs', 'fault_sequences'], 'all tables of legal values, all truncations and mutations of files',
  'datatable_tfs_test reads fixed data files (absent here).',
  ['DataTableTFS.cpp', 'DataTableTFS.h', 'DataTable.cpp'],
  [('tokeniser and type mapping', 'DataTableTFS.cpp')],
  'round-trip oracle and mutation fuzzing under ASan/UBSan with an independent TFS reader')

S('I03', 'Lattice files become the machine they describe',
  'Reading a MAD-X style optics table yields one component per row with the type, name, length, position, strength and sign that the row and the reference momentum define; honoured options change exactly what they say; unknown element types are refused or skipped as configured.',
  ['inputs', 'configurations'], 'all row types, orders, strengths, both beam signs and all interface options',
  'Tests read two LHC tables (absent here).',
  ['MADInterface.cpp', 'MADInterface.h', 'MADKeyMap', 'TypeFactory.h', 'DataTableTFS.cpp', 'AcceleratorModelConstructor.cpp'],
  [('row to component factories', 'MADInterface.cpp')],
  'generated optics tables against a row-by-row oracle of the resulting components')

S('I04', 'XTFF files become the machine they describe',
  'Reading an XTFF lattice file yields the components, lengths, fields and energies that its records define, in order, and reports the elements it cannot treat.',
  ['inputs', 'configurations'], 'all record types and energies',
  'No test covers XTFF.',
  ['XTFFInterface.cpp', 'XTFFInterface_1.cpp'],
  [('record parser', 'XTFFInterface.cpp')],
  'generated files against a record-by-record oracle')

S('S01', 'No workload makes the library touch invalid memory or invoke undefined behaviour',
  'Building, tracking, analysing and destroying arbitrary valid machines, bunches and processes, in any legal order of calls, never reads or writes invalid memory, never frees twice, never overflows or divides in undefined ways.',
  ['programs', 'histories', 'configurations'], 'all legal API call sequences',
  'Tests run without sanitizers on a few fixed programs.',
  ['TrackingSimulation.cpp', 'AcceleratorModel.cpp', 'ParticleBunch.cpp', 'SymplecticIntegrators.cpp', 'CollimateParticleProcess.cpp', 'ProcessStepManager.cpp'],
  [('ownership conventions', 'AcceleratorModelConstructor.cpp, ProcessStepManager.cpp')],
  'random whole-program workloads under ASan+UBSan+libstdc++ assertions')

S('S02', 'No result depends on uninitialised data',
  'No observable result, decision or output of any workload depends on memory that was never written.',
  ['programs', 'configurations'], 'all legal API call sequences, fresh and reused objects',
  'Tests cannot see uninitialised reads.',
  ['PSTypes.h', 'SequenceFrame.cpp', 'CollimateParticleProcess.cpp', 'ParticleBunch.cpp', 'Aperture.cpp'],
  [('constructors initialise members', 'throughout')],
  'composite workloads of all other harness families run under valgrind memcheck')

S('A01', 'Ground motion follows the ATL law and restores on reset',
  'Ground motion moves supports so that relative displacement variance grows as A times time times distance, is reproducible from the seed, applies vibration only for the moment it is requested, and reset restores the initial ground.',
  ['inputs', 'histories'], 'all support layouts, A, vibration, time steps and seeds',
  'ground_movement compares one run with stored numbers.',
  ['ATL2D.cpp', 'SimpleATL.cpp', 'SupportStructure.cpp'],
  [('random increments along the lattice', 'SimpleATL.cpp, ATL2D.cpp')],
  'statistical monitors over ensembles at >=6 sigma plus exact reset/replay monitors')

S('P01', 'Parallel tracking equals serial tracking',
  'Distributing the particles of a bunch over processes and gathering them gives the same particles as serial tracking.',
  ['schedules', 'configurations'], 'all process counts and distributions',
  'Never built in tests.',
  ['ParticleBunch.cpp', 'MPI_Controller', 'MerlinConfig'],
  [('MPI scatter/gather', 'ParticleBunch.cpp')],
  'library built with ENABLE_MPI and run under the installed OpenMPI with 1..6 ranks; gathered bunch compared with serial run')
