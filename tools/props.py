# Properties: id, title, statement, over, quant, why, files, mech, tech
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, tech, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mech=mech, tech=tech, **kw))


P('P01', 'Magnet and drift tracking maps are symplectic',
  'For every Drift, bend, quadrupole, multipole, solenoid, corrector and non-accelerating element, the linear part (Jacobian) of the '
  'map that a particle bunch undergoes when tracked through it is symplectic, so phase-space area is neither created nor destroyed: in all '
  'six coordinates at any particle of the acceptance for the SYMPLECTIC set, in the transverse coordinates of on-momentum particles for '
  'THIN_LENS, and to second order in the coordinates for TRANSPORT (monitors and solenoids transversely at fixed momentum). This holds '
  'for every element length, strength, reference momentum and particle charge sign.',
  ['inputs', 'configurations'], 'all element parameters, all particle coordinates in the paraxial acceptance, all symplectic integrator sets',
  'The tests track a handful of fixed lattices (CU50 FODO) and compare a few moments; area preservation is a for-all statement over '
  'element parameters and phase-space points.',
  ['SymplecticIntegrators.cpp', 'BasicTransportMaps.cpp', 'TransportIntegrators.cpp', 'TransportMatrix.cpp'],
  [('symplectic integrators', 'Merlin++/SymplecticIntegrators.cpp'), ('transport matrices', 'Merlin++/TransportMatrix.cpp')],
  'numerical-Jacobian symplecticity invariant')
P('P02', 'Tracking a component in steps or pieces equals tracking it whole',
  'For drifts, quadrupoles, solenoids, multipoles, correctors and the body of sector bends, tracking through the whole element gives the '
  'same particle coordinates as tracking through any sequence of non-zero sub-steps adding to its length, and as tracking through consecutive '
  'shorter elements with the same field. Entrance and exit effects are applied exactly once, whatever the subdivision (TRANSPORT to second order in the '
  'coordinates, thin multipoles to first order in their strength).',
  ['inputs', 'histories'], 'all subdivisions of all elements, all particle coordinates, every integrator set',
  'Tests step through elements only in the default way; the number and sizes of sub-steps forced by attached processes are unbounded.',
  ['StdIntegrators.cpp', 'ComponentIntegrator.h', 'ParticleComponentTracker.h', 'TransportIntegrators.cpp'],
  [('sub-step bookkeeping', 'Merlin++/ComponentIntegrator.h')], 'metamorphic subdivision relation')
P('P03', 'Bunch tracking equals tracking every particle alone, in order',
  'Without collective effects, tracking a bunch through a beamline moves each particle exactly as if it were tracked alone: the result does '
  'not depend on the other particles or their order, no particle is lost, duplicated or reordered, and particle identities are kept. '
  'Tracking a beamline in one run, component by component, or in consecutive sections gives the same bunch, and each attached process '
  'acts in priority order exactly once per component or at its requested positions. A map placed in the line acts once, where it stands.',
  ['inputs', 'histories', 'configurations'], 'all bunches, beamlines, ways of dividing the run and sets of processes',
  'The tests track one bunch in one way; independence is a statement over all bunches and run divisions.',
  ['TrackingSimulation.cpp', 'ParticleTracker.h', 'ProcessStepManager.cpp', 'ComponentTracker.cpp'],
  [('tracking loop', 'Merlin++/TrackingSimulation.cpp'), ('process stepping', 'Merlin++/ProcessStepManager.cpp')],
  'metamorphic relations and recorded process histories')
P('P04', 'Element maps agree with independent reference optics',
  'The map of every standard element agrees, to first order in the particle coordinates, with the textbook linear transfer matrix for its '
  'length, bend angle, gradient and field at the particle\'s own rigidity: quadrupole focusing sign, bend focusing and dispersion, pole-face '
  'edge focusing, corrector kick, solenoid rotation, and thin multipole kicks of any order. Drifts are exact straight lines.',
  ['inputs', 'configurations'], 'all element types, parameters, charges, momenta and particle coordinates',
  'No test compares the map of an element with a reference; only the overall stability of one machine is observed.',
  ['StdIntegrators.cpp', 'TransportMatrix.cpp', 'BasicTransportMaps.cpp', 'SymplecticIntegrators.cpp'],
  [('matrix maps', 'Merlin++/TransportMatrix.cpp')], 'differential testing against a reference model')
P('P05', 'Spatial transformations obey the group laws and arc geometry is consistent',
  'Rotations and rigid transformations of three-dimensional space compose associatively, are undone by their inverses, preserve lengths, '
  'angles and handedness, and report being the identity only when they are; acting on points, vectors and phase-space vectors agree. '
  'Element and lattice geometries are path independent: the transformation from a to b followed by b to c is that from a to c, it is the '
  'inverse of that from c to b to a, and arcs of equal total angle and length coincide however they are divided.',
  ['inputs'], 'all rotations, translations, arc lengths and curvatures, and all sequences of compositions',
  'No test exercises these classes; group laws quantify over every transformation.',
  ['Rotation3D.h', 'Rot3Drep.cpp', 'Transform3D.cpp', 'ArcGeometry.cpp', 'RectangularGeometry.cpp', 'PSvectorTransform3D.cpp', 'Transform2D.h'],
  [('rotation representations', 'Merlin++/Rot3Drep.cpp'), ('composition', 'Merlin++/Transform3D.cpp')],
  'algebraic laws against a quaternion/matrix reference')
P('P06', 'A displaced or rotated element acts as its map between the frame changes',
  'Tracking through an element that has been shifted or rotated about any axis equals applying the entrance frame change, the map of the '
  'element at its nominal position, and the exit frame change back to the nominal trajectory; clearing the displacement restores the '
  'nominal map. Displacements of nested frames, supports, movers and single components compose.',
  ['inputs', 'configurations', 'histories'], 'all displacements, all elements, all sequences of translations and rotations and nestings of frames',
  'No test misaligns an element.',
  ['LatticeFrame.cpp', 'ComponentFrame.cpp', 'ParticleMapComponent.cpp', 'SequenceFrame.cpp', 'PSvectorTransform3D.cpp'],
  [('local frame transform', 'Merlin++/LatticeFrame.cpp')], 'metamorphic sandwich relation')
P('P07', 'An aperture admits exactly the points of the shape it describes',
  'A circular, rectangular, elliptical, rectangle-ellipse, octagonal or collimator aperture reports a point as inside exactly when it '
  'lies in the shape described by its parameters; this holds for apertures built directly or from table rows, for tilted, offset, '
  'tapered and one-sided jaws, and after the opening is changed. An aperture interpolated between table rows at position z admits exactly '
  'the shape with the linearly interpolated parameters.',
  ['inputs', 'configurations'], 'all shapes, sizes, aspect ratios, tilts, offsets, interpolation tables and points',
  'The aperture test checks a few fixed points of a few fixed shapes; containment is a statement over every point and shape.',
  ['Aperture.cpp', 'CollimatorAperture.cpp', 'InterpolatedApertures.cpp'],
  [('containment', 'Merlin++/Aperture.cpp'), ('jaws', 'Merlin++/CollimatorAperture.cpp'), ('interpolation', 'Merlin++/InterpolatedApertures.cpp')],
  'differential testing against gauge functions')
P('P08', 'Aperture configuration gives every component the apertures of its s range',
  'Configuring a lattice from an aperture table (in order of s) gives every component with a length that has no aperture yet an aperture: '
  'for a drift one that at every position along it admits the same points as the table interpolated at that position of the lattice '
  '(around the ring before the first and after the last row), for any other element that of the first row that ends after its entrance '
  '(the last row beyond the table), whatever the spacing, overlaps, rounding and types of the rows. An aperture survey reports the free '
  'half-widths that the apertures really have, at each of the positions asked for and no other.',
  ['inputs', 'configurations'], 'all lattices and aperture tables, and positions within every component',
  'The aperture configuration test uses one table and one lattice.',
  ['ApertureConfiguration.cpp', 'ApertureSurvey.cpp'],
  [('row to element assignment', 'Merlin++/ApertureConfiguration.cpp'), ('interpolation', 'Merlin++/InterpolatedApertures.cpp')], 'reference model of the table over generated lattices')
P('P09', 'Collimation conserves particles and records every loss once',
  'After tracking with collimation every particle is either still in the bunch, unchanged in identity, or recorded as lost exactly once with '
  'its identity, element and position; the two sets partition the initial bunch. A particle is lost exactly when it is found outside the '
  'aperture at a checked position, loss maps and the other loss outputs add up to the number of losses, and selecting stable orbits lists exactly the particles that survive.',
  ['inputs', 'histories', 'configurations'], 'all bunches, lattices with apertures, check positions, bin sizes and output modes',
  'The collimation test checks losses of one fixed bunch in one fixed lattice.',
  ['CollimateParticleProcess.cpp', 'CollimationOutput.cpp', 'LossMapCollimationOutput.cpp', 'DetailedCollimationOutput.cpp'],
  [('loss handling', 'Merlin++/CollimateParticleProcess.cpp'), ('loss map', 'Merlin++/LossMapCollimationOutput.cpp')],
  'conservation invariant and reference loss model')
P('P10', 'Proton scattering in matter respects kinematics and cross sections',
  'A particle that traverses matter never gains momentum and stays finite; the energy loss, multiple-scattering angle and '
  'interaction probability follow the material\'s stopping power, radiation length and cross sections; and every sampled elastic, '
  'quasi-elastic or diffractive interaction conserves energy and momentum, obeys the momentum-transfer limits of its table and '
  'reproduces its distribution. Interactions are selected in proportion to the cross sections of the material, whatever '
  'materials were traversed before.',
  ['inputs', 'histories'], 'all materials and sequences of them, energies, path lengths and random sequences',
  'The scattering tests fix one material and energy and compare histograms.',
  ['ScatteringModel.cpp', 'ScatteringProcess.cpp', 'ElasticScatter.cpp', 'DiffractiveScatter.cpp'],
  [('path length and energy loss', 'Merlin++/ScatteringModel.cpp')], 'invariants and statistical oracles with fixed significance')
P('P11', 'Material properties are consistent and mixtures interpolate components',
  'Every material lookup returns the properties it was defined with, copies are equal and independent of the original, and derived '
  'quantities follow from the defining ones. A mixture of materials has the proportion-weighted averages of its components, does not '
  'depend on the order they are listed in, and a mixture of one material equals that material.',
  ['inputs', 'histories'], 'all materials, all mixtures, all sequences of definitions and modifications',
  'The materials test checks one composite.',
  ['MaterialProperties.cpp', 'MaterialData.cpp'],
  [('derived quantities', 'Merlin++/MaterialProperties.cpp'), ('mixtures', 'Merlin++/MaterialData.cpp')],
  'algebraic laws and reference formulas')
P('P12', 'Data tables behave like a typed rows-and-columns model',
  'After any sequence of column and row additions, writes, appends and reads a data table holds exactly what a simple model of typed '
  'cells holds: every cell reads back as last written by any access path, unset cells have the default, headers behave alike, and '
  'misuse (unknown column, wrong type, row out of range, mismatched append) is reported by the documented exception and changes nothing.',
  ['histories', 'inputs'], 'all operation sequences over all column types and names',
  'The data table test checks one fixed sequence.',
  ['DataTable.cpp', 'DataTable.h'],
  [('cells and columns', 'Merlin++/DataTable.cpp')], 'stateful model-based testing')
P('P13', 'TFS tables survive writing and reading',
  'Writing any data table in TFS format and reading it back gives the same header fields, columns, types and cell values, with numbers '
  'preserved to full printed precision; reading is insensitive to the amount of white space, blank lines and line ends. Text whose header '
  'lines, column types or number of values do not form a table is rejected with an exception and never read as a table or crashed on.',
  ['inputs'], 'all tables and all layouts and corruptions of their text',
  'The data table test reads one small file.',
  ['DataTableTFS.cpp'], [('reader and writer', 'Merlin++/DataTableTFS.cpp')], 'round-trip and mutation fuzzing with a reference parser')
P('P14', 'Bunch files reproduce the bunch that was written',
  'Writing a particle bunch to a file and reading it back gives the same reference momentum, charge, particle count, order and '
  'coordinates to the printed precision, in each supported format and also when files are written by several outputs or turns. '
  'Output files contain one line per particle.',
  ['inputs'], 'all bunches and coordinate values, formats and precisions',
  'The bunch IO test writes and reads a small fixed bunch.',
  ['ParticleBunch.cpp', 'PSvector.cpp'], [('bunch IO', 'Merlin++/ParticleBunch.cpp')], 'round-trip')
P('P15', 'Bunch moments and reference changes match their definitions',
  'The centroid, moments, projected moments and binned distributions reported for a bunch equal the sample '
  'statistics of its particles, whatever their number and offset; changing the reference momentum or reference time re-expresses every '
  'particle without changing its absolute momentum or time; and adding, removing, swapping and sorting particles changes the bunch '
  'exactly as the same operations on a list.',
  ['inputs', 'histories'], 'all bunches and all sequences of bunch operations',
  'The bunch tests check a few particles.',
  ['ParticleBunch.cpp', 'PSmoments.h', 'PSvector.cpp', 'Bunch.h'], [('moments', 'Merlin++/ParticleBunch.cpp')],
  'model-based testing against sample statistics')
P('P16', 'Generated bunches have the requested size, matching and distribution',
  'A bunch constructed from beam parameters contains the requested number of particles and charge, its first particle is the reference '
  'orbit, centroid and RMS emittance matched to the given lattice functions agree with those requested within sampling error (exactly when '
  'a forced centroid is requested), cut-offs and filters are respected by every particle, and equal seeds give equal bunches.',
  ['inputs', 'configurations'], 'all beam parameters, distributions, particle numbers, cut-offs, filters and seeds',
  'The constructor tests fix one set of beam parameters.',
  ['BunchConstructor.h', 'ParticleDistributionGenerator.cpp', 'BeamData.h', 'BunchFilter.cpp'],
  [('matching', 'Merlin++/BunchConstructor.h')], 'exact invariants and significance-controlled statistics')
P('P17', 'Random numbers are reproducible and follow the requested distributions',
  'After seeding, the sequence of numbers is a pure function of the seeds, resets repeat it, independent local streams do not disturb it, '
  'and different seeds give different sequences. Uniform, normal (with and without cut-off, and multivariate with a covariance matrix), Poisson and Landau variates follow '
  'the requested distribution and parameters and stay within their limits.',
  ['inputs', 'histories'], 'all seeds, parameters and interleavings of requests',
  'The random test checks a few parameter values.',
  ['RandomNG.cpp'], [('generator state', 'Merlin++/RandomNG.cpp')], 'model-based histories and significance-controlled statistics')
P('P18', 'Matrix and vector algebra is correct',
  'Vector and matrix arithmetic, views, transposes and products obey the laws of linear algebra; LU and SVD solutions satisfy their '
  'equations, SVD factors are orthogonal with non-negative singular values and reproduce the matrix, determinants are multiplicative, '
  'and eigenvalues and vectors of a symplectic matrix satisfy the eigen-equation. Exactly singular and dimension-mismatched input is reported. '
  'Linear and second order maps (RMtrx, RMap, R2Map, RTMap) act as their matrices on particles and on first and second moments, copies of a map '
  'are independent of it, and matrices and maps are printed with the elements they have.',
  ['inputs'], 'all shapes and contents of matrices',
  'No test exercises these classes.',
  ['TLAS.h', 'TLASimp.h', 'LinearAlgebra.h', 'MatrixMaps.cpp', 'TMatrixLib.cpp', 'LinearAlgebra.cpp', 'RMap.h', 'RMap.cpp', 'RTMap.cpp', 'MatrixPrinter.cpp', 'OPFormat.cpp'],
  [('solvers', 'Merlin++/TLASimp.h')], 'algebraic laws against naive reference arithmetic')
P('P19', 'Closed orbit and one-turn matrix are fixed point and derivative of the map',
  'For any stable ring, with misalignments, kicks and energy offset, the closed orbit found is a fixed point of one turn of tracking to '
  'the requested tolerance, and the transfer matrix found is the derivative of that one-turn map; both are independent of the starting '
  'guess.',
  ['inputs', 'configurations'], 'all stable rings, errors and starting points',
  'The test machine has one ring with a zero closed orbit.',
  ['ClosedOrbit.cpp', 'TransferMatrix.cpp'], [('Newton iteration', 'Merlin++/ClosedOrbit.cpp')], 'defining equation checked by independent tracking')
P('P20', 'Lattice functions, tunes and dispersion describe the ring\'s linear motion',
  'For any stable ring, the computed beta, alpha, dispersion and phase advance at each element are periodic, satisfy the transfer-matrix '
  'propagation between any two elements, and give the tunes that tracked particles actually oscillate with.',
  ['inputs', 'configurations'], 'all stable uncoupled rings',
  'The CU50 test compares one FODO ring with MAD-X.',
  ['LatticeFunctions.cpp', 'BetatronTunes.cpp', 'Dispersion.cpp', 'PhaseAdvance.cpp'], [('normal mode analysis', 'Merlin++/LatticeFunctions.cpp')],
  'differential testing against reference Twiss propagation')
P('P21', 'Model construction keeps every component once, in order, and finds it',
  'A model built by any sequence of appended components and nested frames contains each component exactly once in beamline order at its '
  'cumulative arc position; total length and geometry equal those of the parts. Queries by name pattern or type return exactly the '
  'matching components in order, beamlines select exactly the requested range, and rings wrap around.',
  ['histories', 'inputs'], 'all construction sequences, queries and ranges',
  'The tests build a few fixed lattices and query a few names.',
  ['AcceleratorModelConstructor.cpp', 'AcceleratorModel.cpp', 'ElementRepository.cpp', 'SequenceFrame.cpp'],
  [('construction', 'Merlin++/AcceleratorModelConstructor.cpp'), ('queries', 'Merlin++/AcceleratorModel.cpp')],
  'stateful model-based testing')
P('P22', 'Name patterns match like shell globs',
  'A pattern of literal characters and * wildcards matches a string exactly when the string can be written as the pattern with each * '
  'replaced by some possibly empty text; matching does not depend on how often a pattern was used, and copies of a pattern match alike.',
  ['inputs'], 'all patterns and strings',
  'No test matches patterns beyond single element names.',
  ['StringPattern.cpp'], [('matching', 'Merlin++/StringPattern.cpp')], 'differential testing against a reference matcher')
P('P23', 'Channels read and write exactly the parameter they name',
  'A channel obtained for an element\'s named parameter reads that parameter\'s current value, writing it changes that parameter of that '
  'element to the written value and nothing else (the main strength of a magnet scales all of its field components), and increments add; channel arrays do the same for each entry in order, and queries by '
  'pattern return one channel for each matching element.',
  ['histories', 'inputs'], 'all models, patterns, parameters and operation sequences',
  'No test uses channels.',
  ['ChannelServer.cpp', 'TemplateComponents.h', 'AcceleratorModel.cpp', 'IndirectChannels.h'], [('channel server', 'Merlin++/ChannelServer.cpp')],
  'stateful model-based testing')
P('P24', 'Importing an optics table builds the described lattice',
  'Reading a MAD-X optics table or MAD8 tape builds a lattice with one element per row of the matching type, name, length, aperture and '
  'field strength at the beam rigidity (which follows radiation and cavities), in order and at the tabulated positions, with the frames '
  'of its lines; permuting the columns or adding unused ones changes nothing, appended files follow each other, and ignored, '
  'zero-length or overridden types are treated as documented.',
  ['inputs', 'configurations'], 'all sequences of supported rows, column orders and momenta',
  'The tests import fixed optics files and check a few elements.',
  ['MADInterface.cpp', 'MADInterface.h', 'XTFFInterface.cpp'], [('row to component', 'Merlin++/MADInterface.cpp')], 'grammar-based generation against a row model')
P('P25', 'Wakefields act causally, linearly in charge, and conserve total momentum change',
  'The momentum change of every particle of a bunch that passes an element with a wakefield equals the sum of the wakes of the charge ahead '
  'of it (for CSR the charge behind it) in slices of equal length over the chosen number of standard deviations, interpolated between the '
  'slices; it is proportional to the bunch charge, leaves positions and times alone, and with zero charge or wake does nothing. The '
  'reference momentum follows the mean loss with the sum of the momenta preserved. Collimator wakes act alike in all directions, coupler '
  'wakes add the kicks of the couplers and their RF; each wake acts once per passage, at the centre or the exit, through the process it expects.',
  ['inputs'], 'all bunches, wake functions and binnings', 'No test exercises wakefields.',
  ['WakeFieldProcess.cpp', 'CollimatorWakeProcess.cpp', 'CouplerWakeFieldProcess.cpp', 'ResistiveWakePotentials.h', 'ParticleBunchUtilities.cpp'], [('slice sums', 'Merlin++/WakeFieldProcess.cpp')],
  'differential testing against direct summation')
P('P26', 'The hollow electron lens kicks only inside its annulus, radially and by its law',
  'The electron lens leaves particles inside its inner radius untouched, kicks others towards or away from its axis by the documented '
  'radial law at their own radius, continuous at the annulus edges, and follows its operating mode turn by turn.',
  ['inputs', 'histories'], 'all lens parameters, modes, turns and particles', 'The lens test checks fixed modes and radii.',
  ['HollowELensProcess.cpp', 'HollowElectronLens.cpp'], [('kick law', 'Merlin++/HollowELensProcess.cpp')], 'reference kick law')
P('P27', 'Synchrotron radiation and spin tracking obey their laws',
  'Radiation never increases a particle\'s energy, its mean loss follows the field, energy and path length, and it leaves straight '
  'particles alone; spin tracking keeps every spin vector\'s length and precesses it by the rate of the field passed, and each spin stays with its particle.',
  ['inputs'], 'all magnets, energies, particles and spins', 'No test exercises them.',
  ['SynchRadParticleProcess.cpp', 'SpinParticleProcess.cpp'], [('photon emission', 'Merlin++/SynchRadParticleProcess.cpp')],
  'invariants and reference rates')
P('P28', 'Beam position and profile monitors report the beam that passes them',
  'With unit scale, zero offset and resolution every monitor reports once per passage the centroid or size of the bunch at its '
  'position; offset, scale and resolution act as documented, buffers receive each measurement once while registered, and the bunch is '
  'left as it was.',
  ['inputs', 'histories'], 'all bunches, monitor settings and buffer registrations', 'No test reads a monitor.',
  ['BPM.cpp', 'RMSProfileMonitor.cpp', 'BPMDataBufferServer.cpp', 'MonitorProcess.cpp'], [('measurement', 'Merlin++/BPM.cpp')],
  'model-based testing')
P('P29', 'Slice macro-particle tracking follows particle tracking',
  'Tracking a bunch of slice macro-particles moves each centroid like a single particle and transforms each covariance matrix by the '
  'same linear map, so covariances stay symmetric positive and the total charge is constant; merged statistics equal charge-weighted sums, '
  'and bunches made from beam parameters, from files or converted to particles, and wakefields on slices, keep charges and moments.',
  ['inputs'], 'all sliced bunches and lattices', 'No test exercises sliced bunches.',
  ['SMPBunch.cpp', 'SliceMacroParticle.cpp', 'SMPTransform3D.cpp', 'SMPStdIntegrators.cpp'], [('moment transport', 'Merlin++/SliceMacroParticle.h')],
  'differential testing against single-particle tracking')
P('P30', 'Supports and ground motion move exactly what they carry',
  'Moving, resetting or tilting a support or girder displaces the elements it carries by the linear interpolation of its support points '
  'and nothing else; ground motion models give every support a finite displacement that is reproducible from the seed and has the '
  'correlation in time and distance that the model prescribes, also when its eigensystem is read back from files.',
  ['inputs', 'histories'], 'all lattices with supports and all sequences of moves', 'The ground motion test checks one ATL setting.',
  ['SupportStructure.cpp', 'ATL2D.cpp', 'SimpleATL.cpp'], [('girders', 'Merlin++/SupportStructure.cpp')], 'stateful reference geometry')
P('P31', 'Applied errors hit exactly the selected elements with the stated size',
  'Applying alignment errors changes exactly the frames selected by the pattern and list, by independent offsets of the stated '
  'mean and variance in each requested degree of freedom, clearing first when asked and adding otherwise.',
  ['inputs', 'histories'], 'all patterns, error sizes and sequences of applications', 'No test applies errors.',
  ['AcceleratorErrors.cpp'], [('error application', 'Merlin++/AcceleratorErrors.cpp')], 'metamorphic relations and statistics')
P('P32', 'Cavities change energy by their voltage and phase',
  'A particle crossing a cavity gains the energy given by the voltage, phase and frequency at its own arrival time, a reference '
  'particle gains the nominal energy, focusing follows the standing- or travelling-wave model, and klystrons set the vector sum of the '
  'amplitudes and phases of their cavities.',
  ['inputs', 'configurations'], 'all cavities, phases, frequencies and arrival times', 'No test exercises cavities.',
  ['StdIntegrators.cpp', 'Klystron.cpp', 'RFStructure.cpp', 'SymplecticIntegrators.cpp'], [('acceleration', 'Merlin++/StdIntegrators.cpp')],
  'differential testing against the analytic gain')
P('P33', 'Electromagnetic field objects evaluate the field they describe',
  'A multipole field of any coefficients evaluates to its complex polynomial, satisfies Maxwell\'s equations in free space, scales and '
  'rotates as a field must, and setting or reading a component coefficient is consistent with evaluation; a magnet turned round by '
  'RotateY180 is the magnet seen from behind; radio-frequency fields are the waves their parameters describe.',
  ['inputs'], 'all multipole expansions, field components and points', 'No test evaluates fields.',
  ['MultipoleField.cpp', 'EMField.cpp', 'RectMultipole.cpp'], [('evaluation', 'Merlin++/MultipoleField.cpp')],
  'reference polynomial and metamorphic relations')
P('P34', 'Collimators get the jaws their settings file describes',
  'For every settings file and lattice, configuring collimators gives each collimator named in the file the stated material and jaws: in '
  'gap mode parallel jaws of the stated full gaps, tilt and centre, in sigma mode jaws at the stated number of standard deviations of the beam '
  'at the collimator\'s own entrance and exit, in the tilted plane and across it, centred on the orbit (or straight jaws clearing both ends, or '
  'jaws displaced by bounded seeded errors); all other elements keep their apertures, the impact parameter is returned in sigmas, and '
  'unknown materials are refused.',
  ['inputs', 'configurations'], 'all settings files, rings, orbits, emittances and matching options',
  'The one test that configures collimators uses one machine and only counts losses.',
  ['CollimatorDatabase.cpp', 'CollimatorAperture.cpp', 'LatticeFunctions.cpp'], [('configuration', 'Merlin++/CollimatorDatabase.cpp')],
  'reference jaw geometry from lattice functions, judged point by point')
P('P35', 'Interpolation reproduces its data and the polynomials of its order',
  'For every set of distinct points, in any order and from arrays or vectors, an interpolation passes through all of its points, reproduces '
  'polynomials up to its order, depends only on the neighbouring points and not on earlier evaluations, and refuses arguments '
  'outside the range of arbitrarily spaced data; equally spaced data are interpolated linearly and continued linearly outside.',
  ['inputs', 'histories'], 'all data sets, orders and sequences of evaluations', 'No test evaluates an interpolation.',
  ['Interpolation.cpp'], [('evaluation', 'Merlin++/Interpolation.cpp')], 'polynomial reference and metamorphic relations')
P('P36', 'The equilibrium of an electron ring follows from its radiation integrals',
  'For every stable electron ring whose cavities replace the energy radiated, the damping constants are half the relative energy loss per turn times the '
  'damping partition numbers and add up to twice that loss, the tunes are those of the lattice, the horizontal emittance and energy '
  'spread are those of the radiation integrals, a flat ring has no vertical emittance, and the beam moments at any '
  'point are those of the lattice functions there, within the few percent of the approximations.',
  ['inputs', 'configurations'], 'all stable rings of bends, quadrupoles and cavities, and all energies', 'No test computes an equilibrium.',
  ['EquilibriumDistribution.cpp', 'SynchRadParticleProcess.cpp', 'TransferMatrix.cpp'], [('Chao\'s method', 'Merlin++/EquilibriumDistribution.cpp')],
  'differential testing against radiation integrals')
P('P37', 'A linear feedback steers its signals to their set points',
  'For every response matrix, gain, set points and history of disturbances, settings and corrections, a correction moves the actuators by minus the '
  'gain times the least-squares solution for the deviation of the signals, so many pulses late as was set and not before; with the '
  'response of the machine the correctable error shrinks by the gain at each step, actuators without effect are left alone, stored settings '
  'are restored, and correctors and monitors of a beamline are steered alike.',
  ['inputs', 'histories'], 'all response matrices, gains, delays and sequences of operations', 'No test runs a feedback.',
  ['LinearFBSystem.cpp', 'Channels.cpp', 'TLASimp.h'], [('correction', 'Merlin++/LinearFBSystem.cpp')], 'model-based testing on a linear machine')
