S='Source/'
prop('C01','Input deck values reach the simulation, converted and with defaults',
 'Every key of an input deck (general, field, particle, physics and histogram sections, any number of numbered particle/histogram sections in a row) reaches the run parameters exactly once: physical quantities in SI divided by the matching reference scale, dimensionless ones (polarisation, divergence, sample fraction, direction, bin edges and counts) unchanged. Keys that are left out take the documented default, for every combination of present and absent keys. A deck without the general section, time step, end time or units, or with an unknown unit system or field type, is refused instead of being run with made-up values.',
 ['inputs','configurations'],'All real values of every key, every subset of optional keys per section (each key present or absent), all four field types, 0..2 particle and 0..2 histogram sections.',
 'InputTest reads one fixed file; it cannot cover all values, absent keys, field types and section counts.',
 [S+'IO/Input/FileParser.cpp',S+'IO/Input/INIReader.cpp',S+'Tools/UnitsSystem.cpp'],
 [('FileParser::Read*',S+'IO/Input/FileParser.cpp'),('UnitsSystem reference scales',S+'Tools/UnitsSystem.cpp')],
 ['FileParser getters'])
prop('C02','The SI unit system is self-consistent',
 'The reference scales of the SI unit system form one coherent system: speed of light, electron mass and electron charge are all 1 in code units and the critical field is the unit of electric field. Converting any quantity to code units and back returns it, products of scales agree (length = c*time, momentum*c = energy, E = c*B, charge*field*length = energy), and the Geant scales equal ns, mm and MeV in code units. An unknown unit-system name is refused.',
 ['inputs','configurations'],'All real quantities; every accepted or refused unit-system name in the explored set.',
 'No test checks any unit relation; a wrong constant or scale passes everything.',
 [S+'Tools/UnitsSystem.cpp',S+'Tools/UnitsSystem.hh'],[('UnitsSystem::SetUnitsSI',S+'Tools/UnitsSystem.cpp')],['Ref*() and G4*() values'])
prop('C03','INI text is parsed by its grammar, without memory errors',
 'For every input text the INI parser stays inside its buffers, reports each name/value pair with the right section, trimmed of surrounding blanks, honouring comment lines, inline comments, both separators and multi-line values, in file order, and ignores blank and comment lines. It returns 0 exactly when every line is well formed, and otherwise the number of the first bad line while still delivering the later good lines. A handler that rejects a pair makes that line the reported error.',
 ['inputs'],'Every text of up to the stated number of bytes over the full byte range.',
 'InputTest parses one fixed, well-formed file.',
 [S+'IO/Input/ini.cpp',S+'IO/Input/ini.hh'],[('ini_parse_stream',S+'IO/Input/ini.cpp'),('find_chars_or_comment, lskip, rstrip',S+'IO/Input/ini.cpp')],['handler call sequence and return value'])
prop('C04','Typed configuration getters return the written value or the default',
 'Reading a configuration key is case-insensitive in section and key and returns the written value: integers in decimal or hex, reals in any decimal notation, booleans from true/yes/on/1 and false/no/off/0 in any case, and three-vectors with components separated by blanks or commas with optional brackets, in every component sign and exponent form. A missing, empty or unreadable value yields exactly the supplied default. A vector with more than three components is refused, and every section that holds a key is listed once.',
 ['inputs'],'All real component values, all boolean words up to the stated length, each listed notation, present and absent keys.',
 'InputTest checks a handful of fixed values of one file.',
 [S+'IO/Input/INIReader.cpp'],[('INIReader::Get*',S+'IO/Input/INIReader.cpp')],['getter results'])
prop('C05','Vector and matrix algebra is exact and axis rotation is a proper rotation',
 'Vector and matrix operations (sum, difference, component-wise and scalar operations, dot, cross, magnitude, normalisation, direction between two points, matrix products, determinant, inverse, identity) compute their mathematical definitions for all values. Rotating one non-zero vector to another axis gives an orthogonal matrix of determinant +1 that maps the first direction exactly onto the second, for every pair of vectors including parallel and opposite ones. The inverse matrix undoes the rotation.',
 ['inputs'],'All real vectors and matrices (non-zero where a direction is needed, non-singular where an inverse is).',
 'No test of the repository exercises the algebra beyond a few values inside other tests.',
 [S+'Tools/ThreeVector.hh',S+'Tools/ThreeMatrix.hh'],[('ThreeVector::RotateToAxis',S+'Tools/ThreeVector.hh'),('ThreeMatrix::Inverse',S+'Tools/ThreeMatrix.hh')],['returned vectors and matrices'])
prop('C06','A push advances each live particle by exactly one fourth-order time step',
 'One push advances a live particle\'s clock by exactly the time step; a photon moves in a straight line at the speed of light with unchanged momentum, and a charged particle\'s position and momentum follow the classical fourth-order Runge-Kutta step of the equations of motion, with the field sampled at the stage times and positions. A dead particle is left completely unchanged. Pushing a list pushes every member exactly once and nothing else.',
 ['inputs','histories'],'All positions, non-zero momenta, masses, charges, times and steps; arbitrary field and force functions; lists of up to three particles, any subset dead.',
 'PusherTest and LaserTest only print trajectories for one configuration and assert nothing about them.',
 [S+'Physics/ParticlePushers/ParticlePusher.cpp'],[('ParticlePusher::PushParticle',S+'Physics/ParticlePushers/ParticlePusher.cpp')],['particle state after the push'])
prop('C07','Force laws: Lorentz force and radiation-reaction drag',
 'With the field sampled by the particle, the Lorentz pusher applies q(E + v x B): the magnetic part does no work and opposite charges feel opposite forces. The Landau pushers add a drag directed exactly against the motion, of size (2/3) alpha eta^2 (times the quantum correction factor of the modified model, which lies in (0,1], is 1 in the classical limit and falls with eta). The drag is the same for both charge signs and vanishes when eta is zero.',
 ['inputs'],'All non-zero momenta, positive masses, charges and field vectors.',
 'No test checks a force; the pusher tests print one trajectory.',
 [S+'Physics/ParticlePushers/LorentzPusher.cpp',S+'Physics/ParticlePushers/LandauPusher.cpp',S+'Physics/ParticlePushers/ModifiedLandauPusher.cpp'],
 [('PushMomentum overrides',S+'Physics/ParticlePushers/')],['momentum change of a push'])
prop('C08','Stochastic photon emission: optical depth, recoil, weights and sampling',
 'In every step a live charged particle\'s optical depth falls by rate times step, with rate sqrt(3) alpha eta h(eta)/(2 pi gamma); it emits exactly when the depth drops below zero, losing exactly the momentum of the drawn photon (antiparallel to its motion) and drawing a fresh depth, and otherwise is unchanged. The photon is recorded only above the energy cut and with probability equal to the sampling fraction, at the emitter\'s position and time, along its direction before recoil, with weight divided by the fraction, so that expected weight is conserved. Photons and dead particles never emit.',
 ['inputs'],'All fields, momenta, depths, tables of the stated size, random draws, cuts and fractions in (0,1].',
 'No stable test runs emission; outcomes depend on random draws that tests cannot enumerate.',
 [S+'Physics/Processes/StochasticEmission.cpp',S+'Physics/Processes/PhotonEmission.cpp'],[('StochasticEmission::Interact',S+'Physics/Processes/StochasticEmission.cpp')],['emitter and list after one step'])
prop('C09','Continuous photon emission: weights, sampling and no recoil',
 'Continuous emission never changes the emitter; when the step is sampled (probability equal to the sampling fraction) it adds at most one photon, at the emitter\'s position, time and direction, whose weight is emitter weight times emission probability of the step divided by the fraction. A photon is added exactly when its drawn energy exceeds the energy cut, with that energy. Photons and dead particles never emit, in both the classical and the semiclassical mode. In the classical mode the drawn energy is proportional to eta, continued from the tabulated energies by the classical law, so that both modes agree wherever the table itself obeys that law.',
 ['inputs'],'All fields, momenta, tables of the stated size, random draws, cuts, fractions in (0,1], both modes.',
 'No stable test runs emission.',
 [S+'Physics/Processes/ContinuousEmission.cpp',S+'Physics/Processes/PhotonEmission.cpp'],[('ContinuousEmission::Interact',S+'Physics/Processes/ContinuousEmission.cpp')],['list after one step'])
prop('C10','Pair production conserves energy, charge and weight and consumes the photon',
 'In every step a live photon\'s optical depth falls by rate times step with rate alpha chi T(chi)/energy; it decays exactly when the depth drops below zero, and then exactly one electron and one positron are added, with the photon\'s position, time and weight, moving along the photon\'s direction, with energies that sum to the photon energy, and the photon is dead. Otherwise nothing is added and the photon lives. Charged particles and dead photons never decay, and a photon in zero field, or with less than the rest energy of a pair, keeps its optical depth. Each lepton has at least its rest energy.',
 ['inputs'],'All fields, photon momenta, depths, random draws and tables of the stated size.',
 'BreitWheelerTest runs one random sample and only prints.',
 [S+'Physics/Processes/NonLinearBreitWheeler.cpp'],[('NonLinearBreitWheeler::Interact',S+'Physics/Processes/NonLinearBreitWheeler.cpp')],['photon, list after one step'])
prop('C11','Table lookup: interpolation, nearest index and bracketing',
 'Linear interpolation reproduces every table point, is linear between neighbours and continues the first or last segment outside the table. The nearest-index lookup returns an index of a grid point with minimal distance. Bracketing returns the interval that contains the query with its exact fraction, for every query inside the table, and refuses queries above it; no lookup reads outside the table.',
 ['inputs'],'All increasing grids of 2..5 (thorough: 8) points, all data, all queries.',
 'Indirectly used with fixed shipped tables only.',
 [S+'Tools/Numerics.cpp'],[('Numerics::Interpolate1D, ArrayIndex, ClosestPoints',S+'Tools/Numerics.cpp')],['returned value / index'])
prop('C12','Shipped tables are loaded completely and keep draws physical',
 'The data tables are read completely and in order, so that rates and energies computed with them follow the tables. With the tables shipped in the repository, the energy fraction drawn for a pair lies in [0,1] for every photon parameter and random number in table range, and the drawn photon energy is positive and finite and never exceeds the emitter energy over the tabulated range. A missing table file is reported and stops the program.',
 ['inputs','configurations'],'Every random number in [0,1) and every parameter in table range, over the shipped tables (interval by interval).',
 'BreitWheelerTest prints a sample.',
 [S+'Physics/Processes/PhotonEmission.cpp',S+'Physics/Processes/NonLinearBreitWheeler.cpp','Tables/'],[('LoadTables / CalculateChi / CalculateSplit',S+'Physics/Processes/')],['energies of emitted particles'])
prop('C13','Plane and static fields are the textbook fields',
 'The static field is the same at all times and places. The plane wave travels at the speed of light along its direction: it depends on time and place only through (n.x - t), has the requested amplitude, wavelength and polarisation angle, and everywhere E, B and the direction are mutually perpendicular with |E| = |B| and E x B along the direction. The field values do not depend on how long the direction vector is.',
 ['inputs'],'All directions (including along and against z), amplitudes, wavelengths, polarisations, times and positions.',
 'LaserTest writes a file for one configuration and checks nothing.',
 [S+'Physics/Fields/EMField/PlaneEMField.cpp',S+'Physics/Fields/EMField/StaticEMField.cpp'],[('PlaneEMField::GetField',S+'Physics/Fields/EMField/PlaneEMField.cpp')],['E and B'])
prop('C14','The Gaussian pulse focuses at its focus and travels at c',
 'The Gaussian pulse propagates from its start towards its focus: the envelope depends on distance from the focus point, peaks there when the pulse arrives (path length over c), never exceeds the peak amplitude, and has the requested waist, duration, wavelength and Rayleigh spreading. Carrier and envelope both move at the speed of light on axis. E, B and the propagation direction are mutually perpendicular with |E| = |B|, polarised at the requested angle, and shifting start, focus and observer together leaves the field unchanged.',
 ['inputs'],'All amplitudes, wavelengths, durations, waists, polarisations, positions and times; the propagation axes listed in the bounds.',
 'LaserTest writes a file for one configuration and checks nothing.',
 [S+'Physics/Fields/EMField/GaussianEMField.cpp'],[('GaussianEMField::GetField',S+'Physics/Fields/EMField/GaussianEMField.cpp')],['E and B'])
prop('C15','The tightly focused pulse is the fourth-order Gaussian-beam solution',
 'The focusing field equals the published non-paraxial Gaussian beam through fourth order in the divergence angle, times the pulse envelope, around the focus point, with wave phase moving at the speed of light along the propagation direction. Turning the polarisation turns the whole beam, fields and transverse profile, rigidly about the beam axis. Far from the pulse the field is exactly zero, and shifting start, focus and observer together leaves it unchanged.',
 ['inputs'],'All amplitudes, wavelengths, durations, waists, polarisations, positions and times; the propagation axes listed in the bounds.',
 'No test evaluates the focusing field.',
 [S+'Physics/Fields/EMField/FocusingField.cpp'],[('FocusingField::GetField',S+'Physics/Fields/EMField/FocusingField.cpp')],['E and B'])
prop('C16','Histograms count each in-range particle once, in the nearest bin of its quantity',
 'A histogram of energy, x, y, z, px, py or pz bins exactly that quantity of each particle given to it: a value inside the range adds exactly one to the bin with the nearest centre and nothing else, a value outside adds nothing. Centres are evenly spaced from minimum to maximum inclusive, merging compatible histograms adds their counts and incompatible ones are left as they were, and normalising a filled histogram makes the counts sum to one without producing non-numbers. An unknown quantity is refused.',
 ['inputs','histories'],'All values, ranges, 2..4 bins, up to three particles, all seven quantities.',
 'No stable test fills a histogram.',
 [S+'IO/Output/Histogram.cpp'],[('Histogram::AppParticle, Fill, Merge, Normalise',S+'IO/Output/Histogram.cpp')],['bin centres and counts'])
prop('C17','Output files hold every stored value, in its dataset, in the declared units',
 'The output file always has its particle, field and histogram groups, and every write creates the groups it needs, once each, in any order of output calls. Each stored event, track, particle, histogram and field sample appears exactly once, in its own row/column, with id, energy, momentum and position of that particle (end-of-event and list rows for live particles only), and energies, momenta, positions and times of events, tracks and particles scaled by the unit system when one is given (dimensionless gamma never). The events of every source of a run are kept, and the file of an earlier run is replaced. No output call reads or writes outside its buffers.',
 ['inputs','histories'],'All values; up to two events of up to three particles of any kind; every order of output calls of bounded length; with and without a unit system.',
 'No stable test reads an output file back.',
 [S+'IO/Output/OutputManager.cpp',S+'IO/Output/HDF5Output.cpp'],[('OutputManager methods',S+'IO/Output/OutputManager.cpp'),('HDF5Output::AddGroup',S+'IO/Output/HDF5Output.cpp')],['datasets written'])
prop('C18','Parallel output merges every process\'s data exactly once',
 'With several processes, the root file holds the rows of every process for every particle kind, each exactly once and in process order, and histograms summed over all processes, whatever counts the processes hold, including none. No message is lost, mismatched in size, or read into a buffer too small for it. The merged file equals what one process holding all data would write.',
 ['inputs','configurations','schedules'],'Up to three processes, any split of event contents within bounds, all values.',
 'The suite never runs the parallel output.',
 [S+'IO/Output/OutputManager.cpp'],[('OutputEventsMPI, OutputHistMPI',S+'IO/Output/OutputManager.cpp')],['datasets written by rank 0'])
prop('C19','Particle state obeys relativistic kinematics and history is faithful',
 'For every particle, energy, gamma, speed and direction follow from mass and momentum (E^2 = p^2 + m^2, gamma = E/m, beta = p/E < 1; photons have E = p and beta = 1), a particle built from energy and direction has that energy, and its name follows its charge. Optical depths start non-negative, exponentially distributed with mean one, and fall by exactly what is subtracted. A particle made without further settings has weight one and time zero and is not tracked. With tracking on, each update appends one consistent (position, momentum, time, gamma) sample, all histories stay the same length and time advances with position; with tracking off nothing is recorded.',
 ['inputs','histories'],'All masses, momenta, energies >= mass, directions and up to three updates.',
 'No test checks kinematics.',
 [S+'Particles/Particle.cpp',S+'Particles/Lepton.cpp',S+'Particles/Photon.cpp'],[('Lepton/Photon getters',S+'Particles/')],['getters'])
prop('C20','The particle source emits what was asked for',
 'The source hands out exactly the requested number of single-particle events, each of the requested type with weight one at time zero, and refuses further requests and unknown types. Without spreads every particle starts at the given position, moves exactly along the given direction and has the given energy; position spread is centred on the position, transverse spread perpendicular to the direction and duration spread along it, divergence is an angle around the direction. The energy distribution is the requested one: mono exactly the first energy, gaussian of mean and width, linear between the two bounds.',
 ['inputs'],'All positions, directions, energies, spreads and random draws; up to three particles; all types and distributions.',
 'No test inspects generated particles.',
 [S+'Particles/SourceGenerator.cpp'],[('SourceGenerator',S+'Particles/SourceGenerator.cpp')],['generated particles'])
prop('C21','Particle lists keep order, capacity and ownership',
 'A particle list returns the particles added to it in order of addition, reports exactly how many it holds, keeps its name, never grows past its capacity and keeps its contents when more are added. Destroying it frees each particle exactly once. Adding to a full list is reported and changes nothing.',
 ['histories'],'Every sequence of adds up to capacity + 2 for capacities 0..3.',
 'No test fills a list.',
 [S+'Particles/ParticleList.cpp'],[('ParticleList::AddParticle',S+'Particles/ParticleList.cpp')],['GetNPart, GetParticle'])
prop('C22','A run advances every particle once per step and outputs each event once',
 'A command-line run simulates every particle of every source from time zero to the end time in steps of the time step: in each step each particle that existed at its start is pushed once and then interacts once with each selected process, and particles created in a step start moving in the next. Each histogram (histograms are listed in time order, as documented) is filled exactly once per event, at its time or at the end of the run if later, with the live particles of its type. With tracking on, every particle is tracked from its creation. The selected field, radiation model and pair production are the ones that run.',
 ['inputs','configurations'],'All deck values within bounds of up to three steps, two sources, two histograms, all field types and radiation models.',
 'No stable test runs the program main loop.',
 [S+'Exec/QEDCASC.cpp'],[('main',S+'Exec/QEDCASC.cpp')],['output file content'])
prop('C23','The Python interface runs what was configured and can be reused safely',
 'Through the scripting interface, settings given in SI are simulated in the equivalent code units and results come back in SI: one row of momentum and position per input particle, and one row with weight per live outgoing electron, positron and photon. A run with missing or invalid settings is refused without a crash and leaves the object usable; repeated runs, changed settings and destruction never touch freed memory, and each run\'s results replace the previous ones. All documented model and field names are accepted.',
 ['inputs','histories','configurations'],'All values; sequences of up to two runs with any subset of the settings missing.',
 'The example script runs one configuration.',
 [S+'Python/RunManager.cpp'],[('RunManager::beamOn and setters',S+'Python/RunManager.cpp')],['get* arrays'])
prop('C24','Random tools follow their distributions\' contracts',
 'A uniform draw lies in its interval, a normal draw has the requested mean and width, a Poisson draw the requested mean, and vectors of samples have the requested length and distribution. A discrete draw returns index i exactly when the uniform variate falls in the i-th slice of the cumulative weights, so every index with positive weight can be returned and none with zero weight. Seeding makes the sequence a function of the seed: equal seeds give equal sequences, different seeds different ones.',
 ['inputs'],'All bounds, means, widths, seeds, weights of up to four entries and all variates.',
 'Tests cannot enumerate random variates.',
 [S+'Tools/MCTools.cpp'],[('MCTools',S+'Tools/MCTools.cpp')],['returned samples'])
prop('C25','Simpson integration is exact for cubics',
 'Numerical integration over an evenly spaced axis with an odd number of points is linear in the integrand and exact for every polynomial of degree at most three, for any interval. The result does not depend on where the axis starts, and reversing the axis flips the sign. It reads only inside the given vectors.',
 ['inputs'],'All cubic coefficients, intervals and integrand values; 3..9 points.',
 'No test calls the integrator.',
 [S+'Tools/Numerics.cpp'],[('Numerics::SimpsonsRule',S+'Tools/Numerics.cpp')],['returned integral'])
prop('C26','Command line: every argument is handled and bad ones are refused',
 'For every command line, the program either runs the named .ini deck or prints an error and exits with a non-zero status; it never crashes, whatever the number, length or content of the arguments. Only a single argument ending in .ini starts a run. A missing deck file, unknown radiation model or missing field is refused with a non-zero status.',
 ['inputs'],'Every argument string up to the stated length, 0..3 arguments.',
 'No test runs the program with bad arguments.',
 [S+'Exec/QEDCASC.cpp'],[('main argument handling',S+'Exec/QEDCASC.cpp')],['exit status'])
prop('C27','Multi-threaded runs lose and duplicate no event',
 'When the events of a run are processed by several threads, every event is generated exactly once and the histogram counts, stored rows, returned rows and track of every event are kept exactly once and belong to it, whatever the interleaving of the threads. Nothing that concurrently processed events share is used, with one of them writing, without synchronisation; the threads never wait for each other for ever, no random number is drawn by two of them, and an event ends as it does in a single thread with the same draws. This holds for the program and for the scripting interface.',
 ['schedules'],'All interleavings (a running thread is stopped for another one up to twice) of two threads processing one event each, in every model and field type.',
 'Tests run one schedule per run and check nothing about it.',
 [S+'Exec/QEDCASC.cpp',S+'Particles/SourceGenerator.cpp',S+'IO/Output/Histogram.cpp',S+'IO/Output/OutputManager.cpp',S+'Tools/MCTools.cpp',S+'Python/RunManager.cpp'],[('omp parallel for loops',S+'Exec/QEDCASC.cpp')],['events and counts'])
prop('C28','The input summary lists what the run uses',
 'When a summary of the input is requested (as every command-line run does), input-check.txt afterwards holds each section of the run exactly once under its own heading and number: general, physics, the field if one is set, and every particle source and histogram. Each entry appears once, under the section it belongs to, and gives the value that the run uses: quantities in the run\'s units, text, flags, numbers and vectors as set. Without the request no summary is written.',
 ['inputs','configurations'],'All values of all listed keys, every field type, any combination of up to three sources and three histograms.',
 'No test reads the summary, which is the documented way to see that a deck was understood.',
 [S+'IO/Input/FileParser.cpp'],[('FileParser',S+'IO/Input/FileParser.cpp')],['input-check.txt'])
prop('C29','A run by several processes is the sum of independent runs',
 'When the program is run by several processes, each of them simulates all events of the deck with random numbers of its own, joins the run and leaves it once, and succeeds. The single output file then holds every event of every process exactly once, under its source, and every histogram is the sum over all processes. No random number is used twice in a run, by the same process or by another one, and a run of one process gives what a plain run gives.',
 ['inputs','configurations'],'Up to four processes, two sources, two events each, two histograms, two steps, every radiation model.',
 'The suite never starts more than one process.',
 [S+'Exec/QEDCASC.cpp',S+'IO/Output/OutputManager.cpp',S+'Tools/MCTools.cpp'],[('main with USEMPI',S+'Exec/QEDCASC.cpp')],['output file content'])
prop('C30','The Geant4 interface hands particles over in Geant4 units',
 'When the cascade is used as a source or a process inside Geant4, every particle left at the end of a cascade event is handed to Geant4 exactly once, with its type, its kinetic energy, direction and position in the units of Geant4, and what Geant4 hands over arrives in code units.',
 ['inputs'],'All energies, positions and directions.',
 'The Geant4 sources are not part of the build.',
 [S+'Geant/G4CascadeGenerator.cpp',S+'Geant/G4StochasticEmission.cpp'],[('G4CascadeGenerator::GeneratePrimaries',S+'Geant/G4CascadeGenerator.cpp'),('G4StochasticEmission::PostStepDoIt',S+'Geant/G4StochasticEmission.cpp')],['primaries and secondaries'])
prop('C31','The Python module offers every operation under its name',
 'The module QEDCascPy offers RunManager and ThreeVector. A ThreeVector is made of three numbers, its components in order. A RunManager is made without arguments, and each of its functions (setTime, setField, setGenerator, setPhysics, setSampleFraction, usePairProduction, beamOn, getInput, getElectrons, getPositrons, getPhotons) has the effect that its name says, with the arguments in the order of the example script: what is set is what the next run uses, and each getter returns the rows of its own kind. beamOn takes the number of events and of threads by position or as the keywords events and threads in any order; without threads it runs on one.',
 ['inputs','configurations'],'All settings and values of the run manager, all ways to call beamOn.',
 'The example script calls some of the functions once with fixed values and checks no result.',
 [S+'Python/QEDCascPy-Bindings.cpp',S+'Python/RunManager.cpp'],[('PYBIND11_MODULE',S+'Python/QEDCascPy-Bindings.cpp')],['the effect on the run and the arrays returned'])
