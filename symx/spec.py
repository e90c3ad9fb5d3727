"""which harnesses decide which property, and within which bounds"""
COMMON = [
    'floating-point arithmetic is modelled as exact real arithmetic (rounding is outside the encoding; native replays use the real doubles)',
    'libm functions are modelled by their exact algebraic identities and monotonicity/range axioms',
    'LLVM IR at -O1 of clang 18 with -std=gnu++11 stands for the program; the native replay uses g++ -O0 with sanitizers',
    'every reported violation was reproduced by running the natively compiled code on the solver\'s input',
]
ALL_PHYS = ['tools', 'particles', 'source', 'fields', 'pushers', 'processes']
SPEC = {}
NA = {
    'C30': 'Source/Geant is not part of the build and cannot be compiled: Geant4 and TensorFlow are not installed, and the sources are written against an earlier interface of this code '
           '(FileParser::GetProcess, ProcessParameters, GeneralParameters::pusher and minEnergy are gone). There is no real code to encode or to replay a counterexample against',
}


def prop(pid, jobs, bounds, **kw):
    SPEC[pid] = dict(jobs=jobs, bounds=bounds, **kw)


prop('C11', [dict(h='c11.cpp', groups=['tools'])],
     'tables of 2..4 points (quick) or 2..7 (thorough) with arbitrary increasing abscissae and arbitrary ordinates; arbitrary query',
     oracle='definition of linear interpolation / nearest point / bracketing written in the harness')
prop('C25', [dict(h='c25.cpp', groups=['tools'])],
     'axes of 3,5,7,9 points (quick) or up to 17 points (thorough); arbitrary interval, polynomial coefficients and integrands',
     oracle='closed-form integral of the cubic; linearity and shift/reversal identities')
prop('C05', [dict(h='c05.cpp', groups=['tools'])],
     'arbitrary real vectors and matrices; rotation: every direction except -z parametrised rationally (times any length) to and from +-x, +-y, +-z, '
     'every parallel/opposite pair, and (thorough) every pair of directions',
     oracle='textbook component formulas; orthogonality, determinant and mapping of the rotation')
prop('C02', [dict(h='c02.cpp', groups=['tools'])],
     'both accepted names; every real value for conversions; unknown names: all strings of length <= 3 over a 9 letter alphabet and 11 listed names',
     oracle='CODATA constants and the coherence relations written in the harness')
prop('C24', [dict(h='c24.cpp', groups=['tools'])],
     'arbitrary interval, mean, width and weights; vectors of up to 3 (6) samples; up to 4 (6) discrete weights, each possibly zero; the n-th variate of an '
     'engine seeded s is an arbitrary function u(s,n), z(s,n)',
     oracle='affine relation between draws of the same variate; slices of the cumulative weights',
     outside='quality of the pseudo random bits (std::mt19937 is replaced by an arbitrary function of seed and position)')
PUSH = ['tools', 'particles', 'fields', 'pushers']
prop('C06', [dict(h='c06.cpp', groups=PUSH)],
     'one push of one particle with arbitrary mass, charge, position, momentum, clock and step in an arbitrary field (each component an uninterpreted function of '
     'time and position); photons in every direction; lists of up to 3 (4) particles of any kind, alive or dead',
     oracle='classical fourth-order Runge-Kutta step written in the harness')
prop('C07', [dict(h='c07.cpp', groups=PUSH)],
     'one particle of either charge, any mass (Lorentz) or unit mass (Landau), in every direction (rational parametrisation times any length) or at rest, '
     'in arbitrary electric and/or magnetic vectors',
     oracle='Lorentz force, Landau-Lifshitz drag and quantum correction fit written in the harness',
     outside='the force is observed through one push in a field that acts only at the last Runge-Kutta stage')
prop('C19', [dict(h='c19.cpp', groups=['tools', 'particles'])],
     'every mass, charge sign, weight, time, position; momenta and directions in every direction (rational parametrisation times any length) and at rest; '
     'up to 3 (4) updates with tracking on or off, one of them at rest or after the particle was killed',
     oracle='relativistic kinematics and the recorded updates written in the harness')
prop('C21', [dict(h='c21.cpp', groups=['tools', 'particles'])],
     'capacities 0..3 (0..4), every number of additions up to capacity + 2, of electrons, positrons, photons and particles at rest in turn, none, one or all of them killed before or after; the default capacity with two particles',
     oracle='sequence model in the harness, counting destructors')
prop('C20', [dict(h='c20.cpp', groups=['tools', 'particles', 'source'])],
     'sources of up to 3 (4) particles of every type and distribution; arbitrary position, energies, widths and variates; without spread every direction '
     '(rational parametrisation times any length), with spread 5 (7) listed unit directions including -z (thorough)',
     oracle='geometric relations between particle state, requested direction and the variates, written in the harness',
     outside='statistical independence of the pseudo random bits; ordering of the draws is left free')
prop('C08', [dict(h='c08.cpp', groups=ALL_PHYS)],
     'one interaction of one particle of every kind; arbitrary energy, weight, time, position, step, field strength, variates, energy cut, sampling fraction and table '
     'contents (h table of 2 (3) points, energy table of 2x2 (3x3) points); the rate also for every direction and arbitrary electric and magnetic vectors',
     oracle='emission rate, recoil and quantile lookup written from the table definitions in the harness')
prop('C09', [dict(h='c09.cpp', groups=ALL_PHYS)],
     'one interaction of one particle of every kind in classical or semiclassical mode; arbitrary energy, weight, time, position, step, field strength, variates, '
     'energy cut, sampling fraction and table contents (h table of 2 points, energy table of 2x2 (3x3) points)',
     oracle='emission probability and quantile lookup written from the table definitions in the harness')
prop('C10', [dict(h='c10.cpp', groups=ALL_PHYS)],
     'one interaction of one particle of every kind; arbitrary energy, weight, time, position, step, field strength, variates and table contents (rate table of '
     '2 (3) points, split table of 2x2 (3x3) points); the rate also for every direction and arbitrary electric and magnetic vectors',
     oracle='decay rate and quantile lookup written from the table definitions in the harness')
prop('C12', [dict(h='c12.cpp', groups=ALL_PHYS)],
     'tables of 2..3 points in every direction with arbitrary contents; each table missing in turn; shipped tables: 8 (all) of 99 rows of the split and energy tables, '
     'with every photon parameter in the row and every quantile interval (every variate), 12 (100) intervals of the h table and 10 (130) of the T table',
     oracle='interpolation of the table files, read independently by the harness',
     outside='eta and chi outside the tabulated range')
FLD = ['tools', 'fields']
prop('C13', [dict(h='c13.cpp', groups=FLD)],
     'static field: every vector, time and place; plane wave: every direction in a coordinate plane (rational parametrisation times any length; thorough: every direction), amplitude, wavelength, polarisation, '
     'time and place; six listed axes (and any length) for the polarisation frame',
     oracle='the wave written in the harness; transversality relations')
prop('C14', [dict(h='c14.cpp', groups=FLD)],
     'every amplitude, wavelength, duration, waist, polarisation, focus, distance, observer and time, along 5 listed axes; observer in the focal plane separately',
     oracle='paraxial Gaussian beam times pulse envelope in the frame of the pulse, written in the harness')
prop('C15', [dict(h='c15.cpp', groups=FLD)],
     'every amplitude, wavelength, duration, waist, polarisation, focus, distance, observer and time, along 5 listed axes; observer in the focal plane separately; '
     'near the pulse and far from it',
     oracle="Salamin's fourth-order fields in the frame of the pulse, written in the harness")
prop('C16', [dict(h='c16.cpp', groups=['tools', 'particles', 'hist'])],
     'all seven quantities in both spellings; arbitrary range, 2..4 (8) bins, up to 2 (3) particles of every kind with arbitrary position and energy (two directions of '
     'motion); values exactly on an edge or midway between two centres are left open; 8 unknown names; merging with equal or different bins, minimum or maximum',
     oracle='nearest centre of an even grid, written in the harness')
prop('C17', [dict(h='c17.cpp', groups=['tools', 'particles', 'fields', 'output'])],
     'one or two events of up to 3 (4) particles of every kind, alive or killed, arbitrary values; two sources; tracks of 0..2 steps; lists of up to 2 (3) particles; '
     'field grids of 1..2 times and up to 2x2x2 points with arbitrary fields; histograms of 2..4 bins; every order of 2 (3) of the seven output calls; with and without units',
     oracle='the file read back row by row against the particles given',
     outside='the HDF5 library itself: a model with its group and name rules stands for it; names given twice by the caller')
prop('C18', [dict(h='c18.cpp', groups=['tools', 'particles', 'fields', 'output'], defs=['USEMPI'])],
     'one to three (four) processes, each with 0..1 (2) events of up to 3 particles, arbitrary values, with and without units; two sources in a row; up to two (three) '
     'histograms of 2..4 bins in a row, after events or alone; every arrival order at wildcard receives',
     oracle="the processes' own rows and counts, concatenated and summed",
     outside='the MPI and HDF5 libraries (models stand for them); messages from the root process to others')
prop('C03', [dict(h='c03.cpp', groups=['ini'])],
     'every text of up to 4 (5) bytes, each any byte but NUL; nine text frames (pair, section header, value, continuation lines, byte order mark, rejected pairs, file, '
     'names and sections of 47..53 characters, lines of 190..205 characters) with 2..5 arbitrary bytes inserted',
     oracle='line-by-line reference reader written in the harness',
     outside='lines longer than the line buffer (199 characters) and names longer than 49 characters: memory safety only; NUL bytes')
prop('C04', [dict(h='c04.cpp', groups=['reader'])],
     'every real value in every sign; 14 listed notations; decimal integers of 1..3 (4) digits and hexadecimal ones of 1..2 digits (every digit), 5 large ones; every spelling of '
     'the boolean words, every other word of up to 2 (3) printable characters; keys and sections of two letters in every case; vectors in 7 bracket and separator styles, '
     'over one or two lines, of three or more components; 12 unreadable values; up to 3 (4) sections',
     oracle='the value written to the file, or the supplied default',
     outside='integers with leading zeros or trailing text, vectors of one or two components, sections without any key')
prop('C01', [dict(h='c01.cpp', groups=['tools', 'input'])],
     'every real value of every key; per section an orthogonal array of keys in which any three are present and absent in every combination (thorough: every subset); all four '
     'field types; 0..2 (0..3) particle and histogram '
     'sections in three orders, with and without a gap in the numbering; rows of 9, 10, 12 and 103 sections; the check file on and off; eight decks that cannot be run',
     oracle='the value written to the deck over the reference scale of the unit system, or the listed default',
     outside='the values of the reference scales (C02); text that the reader cannot parse (C03, C04)')
MAIN = ['tools', 'input', 'particles', 'source', 'fields', 'pushers', 'processes', 'output', 'main']
SPY = ['-Dmain=qed_main', '-DVF_SPY', '-include', __import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))), 'h', 'spy.h')]
prop('C22', [dict(h='c22.cpp', groups=MAIN, per_file={'QEDCASC.cpp': SPY})],
     'the real main on decks with any time step and 0..3 (0..4) steps, the end time on or anywhere between steps; one particle of any kind in up to 2 sources of 1..2 (1..3) '
     'events; up to two histograms in time order, each at any time up to and beyond the end; any step, event and process that emits or converts, and offspring that emit in '
     'their turn; output and tracking on and off; every radiation model in both spellings; every field type and source kind with arbitrary parameters',
     oracle='a record of every generated event, push and interaction, and the output file read back, against the rules of a run written in the harness',
     outside='the physics inside a push or an interaction (C06-C10: stand-ins that move, create or convert take their place in the loop); plane fields and sources in three '
     'directions; histograms given out of time order')
PY = ['tools', 'particles', 'source', 'fields', 'pushers', 'processes', 'output', 'python']
prop('C23', [dict(h='c23.cpp', groups=PY, per_file={'RunManager.cpp': SPY}), dict(h='c23.cpp', groups=PY, per_file={'RunManager.cpp': SPY}, defs=['USEOPENMP'])],
     'with and without OpenMP (one thread): runs of 0..2 events and 0..3 steps of any time step, any step and process that emits or converts; every model, field, particle and '
     'distribution name in both spellings with arbitrary parameters; every subset of the four settings in two orders, after 0..2 refused runs and before a proper one; ten '
     'invalid settings; two (three) runs in a row with one setting or all changed between them; every heap access checked, destruction included',
     oracle='a record of every generated event, push and interaction, and the returned arrays, against the rules of a run written in the harness',
     outside='pybind11 and numpy themselves (small models stand for them); several threads (C27); the physics inside a push or an interaction')
prop('C31', [dict(h='c31.cpp', groups=PY + ['bindings'], per_file={'RunManager.cpp': SPY})],
     'every call of the module by name: all settings with arbitrary values (as for C23) in their order; beamOn in five ways (positional, by keyword in either order, with and without threads); 1..2 events of every kind, emitting, converting or '
     'neither; integers in place of numbers',
     oracle='the effect on the run: what the pushers, processes and sources are given, and the rows that each getter returns',
     outside='pybind11 itself (a model of its registration and calls stands for it); refused argument types; the package file __init__.py; several threads (C27)')
prop('C26', [dict(h='c26.cpp', groups=MAIN, per_file={'QEDCASC.cpp': SPY})],
     '0..4 arguments; one argument of 0..6 (8) arbitrary bytes, or of up to 48 (64) characters with one arbitrary byte and any of 8 endings; decks that are there or not; nine '
     'faults of a deck, with any model name of up to 3 printable characters',
     oracle='a run takes place exactly if the single argument names a deck that is there and can be run; all else leaves a non-zero status',
     outside='running without even a program name (argc 0)')
prop('C28', [dict(h='c28.cpp', groups=['tools', 'input'])],
     'every positive value (and negative vector components) of every key that the summary lists; all four field types; 0..3 particle and 0..3 histogram sections with all keys set; tracking, '
     'pair production and output on and off; two orders of the sections; with and without the summary of an earlier run in place',
     oracle='the value written to the deck over the reference scale, against the text of input-check.txt read back',
     outside='the keys that the summary leaves out; the number of digits (at least five are expected); a summary that cannot be opened')
prop('C27', [dict(h='c27.cpp', groups=MAIN, per_file={'QEDCASC.cpp': ['-Dmain=qed_main']}, defs=['USEOPENMP'], threads=True),
             dict(h='c27p.cpp', groups=PY, defs=['USEOPENMP'], threads=True)],
     'the real main and the real RunManager, compiled with OpenMP, with two threads (thorough: also three) and two or three events, every sequence of thread '
     'choices at locks, atomic operations, loop dispatch and thread ends with up to 2 (3) preemptions (1 (2) with the physics, 1 with three events); photons of arbitrary energies with output and tracking on '
     'and off, 0..1 steps and a histogram at the start or end; two steps of every model, field type, particle kind, with and without pair production, emitting or not; every memory access '
     'of every thread ordered by happens-before',
     oracle='every event exactly once in the output; the result of the same run with one thread; vector clocks for data races and an owner graph for deadlocks',
     outside='the OpenMP runtime itself (a model of the calls that clang makes stands for it; the runtime library of the compiler is not run); reorderings that only racy programs show; more threads and '
     'preemptions; the printed progress line',
     assumes=['iterations are given to threads as a static schedule does unless the code asks for another one'],
     budget={'quick': 200, 'thorough': 1500})
prop('C29', [dict(h='c29.cpp', groups=MAIN, per_file={'QEDCASC.cpp': ['-Dmain=qed_main']}, defs=['USEMPI'])],
     'the real main, compiled with MPI and run by 1..3 (4) processes: one or two sources of 1..2 events of photons of arbitrary energies, 0..1 steps, 0..2 histograms at the start or end, tracking and '
     'output on and off; two steps of every model with and without pair production, emitting or not',
     oracle='the union of what the processes generate, recognised by the energies, against the single output file; the run of a single process; a list of all variates by sequence and place',
     outside='the MPI library itself (a model of its calls stands for it; processes run one after the other); the random sequences themselves (that different seeds give different sequences)')
# q_again*: the checked call after an earlier one, so that state kept between calls (caches, statics, members) is seen
for _p, _t in {
    'C01': 'a second deck after any first one', 'C03': 'a second text after a first one', 'C04': 'a second reader and a second request after a first one',
    'C05': 'a second rotation, inverse or product after a first one', 'C06': 'a second push by the same or another pusher, of the same particle, another one or one at the same address, at any time and place',
    'C07': 'a force after one on another particle in another field', 'C08': 'an interaction or a rate after an earlier one with another particle, field, mode or place',
    'C09': 'an interaction after an earlier one with another particle, field or place', 'C10': 'a decay or a rate after an earlier one with another photon, field or place',
    'C11': 'a request after an earlier one on the same or other arrays, changed in place or not', 'C13': 'a field after one of another time, place or wave, at the same address or not',
    'C14': 'a field after one of another time, place or pulse, at the same address or not', 'C15': 'a field after one of another time, place or pulse, at the same address or not',
    'C16': 'a histogram after another one, and refilled', 'C19': 'a request after one to another particle, at the same address or not, or after its state was changed',
    'C20': 'a source after another one of other settings', 'C24': 'draws after others from other weights, bounds or widths, changed in place or not',
}.items():
    SPEC[_p]['bounds'] += '; the same after an arbitrary earlier call: ' + _t
# q_large*: concrete sizes as in use, with the decisive values still symbolic, so that a change of behaviour with size is seen
for _p, _t in {
    'C03': 'a text of 12 or 40 lines', 'C04': '12 or 40 sections of four keys', 'C28': '11 or 12 particle and histogram sections',
    'C06': '12 (33) pushes in a row, with the track kept', 'C11': 'arrays of up to 129 (257) entries, any request in seven of their intervals',
    'C16': 'up to 129 (500) bins', 'C17': '13 or 70 particles, 12 events, 12 tracks, a track of 140 points, 12 sources, 65 bins', 'C18': '5 or 9 processes (in the order sent or its reverse)',
    'C19': 'up to 300 track points', 'C20': 'up to 130 events of a source', 'C21': 'up to 501 particles, 590 with the default capacity', 'C22': '20 steps with and without an interaction, 12 events, 11 sources, 11 histograms',
    'C23': '33 particles, 9 runs of a manager', 'C24': 'up to 130 (257) weights, up to 129 samples', 'C25': 'up to 129 (257) points',
}.items():
    SPEC[_p]['bounds'] += '; sizes as in use: ' + _t
