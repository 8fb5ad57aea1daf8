"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def p(id, title, statement, over, qtext, why, files, mech, technique, note, level='exploration', state=(), at=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, state=state, at=at))

MO, PF, CZ, ST, DE, UT, VI, AR, ON, RU = ('oneka/model.py', 'oneka/probabilityfield.py', 'oneka/capturezone.py', 'oneka/stochastic.py',
    'oneka/deterministic.py', 'oneka/utilities.py', 'oneka/visualize.py', 'oneka/archive.py', 'oneka/oneka.py', 'runme.py')

# --- aquifer model
p('M01', 'The discharge potential is the documented superposition',
  'At every location off the wells, the discharge potential of a model equals the quadratic regional polynomial about its own origin plus the logarithmic contribution of every well, to rounding error. This holds for any well list (none, many, coincident, injecting, idle), any coordinates and after the regional flow has been set or fitted again.',
  ['inputs', 'histories'], 'all aquifers, well fields, regional coefficients, origins, evaluation points; every order of setting and evaluating',
  'The one existing test evaluates a single model at a single point; superposition must hold for every well list and every coordinate magnitude.',
  [MO], [('potential evaluation', MO)], 'differential runtime oracle: extended-precision closed form',
  'Each observed potential is compared with an independent long-double evaluation at a tolerance scaled by the sum of absolute terms.')
p('M02', 'Discharge is the negative gradient of the potential and balances water',
  'The discharge vector at every location is minus the gradient of the potential, and the net outflow through any closed curve equals the recharge the regional flow represents over the enclosed area minus what the enclosed wells extract.',
  ['inputs'], 'all models and points; circles and polygons enclosing any subset of wells',
  'The tests compare one vector with a stored value; consistency of vector and potential and conservation are relations over all points and contours.',
  [MO], [('discharge evaluation', MO), ('potential evaluation', MO)], 'conservation and gradient monitors against extended-precision references',
  'Vectors against the closed form and finite differences; fluxes by quadrature around contours, at tolerances set from the quadrature error.')
p('M03', 'Head and potential correspond one-to-one; a dry aquifer is an error',
  'Head above the aquifer base is strictly increasing in the potential, continuous across the change from unconfined to confined, and the inverse of the potential a head produces. Where the potential is not positive the aquifer is dry: asking for the head there fails with the aquifer error and never yields a number.',
  ['inputs'], 'all conductivities and thicknesses; heads across both regimes and within ulps of the transition',
  'The test checks one confined head; monotonicity, continuity at the transition and refusal on dry ground need whole ranges.',
  [MO], [('head evaluation', MO), ('potential from head', MO)], 'round-trip, monotonicity and refusal monitors with extended-precision oracle',
  'Sweeps across both regimes and the ulp neighbourhood of the transition in every case.')
p('M04', 'Seepage velocity is discharge over saturated thickness and porosity',
  'The velocity at a location is the discharge there divided by the porosity and by the saturated thickness: the head where unconfined, the full aquifer thickness where confined; it is undefined (an error) on dry ground. The shortcut for confined aquifers equals the general velocity wherever the aquifer is confined.',
  ['inputs'], 'all models and points, both regimes, the transition and dry ground',
  'One test point in one regime; the saturated thickness changes regime across the domain.',
  [MO], [('velocity evaluation', MO), ('confined shortcut', MO)], 'differential runtime oracle with regime coverage counters',
  'Velocities against the extended-precision closed form in all three regimes, with observed counts of each.')
p('M05', 'Models are isolated: evaluation is pure and nothing is shared',
  'Evaluating, fitting or changing one model never changes another one, nor the wells, coefficients or observations a caller passed in. Evaluating twice gives the same result, and evaluation leaves the model as it was.',
  ['histories'], 'all interleavings of constructing, evaluating, fitting and altering several models built from shared arguments',
  'The tests use one model each; sharing shows only in a history over several.',
  [MO], [('construction', MO), ('fitting', MO)], 'history monitor with deep snapshots of every model and argument',
  'Random histories over several live models, each step compared with frozen snapshots.')
# --- fit
p('F01', 'The regional-flow fit is the weighted least-squares optimum',
  'The fitted coefficients minimise the squared errors between observed and modelled potentials, each observed head weighted by the uncertainty it has as a potential. No perturbation of the coefficients fits the observations better.',
  ['inputs'], 'all observation networks (minimal to large, noisy, mixed confined and unconfined, unequal errors), wells and origins, and the shipped data sets',
  'The test checks one small data set for one result; optimality is a statement over all perturbations and all networks.',
  [MO], [('regional-flow fit', MO)], 'optimality oracle: extended-precision normal equations and an independent solver',
  'Stationarity and comparison with a long-double least-squares solution, at tolerances scaled by the conditioning.')
p('F02', 'Heads generated by a model are recovered by fitting',
  'When the observed heads are those of an aquifer with some regional flow and the same wells, fitting recovers that flow: potentials and heads agree everywhere, not only at the observations.',
  ['inputs'], 'all aquifers, wells, regional flows and networks with enough well-spread observations',
  'The tests never generate data from a known model.',
  [MO], [('regional-flow fit', MO)], 'round-trip oracle on synthetic truth',
  'Recovered coefficients and heads compared with the generating ones at conditioning-scaled tolerances.')
p('F03', 'The reported covariance is the propagated measurement uncertainty',
  'The covariance that accompanies the fitted coefficients is symmetric, positive semidefinite and equals the propagation of the stated head uncertainties through the weighted fit. For confined observations scaling all uncertainties scales it quadratically, and a further observation never increases it.',
  ['inputs'], 'all networks, uncertainties and aquifers',
  'The existing test does not look at the covariance.',
  [MO], [('regional-flow fit', MO)], 'differential oracle and metamorphic monitors',
  'Against extended-precision inverse normal equations, and metamorphic relations across pairs of fits.')
p('F04', 'Observations the aquifer cannot produce are refused',
  'A set of observations that contains a head at or below the aquifer base cannot be fitted: the fit fails with the aquifer error and the model keeps the regional flow it had.',
  ['inputs', 'histories'], 'all networks with one or more impossible heads at any position, on fitted and unfitted models',
  'No test supplies an impossible observation.',
  [MO], [('regional-flow fit', MO)], 'refusal monitor with before/after state snapshots',
  'Every position and number of impossible records; model state compared bit for bit.')
p('F05', 'The fitted flow does not depend on the frame or order of the input',
  'Shifting all coordinates, choosing another origin, permuting observations or wells, or shifting the elevation datum leaves the fitted heads and velocities unchanged at every place.',
  ['inputs', 'configurations'], 'all problems and transformations, including coordinates of UTM magnitude',
  'The tests use one frame.',
  [MO], [('regional-flow fit', MO)], 'metamorphic monitor over transformed pairs of runs',
  'Potentials of both fits compared at many places at conditioning-scaled tolerances.')
# --- probability field
p('P01', 'A track marks exactly the grid nodes within the umbra of it',
  'Entering particle tracks into a probability field marks every grid node whose distance to a track is less than the umbra and no node farther away, including nodes the grid did not cover before. The result does not depend on the order or direction of the tracks, and earlier marks stay.',
  ['inputs', 'histories'], 'all polylines (repeated vertices, motionless, axis-aligned, loops), spacings, umbras, origins and sequences of tracks',
  'No existing test rasterizes a track.',
  [PF], [('track rasterization', PF), ('automatic growth', PF), ('point-segment distance', PF)], 'brute-force raster oracle over an unbounded lattice',
  'Every node on the grid and around it is judged; nodes within a rounding band of the umbra are not judged and are counted.')
p('P02', 'Growing the field keeps every node in place and covers the request',
  'After the field is asked to cover an area it covers it, its spacing is unchanged, every node keeps its coordinates on one fixed lattice and everything recorded at every node is still there; new nodes are empty.',
  ['histories'], 'all sequences of growth requests in all directions, mixed with tracks and registrations, in unlocated and located fields',
  'One test grows a field once; contents under sequences of growth are untested.',
  [PF], [('automatic growth', PF)], 'history monitor: shadow map from lattice node to content',
  'A dictionary keyed by lattice index is carried along and compared after every operation.')
p('P03', 'Registration accounts every realization once',
  'The accumulated value of a node is the sum of the weights of the registered realizations that marked it, and the total weight is the sum of all weights; registering clears the marks, so nothing is counted twice or carried over. Hence every probability lies between 0 and 1.',
  ['histories'], 'all sequences of tracks, registrations with any weights, and growth',
  'No existing test registers anything.',
  [PF], [('registration', PF)], 'conservation monitor over operation histories with a shadow ledger',
  'The ledger is compared node by node after every registration.')
p('P04', 'The distance to a path segment is the true distance',
  'The distance used to mark nodes is the Euclidean distance from the point to the closed segment, also for segments of zero length and for far, near and collinear points.',
  ['inputs'], 'all points and segments, degenerate, tiny, huge and at UTM coordinates',
  'The test has a handful of non-degenerate cases.',
  [PF], [('point-segment distance', PF)], 'differential oracle in extended precision',
  'Against the exact projection in long double at rounding-error tolerances.')
p('P05', 'Impossible geometry is refused and leaves the field untouched',
  'A field cannot be made with a spacing that is not positive, nor be asked to cover an area with reversed limits: both are refused with an error, and a refused request leaves the field exactly as it was.',
  ['inputs', 'histories'], 'all non-positive spacings and reversed limits, on fields in every state',
  'One constructor test; the state after a refusal is never looked at.',
  [PF], [('construction', PF), ('automatic growth', PF)], 'refusal monitor with bitwise state snapshots',
  'Refusals must be errors and states must be bit-identical.')
# --- tracing
p('T01', 'A trace follows the streamline to the requested tolerance',
  'Every leg of a trace lies on the streamline of the velocity field through its beginning, to within the local tolerance, and the travel time of the whole trace agrees with the speed of the field along it; the end point agrees with the exact solution where one is known.',
  ['inputs'], 'velocity fields with exact flow maps (uniform, rotation, saddle, spiral, shear, radial) and well fields; all tolerances and step limits',
  'No existing test traces a particle.',
  [CZ], [('adaptive tracing', CZ)], 'trajectory monitor: leg-by-leg shadow integration and exact flow maps',
  'Each leg is compared with an independently integrated streamline; coordinates near 5e6 m included.')
p('T02', 'A trace honours start, step limit, duration and direction of time',
  'A trace starts at the requested point, no leg is longer than the step limit, and it covers exactly the requested duration - no shorter, no longer. A negative duration traces forward: the same trace as the reversed field with a positive duration, and a shorter duration gives the beginning of the longer trace.',
  ['inputs'], 'all fields, durations from far below the first internal step to years, both directions, all step limits and tolerances',
  'No existing test traces a particle.',
  [CZ], [('adaptive tracing', CZ)], 'exact-duration oracle in uniform flow plus metamorphic monitors',
  'In uniform flow end points are exact to rounding; other fields by reversal and truncation relations.')
p('T03', 'A failing velocity ends a trace cleanly, where it fails',
  'If the velocity cannot be evaluated, or is not finite, at any moment of a trace, the trace returns exactly the vertices reached so far, reports that it ended early and does not fail; an interrupt by the user does stop the program. Ground that the path does not come near never cuts it short.',
  ['fault_sequences', 'inputs'], 'every single velocity evaluation of a trace failing, in every way it can fail; dry regions anywhere',
  'No test injects a failure; the failing moment ranges over all evaluations of a trace.',
  [CZ], [('error handling around the tracing loop', CZ)], 'exhaustive fault injection at every velocity evaluation, prefix oracle',
  'All evaluation points of the recorded trace are failed in turn (sampled above 1000); result compared with the fault-free prefix.', level='fault_enumeration')
p('T04', 'Tracing always returns, with work in proportion to the path',
  'For every velocity field, duration, tolerance and step limit a trace comes back after a number of velocity evaluations in proportion to the length of the path over the step limit and to what the tolerance demands - also in still water, in undefined velocity and where velocity jumps.',
  ['inputs'], 'ordinary, motionless, undefined and discontinuous velocity fields; extreme tolerances and durations',
  'Termination is a statement over all inputs; no test traces.',
  [CZ], [('step-size control', CZ)], 'bounded-progress monitor: velocity evaluations counted against a reference step controller',
  'Logical steps, not time; liveness is restated as a bound on evaluations. One listed finding: traces into a well.')
p('T05', 'What a capture zone encloses is what the well pumps',
  'Water released anywhere on a backtrace of a pumping well and traced forward for the time the backtrace took arrives at the well. The volume of water in the ground a capture zone delimits, plus the recharge it received, is what the well pumped over the duration.',
  ['inputs'], 'pumping wells in any regional flow with or without recharge and other wells; durations that stay inside the wet aquifer',
  'Physical balance of the combined system; no test computes a capture zone.',
  [CZ, MO], [('adaptive tracing', CZ), ('velocity evaluation', MO)], 'conservation monitor over whole traces',
  'Forward-backward return distances and zone volumes at tolerances set from the tracing tolerance and the number of paths.')
# --- capture zones
p('C01', 'A capture zone is the union of equally spaced traces, registered once',
  'Computing a capture zone marks exactly the nodes within the umbra of the requested number of traces, released at equal angles around the well one metre outside its screen, and registers them as one realization of the given weight. Paths that fail to start contribute nothing and do not disturb the others.',
  ['inputs', 'histories'], 'all numbers of paths, wells, fields (including partly undefined), weights, durations of both signs, and fields already holding content',
  'No existing test computes a capture zone.',
  [CZ, PF], [('capture-zone loop', CZ), ('registration', PF)], 'raster oracle against exact paths',
  'Exact straight paths or independently integrated ones; two-sided node judgement with counted undecided band.')
p('C02', 'The deterministic zone is that of the mean parameters',
  'The deterministic capture zone is the one obtained with the mean of every parameter distribution, the regional flow fitted to the observations with those means, and the target well; it is reproducible and leaves the arguments as they were.',
  ['inputs', 'configurations'], 'all kinds of distributions, wells, targets, confined and unconfined aquifers, dry surroundings, durations of both signs',
  'No existing test runs the deterministic driver.',
  [DE, CZ], [('deterministic driver', DE)], 'end-to-end differential oracle: independent fit, velocity and integration',
  'Zone nodes compared with an independent reference solution, two-sided.')
p('C03', 'The stochastic field counts realizations of one consistent problem',
  'After n realizations the field has total weight n and every node counts the realizations whose capture zone covers it, each computed throughout with one set of parameters. When all parameters are certain and the observations exact, every realization equals the deterministic zone.',
  ['inputs', 'configurations'], 'all distributions, numbers of realizations, wells, targets and aquifers',
  'No existing test runs the stochastic driver.',
  [ST, CZ, PF], [('realization loop', ST)], 'online monitor of every realization: recorded parameters against its own raster',
  'Parameters seen by the velocity function during each realization are recorded and an independent zone computed from them.')
p('C04', 'Realizations are independent draws from the stated uncertainties',
  'Over many realizations conductivity, porosity, thickness and every pumping rate follow their stated distributions and are independent of each other, and the regional flow follows the normal distribution of the fit belonging to the same realization; every realization of every run draws anew, and each well its own rate even where several share one distribution.',
  ['inputs', 'histories'], 'all combinations of distributions over long series of realizations',
  'Statistical properties over many realizations.',
  [ST, MO], [('realization loop', ST), ('sampling of the regional flow', ST)], 'statistical monitor over recorded realizations with fixed seeds',
  'Distribution and independence tests at false-alarm rates below 1e-9 per run; all randomness is seeded.')
p('C05', 'Zones do not depend on frame, units of time, datum or record order',
  'Moving, turning or mirroring everything, shifting the elevation datum, changing the unit of time, reordering wells or observations, splitting a well into two records at the same place or rescaling all observation errors of a confined aquifer gives the same capture zone, transformed accordingly.',
  ['inputs', 'configurations'], 'all problems and all these transformations',
  'Metamorphic relations over pairs of runs.',
  [DE, CZ, MO, PF], [('deterministic driver', DE)], 'metamorphic monitor over pairs of complete runs',
  'The transformed zone must lie between zones of a slightly smaller and a slightly larger umbra.')
p('C06', 'Capture zones are nested in duration, umbra and number of paths',
  'A longer duration, a wider umbra or a multiple of the number of paths never removes ground from a capture zone.',
  ['inputs'], 'all problems; increasing durations, umbras and multiples of paths',
  'A relation over pairs of runs.',
  [CZ, DE, PF], [('capture-zone loop', CZ)], 'monotonicity monitor over pairs of runs',
  'Node sets compared by inclusion within the tolerance band of the umbra.')
# --- distributions
p('D01', 'Parameters are sampled from the distribution they specify',
  'A number is a constant, a pair a uniform and a triple a triangular distribution, as tuple or list, degenerate or not; samples lie within the limits, follow that law, and the mean is that of the law. Anything else is refused.',
  ['inputs'], 'all constants, ranges and triangles including degenerate ones, negative ones and modes at the ends; malformed specifications',
  'No existing test samples anything.',
  [ST], [('variate generation', ST), ('variate mean', ST)], 'statistical monitor with exact distribution functions',
  'Kolmogorov-Smirnov statistics at false-alarm rates below 1e-9, all seeded; range and mean are checked exactly.')
p('D02', 'Specifications are accepted exactly when ordered and within bounds',
  'A parameter specification is recognised as valid if and only if it is a number within the bounds, or an ordered pair or triple (tuple or list) within the bounds.',
  ['inputs'], 'all specifications around the bounds, disordered, of wrong length and of wrong types',
  'No existing test validates anything.',
  [ST], [('specification check', ST)], 'decision oracle over generated specifications',
  'Boundary values, one-ulp neighbours, all permutations of triples, wrong lengths and types.')
# --- utilities
p('U01', 'Observations are filtered and merged without loss or distortion',
  'Observations within the buffer of any well are dropped; observations less than a metre apart are replaced by one with the minimum-variance average and its standard deviation, wherever they stand in the list; all others pass through unchanged. The result does not depend on the order, the input lists are untouched, and the log names every record, whatever became of it.',
  ['inputs'], 'all networks: clusters of any size anywhere in the list, records at the buffer distance, chains',
  'No existing test filters observations.',
  [UT], [('observation filter', UT)], 'reference filter oracle and permutation monitor',
  'Against an independent grouping; cases whose grouping depends on order are judged by bounds only.')
p('U02', 'The summary table states the statistics of the data',
  'The summary states for every variable the number of values present, minimum, median, maximum, mean and standard deviation of those values, to the precision printed, ignoring missing values.',
  ['inputs'], 'all tables: singletons, even and odd counts, constants, missing values, large magnitudes',
  'No existing test prints a summary.',
  [UT], [('summary table', UT)], 'parse-back oracle',
  'The printed table is parsed and each cell compared with statistics computed independently.')
# --- program
p('O01', 'A run is refused before it starts exactly when its input is invalid',
  'A run whose arguments break a documented requirement, or that is left with fewer than seven observations after filtering, is refused before anything is computed, plotted or archived. A run whose arguments meet the requirements is carried out, including the documented defaults and the shipped examples.',
  ['inputs', 'configurations'], 'every argument broken in every documented way; configurations at the edge of what is allowed; all shipped data sets',
  'No existing test runs the program.',
  [ON, ST], [('argument validation', ON), ('specification check', ST)], 'refusal and side-effect monitor (velocity evaluations, registrations, figures, files)',
  'Monitors count what was computed, drawn and written before the refusal.')
p('O02', 'Every run leaves its own archive from which it can be restored',
  'Every completed run leaves exactly one new archive, and no archive of an earlier run is changed or lost, whatever the clock does and even if writing fails. Loading it, in any process, gives back all inputs as they were given - the observations before filtering - and the resulting field, intact and usable.',
  ['histories', 'fault_sequences', 'inputs'], 'series of runs within the same second, clocks standing still or running backwards, a failing write at every write of an archive',
  'No existing test archives anything; losses show only in series of runs and under faults.',
  [AR, ON], [('archive writer', AR), ('archive reader', AR)], 'file-system monitor with clock and write-fault injection, round-trip oracle',
  'All files are compared byte for byte before and after; restored values compared with types.', level='fault_enumeration')
p('O03', 'What a run reports is what its field and its models say',
  'The inputs as logged, the observations listed as retained and their statistics, the reported areas, the exceedance table, the logged parameters, coefficients and recharge of every realization, the drawn maps and the returned field all describe the same computed result. Recharge is reported with infiltration positive.',
  ['inputs', 'configurations'], 'all stochastic and deterministic runs',
  'No existing test runs the program; consistency is a relation between its outputs.',
  [ON, VI, ST, DE], [('result reporting', ON), ('realization log', ST), ('area and impact curve', VI)], 'log-parsing consistency oracle',
  'Table areas may exceed the strict area by one cell (the convention of the impact curve).')
p('O04', 'The driver runs the named problem and keeps the logs of runs apart',
  'The driver runs the named data module with exactly the values it defines, and reports a module that does not exist without running anything. Each run has one log, which holds the messages of that run and no other, whatever happened to the runs before and after it - even when they start within the same second - with its warnings and the time it took.',
  ['histories', 'fault_sequences'], 'series of good, refused, failing, interrupted and missing runs in one process',
  'No existing test runs the driver; mixing of logs shows only in series.',
  [RU, ON, AR], [('driver', RU)], 'history monitor over files, log contents and handlers',
  'Log files are recognized by their suffix.')
# --- plots
p('V01', 'Maps and curves show the field where it lies',
  'The probability map shows at every node of the field its probability (smoothed with nothing beyond the field when asked), the zone map fills exactly the captured cells and reports their area, and the impact curve gives for every probability the area over which it is exceeded; wells, target and observations are marked at their places. Plotting never changes the field, and a field without realizations is refused.',
  ['inputs'], 'all fields: shapes, places, spacings, weights and contents',
  'No existing test draws anything.',
  [VI], [('probability map', VI), ('zone map', VI), ('impact curve', VI)], 'artist monitor: drawn data against the field',
  'Contour arguments, patches and line data of the figures are compared with the field.')
p('V02', 'Head and potential maps show the model, and nothing on dry ground',
  'The head and potential maps show the values of the model at every node of the requested window; nodes where the aquifer is dry are blank in the head map, and drawing them never fails.',
  ['inputs'], 'all models and windows, with and without dry ground',
  'No existing test draws anything.',
  [VI, MO], [('head map', VI), ('potential map', VI)], 'artist monitor: drawn data against the closed form',
  'Drawn values against the extended-precision closed form; one listed finding: the quick capture-zone plot cannot work.')

LEVELNOTE = ' Held on the executions driven (counts in the evidence file); nothing is claimed beyond them.'
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, q['title']
        d = {'id': q['id'], 'title': q['title'], 'statement': q['statement'],
             'quantifier': {'over': q['over'], 'text': q['qtext']}, 'why_tests_cant': q['why'],
             'anchors': {'files': q['files'], 'mechanism': [{'name': n, 'where': w} for n, w in q['mech']], 'hook_needed': None}}
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -B -c "import numpy, scipy, matplotlib"', 'checks': [], 'not_applicable': [],
     'notes': 'Pure-Python monitors attached from outside; /repo carries no hooks. Replay: /opt/venv/bin/python run.py --replay FILE.'}
for q in P:
    m['checks'].append({'property': q['id'], 'quick_cmd': '/opt/venv/bin/python -B run.py %s --tier quick' % q['id'],
                        'thorough_cmd': '/opt/venv/bin/python -B run.py %s --tier thorough' % q['id'],
                        'technique': 'runtime monitoring: ' + q['technique'], 'level': q['level'], 'level_note': q['note'] + LEVELNOTE})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(P), 'properties')
