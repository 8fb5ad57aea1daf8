"""What a run reports - areas, exceedance table, parameters, recharge - is what its field and its models say."""
import math
import re
import matplotlib.pyplot as plt
import numpy as np
import oneka.oneka
from fw import gen, ref
from fw.core import Violation, require
from fw.hooks import watch_realizations
from checks.F01 import fit_tol
from checks.V01 import georeferenced, kernel, symbols
from fw.runs import Contours, Run, Tape, scratch

PROP = 'O03'
FUEL = 6_000_000
RULE = ('whole runs, stochastic and deterministic, with the log parsed and compared with the returned field, with the models the '
        'realizations were traced in and with the plots. Distinct by reported numbers.')
REQUIRE = {'stochastic': 60, 'deterministic': 60, 'table_rows': 1000, 'realizations': 250, 'coefficients': 1500, 'recharge': 250, 'infiltration': 20, 'levels_reported': 40, 'many_realizations': 2, 'tiny_zones': 4, 'forward': 30, 'barely_recharged': 5}
NUM = r'[-+]?(?:\d[\d,]*\.?\d*|\.\d+)(?:[eE][-+]?\d+)?'
ACRE = 4046.86


def numbers(s):
    return [float(x.replace(',', '')) for x in re.findall(NUM, s)]


def ulp(text):
    """Half the last printed digit of a number."""
    m = re.match(r'[-+]?[\d,]*\.?(\d*)(?:[eE]([-+]?\d+))?', text)
    if m.group(2) is not None and float(text.replace(',', '')) == 0:
        return 0.0                                         # a zero with an exponent is a zero
    return .5001*10.0**(int(m.group(2) or 0) - len(m.group(1) or ''))


def echo(r, tape, retained):
    """The inputs are logged as given."""
    for name in ('npaths', 'duration', 'base', 'buffer', 'spacing', 'umbra', 'tol', 'maxstep', 'nrealizations', 'target'):
        ls = [l for l in tape if re.match(r'\s*%s\s*=' % name, l)]
        require(len(ls) >= 1, 'the log does not state %r', name)
        got = numbers(ls[0].split('=', 1)[1])[0]
        want = float(r.a[name])
        require(abs(got - want) <= .00501 or abs(got - want) < 1e-6*abs(want), 'the log says %s = %r, the run has %r', name, got, want)
    for name, key in (('project name', 'projectname'), ('run time', 'runtime'), ('c_dist', 'c_dist'), ('p_dist', 'p_dist'), ('t_dist', 't_dist'),
                      ('confined', 'confined'), ('smooth', 'smooth')):
        ls = [l for l in tape if re.match(r'\s*%s\s*=' % name, l)]
        require(len(ls) >= 1 and ls[0].split('=', 1)[1].strip() == str(r.a[key]).strip(), 'the log says %r, the run has %r', ls[:1], r.a[key])
    listed(tape, 'stochastic_wells', r.a['stochastic_wells'])
    listed(tape, 'observations', r.a['observations'])
    # what became of the observations
    obs = oneka.oneka.filter_obs(r.a['observations'], r.a['stochastic_wells'], r.a['buffer'])
    listed(tape, 'active observations', obs)
    k = next((i for i, l in enumerate(tape) if 'Retained Observations' in l), None)
    require(k is not None, 'the statistics of the observations are missing')
    X = np.array([[float(v) for v in o] for o in obs])
    stats = {'cnt': X.shape[0] + 0*X[0], 'min': X.min(0), 'med': np.median(X, 0), 'max': X.max(0), 'avg': X.mean(0), 'std': X.std(0)}
    for name, want in stats.items():
        l = next((l for l in tape[k:k + 14] if l.strip().startswith(name + ':')), None)
        require(l is not None, 'the statistics of the observations lack %r', name)
        got = re.findall(NUM, l.split(':', 1)[1])
        require(len(got) == 4, 'the statistics of the observations have the line %r', l)
        for g, w in zip(got, want):
            same_number(g, float(w), 'statistics of the retained observations: %s' % name)


def people(r, ax):
    """The map shows the wells, the target and the observations that were retained, and no others."""
    obs = oneka.oneka.filter_obs(r.a['observations'], r.a['stochastic_wells'], r.a['buffer'])
    symbols(ax, r.a['target'], r.a['stochastic_wells'], obs, r.a['spacing'])


def listed(tape, name, records):
    """The log has the number of records and, below, each of them in order."""
    k = next((i for i, l in enumerate(tape) if re.match(r'\s*%s\s*:\s*\d+\s*$' % name, l)), None)
    require(k is not None and int(tape[k].split(':')[1]) == len(records), 'the log does not list %d %s: %r', len(records), name, tape[k] if k is not None else None)
    for l, rec in zip(tape[k + 1:], records):
        require(str(rec) in l, 'the log lists %r among the %s instead of %r', l, name, rec)


def same_number(text, want, what):
    got = float(text.replace(',', ''))
    require(abs(got - want) <= ulp(text) + 1e-9*abs(want), '%s: the log says %s, the run has %r', what, text, want)


def forward(r, ob):
    """Forward in time, for the moment before the water is in the well."""
    q = max(abs(r.d.mean_wells[r.d.target][3]), 1.0)
    r.a['duration'] = -min(.25*2*math.pi*r.d.tm*r.d.pm/q, 1.0)
    ob.count('forward')


def barely_recharged(rng, r, ob):
    """Exact levels over an aquifer that receives next to nothing."""
    d, sc = r.d, r.sc
    c = np.array(sc.coef, dtype=float)
    c[:2] = -gen.logu(rng, 1e-9, 1e-6)*gen.pick(rng, [1, -1])*np.array([.3, .7])
    obs = []
    for x, y, z, s in sc.obs:
        pot = float(ref.potential(c, sc.xt, sc.yt, d.mean_wells, x, y)[0])
        if pot <= 0:
            return
        obs.append((x, y, d.base + float(ref.head_of_potential(pot, d.cm, d.tm)), s))
    if all(o[2] - d.base > d.tm for o in obs):             # there the squared error does not enter
        r.a['observations'] = obs
        ob.count('barely_recharged')


def stochastic(rng, ob, idx):
    r = Run(rng, stochastic=True)
    if idx % 32 == 9:
        r.a.update(nrealizations=gen.pick(rng, [130, 280]), npaths=1, duration=r.a['duration']*.02)
        ob.count('many_realizations')
    elif idx % 7 == 3:
        forward(r, ob)
    plt.close('all')
    with scratch(), Tape() as t, watch_realizations(snapshots=False) as done, Contours() as c:
        pf = r.go()
    n = r.a['nrealizations']
    echo(r, t.lines, None)
    require(pf is not None, 'no field was returned')
    P = (pf.pgrid/pf.total_weight).ravel()
    s2 = float(r.a['spacing'])**2
    # the table
    k = next((i for i, l in enumerate(t.lines) if 'Pr(capture)' in l), None)
    require(k is not None, 'the exceedance table is missing')
    rows = [re.findall(NUM, l) for l in t.lines[k + 1:]]
    rows = [x for x in rows if len(x) == 3]
    require(len(rows) == 19, '%d rows in the exceedance table', len(rows))
    last = None
    for i, row in enumerate(rows):
        p = .05*(i + 1)
        pr, area, acres = [float(x.replace(',', '')) for x in row]
        more, least = int((P > p + 1e-9).sum()), int((P > p - 1e-9).sum())
        # the convention of the curve: up to one cell more than strictly exceeds
        require(more*s2 - .51 <= area <= (least + 1)*s2 + .51, 'the table says the probability exceeds %r over %r; the field says %r (%d cells of %r)',
                p, area, more*s2, more, s2)
        below = P[P <= p + 1e-9].max(initial=0)
        under = P[P <= p - 1e-9].max(initial=0)
        require(min(abs(pr - below), abs(pr - under)) <= .00051, 'the table lists the probability %r for the threshold %r, the field has %r', pr, p, below)
        require(abs(acres - area/ACRE) <= .00501 + .51/ACRE, '%r m2 are listed as %r acres', area, acres)
        require(last is None or area <= last + .51, 'the area grows with the probability')
        last = area
        ob.count('table_rows')
    # the realizations
    require(len(done) == n, '%d realizations registered, %d requested', len(done), n)
    heads = [i for i, l in enumerate(t.lines) if re.match(r'\s*Realization\s*#', l)]
    require(len(heads) == n, '%d realizations logged, %d computed', len(heads), n)
    for q, (i, d) in enumerate(zip(heads, done)):
        if d.params is None:
            continue
        base, kk, pp, hh, wells, coef, xo, yo = d.params
        txt = re.findall(NUM, t.lines[i].split('#', 1)[1])
        require(len(txt) == 6, 'realization line %r', t.lines[i])
        require(int(txt[0]) == q, 'realization %d is logged as %s', q, txt[0])
        for name, x, v in zip(('base', 'conductivity', 'porosity', 'thickness', 'recharge'), txt[1:], (base, kk, pp, hh, -2*(coef[0] + coef[1]))):
            same_number(x, v, 'realization %d: %s' % (q, name))
        ob.count('recharge')
        ob.count('infiltration', coef[0] + coef[1] < 0)
        near = t.lines[i + 1:i + 6]
        drawn = next((l for l in near if 'rng' in l), None)
        require(drawn is not None, 'the coefficients of realization %d are not logged', q)
        for x, v in zip(re.findall(NUM, drawn.split(':', 1)[1]), coef):
            same_number(x, v, 'realization %d: drawn coefficients' % q)
            ob.count('coefficients')
        ev = next((l for l in near if 'ev' in l), None)
        require(ev is not None, 'the fitted coefficients of realization %d are not logged', q)
        obs = oneka.oneka.filter_obs(r.a['observations'], r.a['stochastic_wells'], r.a['buffer'])
        want, _, cov, (WA, Wb) = ref.fit(obs, base, kk, hh, wells, xo, yo)
        slack = fit_tol(WA, Wb)*np.sqrt(np.abs(np.diag(np.asarray(cov, dtype=float))))
        for x, v, e in zip(re.findall(NUM, ev.split(':', 1)[1]), np.ravel(want), slack):
            v = float(v)
            require(abs(float(x) - v) <= ulp(x) + 1e-6*abs(v) + 1e-12 + e, 'realization %d: the log says the fit is %s, it is %r', q, x, v)
        ob.count('realizations')
    # the map
    require(len(c.filled) == 1, '%d filled maps', len(c.filled))
    want = pf.pgrid/pf.total_weight
    if r.a['smooth']:
        want = kernel(want, r.a['smooth'])
    georeferenced(*c.filled[0][1:4], pf, want, 2e-3 if r.a['smooth'] else 1e-9, 'map')
    people(r, c.filled[0][0])
    require(len(plt.get_fignums()) == 2, '%d figures, expected the map and the impact plot', len(plt.get_fignums()))
    ob.count('stochastic')
    ob.count('levels_reported', len(set(x[1] for x in rows)) > 1)
    ob.show({'run': r.describe(), 'table': [' '.join(x) for x in rows[::6]]})
    ob.nontrivial(rows)


def deterministic(rng, ob, idx):
    r = Run(rng, stochastic=False)
    if idx % 9 == 4:
        # a zone of a few square meters
        s = gen.pick(rng, [1, 1.5, 2, 3])
        r.a.update(spacing=s, umbra=s*float(rng.uniform(1, 1.6)), npaths=gen.pick(rng, [1, 2]), duration=r.a['duration']*gen.pick(rng, [1e-3, .01, .03]))
    elif idx % 7 == 3:
        forward(r, ob)
    elif idx % 9 == 5:
        barely_recharged(rng, r, ob)
    plt.close('all')
    with scratch(), Tape() as t, watch_realizations(snapshots=False) as done:
        pf = r.go()
    echo(r, t.lines, None)
    cells = int((pf.pgrid > 0).sum())
    want = cells*float(r.a['spacing'])**2
    k = next((i for i, l in enumerate(t.lines) if 'Capture Zone Area' in l), None)
    require(k is not None, 'the area is not reported')
    text = ' '.join(t.lines[k:k + 4])
    m2 = re.search('(%s)\\s*\\[m\\^2\\]' % NUM, text)
    ac = re.search('(%s)\\s*\\[acres\\]' % NUM, text)
    require(m2 and ac, 'the area is not reported in both units: %r', text)
    same_number(m2.group(1), want, 'area of the zone')
    require(abs(float(ac.group(1).replace(',', '')) - want/ACRE) <= ulp(ac.group(1)) + 1e-9*want, 'acres: the log says %s, the zone has %r', ac.group(1), want/ACRE)
    require(len(done) == 1 and done[0].params is not None, '%d zones registered', len(done))
    base, kk, pp, hh, wells, coef, xo, yo = done[0].params
    said = {}
    for l in t.lines[[i for i, l in enumerate(t.lines) if 'Deterministic Capture Zone' in l][-1]:]:
        m = re.match(r'\s*(\w+)\s*=\s*(%s)\s*$' % NUM, l)
        if m:
            said[m.group(1)] = m.group(2)
    for name, v in zip(('base', 'conductivity', 'porosity', 'recharge', 'A', 'B', 'C', 'D', 'E', 'F'), (base, kk, pp, -2*(coef[0] + coef[1])) + tuple(coef)):
        require(name in said, 'the log does not state the %s', name)
        same_number(said[name], v, name)
    require(len(plt.get_fignums()) == 1, '%d figures, expected the map of the zone', len(plt.get_fignums()))
    people(r, plt.gcf().axes[0])
    ob.count('recharge')
    ob.count('infiltration', coef[0] + coef[1] < 0)
    ob.count('coefficients', 6)
    ob.count('deterministic')
    ob.count('tiny_zones', 0 < want < 50)
    ob.show({'run': r.describe(), 'area': m2.group(1), 'cells': cells})
    ob.nontrivial(said.get('F'), m2.group(1))


KINDS = {'stochastic': (stochastic, 300, 1200), 'deterministic': (deterministic, 270, 1000)}
