"""A run that breaks a documented requirement is refused before it starts; one that meets them all is carried out."""
import math
import matplotlib.pyplot as plt
import numpy as np
import oneka.model
import oneka.oneka
from oneka.probabilityfield import ProbabilityField
from fw import gen
from fw.core import Violation, require
from fw.runs import Run, files, scratch

PROP = 'O01'
FUEL = 3_000_000
RULE = ('complete configurations with one requirement broken (wrong type, out of range, malformed distribution, well or '
        'observation record, too few observations before or after filtering), and configurations at the edge of what is '
        'allowed; monitors count velocity evaluations, registrations, figures and files. Distinct by argument and value.')
REQUIRE = {'refused': 250, 'accepted': 60, 'too_few': 15, 'too_few_after_filtering': 15, 'velocity_evaluations': 20000, 'shipped': 4}


class Watch:
    """Counts what a run computed."""

    def __enter__(self):
        self.n = {'velocity': 0, 'register': 0}
        M = oneka.model.Model
        self.saved = [(M, n, M.__dict__[n], 'velocity') for n in ('compute_velocity', 'compute_velocity_confined', 'fit_regional_flow')]
        self.saved.append((ProbabilityField, 'register', ProbabilityField.__dict__['register'], 'register'))
        for c, n, f, what in self.saved:
            def g(*a, _f=f, _w=what, **k):
                self.n[_w] += 1
                return _f(*a, **k)
            setattr(c, n, g)
        return self

    def __exit__(self, *a):
        for c, n, f, _ in self.saved:
            setattr(c, n, f)


NOT_A_NUMBER = ['1', None, [1.0], (1.0,), 1j]


def bad_distribution(rng, lo, hi):
    """A distribution argument outside [lo, hi] or malformed."""
    mid = (.5 if hi == 1 else 20.0)
    c = ['x', None, (), (mid,), [], (mid, mid*1.1, mid*1.2, mid*1.3), {'min': 1}, (mid*1.2, mid), (mid, mid*1.4, mid*1.2), (mid*1.3, mid, mid*1.4),
         [mid*1.2, mid], (mid*1.4, mid*1.2, mid), math.nan, (mid, math.nan), (mid, math.nan, mid*1.1)]
    if lo == 0:
        c += [-mid, (-mid, mid), (-1e-9, mid), [-mid, mid, mid*1.1], (-mid, -mid/2, -mid/4), -1]
    if hi == 1:
        c += [1.5, (mid, 1.01), (mid, mid, 1 + 1e-9), 2, [.2, 1.2]]
    return gen.pick(rng, c)


def long_list(rng, records, n):
    """The records and many more."""
    more = [(*(v + 37.0*(i + 1) for v in records[i % len(records)][:2]), *records[i % len(records)][2:]) for i in range(n)]
    return list(records) + more


def broken(rng, r):
    """(argument, its broken value)"""
    w, o = r.a['stochastic_wells'], r.a['observations']
    nw = len(w)
    pos = [0, 0.0, -1, -.5, '1', None, (1,), [2.0], math.nan]
    what = gen.pick(rng, ['projectname', 'runtime', 'target', 'npaths', 'duration', 'base', 'c_dist', 'p_dist', 't_dist', 'stochastic_wells', 'well',
                          'observations', 'observation', 'buffer', 'spacing', 'umbra', 'smooth', 'confined', 'tol', 'maxstep'])
    if what in ('projectname', 'runtime'):
        v = gen.pick(rng, [None, 3, ['a'], b'a', 2.5])
    elif what == 'target':
        v = gen.pick(rng, [-1, nw, nw + 3, 1.5, 0.0, '0', None, -nw])
    elif what == 'npaths':
        v = gen.pick(rng, [0, -1, 2.5, 3.0, '4', None, (4,)])
    elif what == 'duration':
        v = gen.pick(rng, [0, 0.0, '10', None, (1.0,), [100.0]])
    elif what == 'base':
        v = gen.pick(rng, NOT_A_NUMBER)
    elif what in ('c_dist', 't_dist'):
        v = bad_distribution(rng, 0, np.inf)
    elif what == 'p_dist':
        v = bad_distribution(rng, 0, 1)
    elif what == 'stochastic_wells':
        v = gen.pick(rng, [tuple(w), [], None, {0: w[0]}])
    elif what == 'well':
        if rng.random() < .2:
            w = long_list(rng, w, gen.pick(rng, [30, 130]))
            nw = len(w)
        i = int(rng.integers(nw))
        x = list(w[i])
        k = int(rng.integers(6))
        if k < 2:
            x[k] = gen.pick(rng, ['0', None, (1.0,)])
        elif k == 2:
            x[2] = gen.pick(rng, pos)
        elif k == 3:
            x[3] = gen.pick(rng, ['x', None, (5.0, 1.0), (1.0,), (1.0, 3.0, 2.0), (3.0, 1.0, 4.0), (1.0, 2.0, 3.0, 4.0), []])
        elif k == 4:
            x = x[:3]
        else:
            x = x + [1.0]
        what, v = 'stochastic_wells', [tuple(x) if j == i else y for j, y in enumerate(w)]
    elif what == 'observations':
        v = gen.pick(rng, [tuple(o), [], None])
    elif what == 'observation':
        if rng.random() < .2:
            o = long_list(rng, o, gen.pick(rng, [60, 300, 1100]))
        i = int(rng.integers(len(o)))
        x = list(o[i])
        k = int(rng.integers(6))
        if k < 3:
            x[k] = gen.pick(rng, ['0', None, (1.0,)])
        elif k == 3:
            x[3] = gen.pick(rng, pos)
        elif k == 4:
            x = x[:3]
        else:
            x = x + [1.0]
        what, v = 'observations', [tuple(x) if j == i else y for j, y in enumerate(o)]
    elif what == 'smooth':
        v = gen.pick(rng, [-1, -.5, '1', None, (1,), math.nan])
    elif what == 'confined':
        v = gen.pick(rng, [None, 'True', 2.0, 'yes', [True], 0, 1, 1.0, 2, -1])
    else:
        v = gen.pick(rng, pos)
    return what, v


def refuse(ob, r, what, **k):
    plt.close('all')
    with scratch() as d, Watch() as w:
        try:
            r.go(**k)
        except Exception as e:
            why = type(e).__name__
        else:
            raise Violation('the run was carried out with %s = %r' % (what, k))
        require(w.n['velocity'] == 0 and w.n['register'] == 0, '%s = %r was refused (%s) only after computing (%r)', what, k, why, w.n)
        require(not plt.get_fignums(), '%s = %r was refused only after plotting', what, k)
        require(not files(d), '%s = %r was refused, but files were written: %r', what, k, sorted(files(d)))
    ob.count('refused')
    ob.count('because_' + what)


def invalid(rng, ob, idx):
    r = Run(rng)
    for _ in range(8):
        what, v = broken(rng, r)
        refuse(ob, r, what, **{what: v})
    ob.show({'refused': what, 'value': repr(v)})
    ob.nontrivial(what, repr(v))


def few(rng, ob, idx):
    """Six observations, or six left after filtering, are not enough; seven are."""
    r = Run(rng, extra=False)
    o = list(r.d.obs)
    n = int(rng.integers(0, 7))
    k = [o[int(i)] for i in rng.permutation(len(o))[:n]]
    refuse(ob, r, 'observations', observations=k)
    ob.count('too_few')
    # plenty of records, but too few remain
    k = list(k)
    w = r.a['stochastic_wells']
    while len(k) < 12:
        if k and rng.random() < .5:
            b = gen.pick(rng, k)
            k.insert(int(rng.integers(len(k) + 1)), (b[0], b[1], b[2], b[3]*1.1))
        else:
            p, t = gen.pick(rng, w), float(rng.uniform(0, 6.28))
            k.insert(0, (p[0] + 2*math.cos(t), p[1] + 2*math.sin(t), r.sc.base + 5.0, 1.0))
    refuse(ob, r, 'observations', observations=k)
    ob.count('too_few_after_filtering')
    ob.nontrivial('few', n, len(k))


def carried_out(ob, r, **k):
    plt.close('all')
    n = k.get('nrealizations', r.a['nrealizations'])
    with scratch() as d, Watch() as w:
        try:
            pf = r.go(**k)
        except AssertionError as e:
            raise Violation('a valid run was refused with %r: %r (%s)' % (k, e, r.describe()))
        require(pf is not None, 'the run returned no capture zone')
        require(w.n['register'] == max(1, n), '%d realizations registered, %d requested', w.n['register'], max(1, n))
        require(abs(pf.total_weight - max(1, n)) < 1e-9 and ((pf.pgrid > 0).any() or not r.a['confined'] or 'umbra' in k), 'the returned field is empty')
        require(len(plt.get_fignums()) >= 1, 'nothing was plotted')
        require(len(files(d, '.bz2')) == 1, 'the run was not archived')
        ob.count('velocity_evaluations', w.n['velocity'])
    ob.count('accepted')


def crowded(r):
    """Three hundred observations, all out of the way of the wells."""
    xt, yt = r.sc.xt, r.sc.yt
    out = []
    for i in range(18):
        for j in range(18):
            x, y = xt + 60.0*(i - 8.5), yt + 60.0*(j - 8.5)
            if all(math.hypot(x - w[0], y - w[1]) > 35 for w in r.a['stochastic_wells']):
                out.append((x, y, r.sc.base + 60.0 + (i + j) % 2, 1.0))
    return out


def valid(rng, ob, idx):
    r = Run(rng)
    a = r.a
    k = {}
    how = idx % 14
    if how == 0:
        k['smooth'] = gen.pick(rng, [0, 0.0])
    elif how == 1:
        k = {n: list(v) if isinstance(v, tuple) else v for n, v in a.items() if n in ('c_dist', 'p_dist', 't_dist')}
        k['stochastic_wells'] = [list(w[:3]) + [list(w[3]) if isinstance(w[3], tuple) else w[3]] for w in a['stochastic_wells']]
        k['observations'] = [list(o) for o in a['observations']]
    elif how == 2:
        # tracing forward: the other way around a pumping well every path would run into it
        k['stochastic_wells'] = [(w[0], w[1], w[2], -r.d.mean_wells[i][3]) for i, w in enumerate(a['stochastic_wells'])]
        k['duration'] = -a['duration']
        k['nrealizations'] = 1
    elif how == 3:
        # exactly seven
        s = a['spacing']
        xt, yt = r.sc.xt, r.sc.yt
        t0 = float(rng.uniform(0, 6.28))
        k['observations'] = [(xt + 150*math.cos(t0 + i*.9)*(1 + .4*(i % 3)), yt + 150*math.sin(t0 + i*.9)*(1 + .4*(i % 3)), r.sc.base + 60.0 + i % 2, 1.0)
                             for i in range(7)]
        k['stochastic_wells'] = [a['stochastic_wells'][a['target']]]
        k['target'] = 0
        k['duration'] = a['duration']*.3
        k['nrealizations'] = 1
    elif how == 4:
        k = {n: (m, m) for n, m in (('c_dist', r.d.cm), ('p_dist', r.d.pm), ('t_dist', r.d.tm))}
        k = {n: gen.pick(rng, [v, (v[0],)*3, list(v), [v[0]]*3]) for n, v in k.items()}
        k['nrealizations'] = 2
    elif how == 5:
        k = {'npaths': 1, 'target': len(a['stochastic_wells']) - 1, 'nrealizations': 1, 'duration': a['duration']*.3}
    elif how == 6:
        k = {'projectname': '', 'runtime': '', 'duration': max(1, int(a['duration'])), 'buffer': 1, 'spacing': 8, 'umbra': 8, 'tol': 1, 'maxstep': 10}
        k['observations'] = list(r.d.obs)
    elif how == 7:
        k = {'c_dist': max(1, int(round(r.d.cm))), 't_dist': max(1, int(round(r.d.tm))), 'nrealizations': 2}
    elif how == 8:
        # an idle well, an injection well and a range that spans both
        xt, yt = r.sc.xt, r.sc.yt
        k['stochastic_wells'] = list(a['stochastic_wells']) + [(xt + 280.0, yt - 260.0, 1, 0), (xt - 300.0, yt + 255.0, .3, (-5.0, 5.0))]
    elif how == 9:
        k = {'p_dist': gen.pick(rng, [1, 1.0, (.5, 1.0), (.9, 1, 1)]), 'nrealizations': 2}
    elif how == 10 and rng.random() < .5:
        # a narrow umbra marks few nodes, if any; it is allowed all the same
        k = {'umbra': a['spacing']*float(rng.uniform(.05, .6)), 'smooth': 1}
    elif how == 10:
        k = {'smooth': 12.5, 'nrealizations': 2, 'umbra': 3*a['spacing']}
    elif how == 12:
        # no upper limits
        k = gen.pick(rng, [{'projectname': 'A long name '*400, 'runtime': 'then '*300}, {'npaths': gen.pick(rng, [1001, 1500]), 'nrealizations': 1, 'duration': a['duration']*.002},
                           {'nrealizations': gen.pick(rng, [101, 260]), 'npaths': 1, 'duration': a['duration']*.002}, {'smooth': 300, 'nrealizations': 2},
                           {'maxstep': 1e6}, {'buffer': 31, 'observations': crowded(r)}, {'tol': 30.0}, {'tol': 1e4, 'maxstep': 4}, {'duration': 1e-3},
                           {'observations': [(b[0], b[1], b[2], float(b[3])*f) for b, f in zip(a['observations'], [300.0, 1000, 1e-4]*500)]},
                           {'observations': [tuple(b[:3]) + (gen.pick(rng, [50.0, 200, 1e4]),) for b in a['observations']]},
                           {'stochastic_wells': [tuple(w[:2]) + (gen.pick(rng, [12, 60.0, 1e-3]),) + tuple(w[3:]) if i != a['target'] else w for i, w in enumerate(a['stochastic_wells'])]}])
    elif how == 13:
        # no limits but the stated ones
        d = r.d
        k = gen.pick(rng, [{'t_dist': gen.pick(rng, [600.0, 5000.0, (700, 900.0), 1e-3])}, {'c_dist': gen.pick(rng, [1e-9, 5e3, (100.0, 4000.0, 1e5)])},
                           {'p_dist': gen.pick(rng, [1e-6, (1e-4, 1.0), .999])}, {'base': gen.pick(rng, [-9000, 9000.0, -450.5])},
                           {'spacing': 400.0, 'umbra': 900}, {'smooth': .01}, {'maxstep': .25, 'duration': a['duration']*.01}, {'tol': 1e-9, 'duration': a['duration']*.05},
                           {'buffer': 1e-6, 'observations': list(d.obs)}, {'duration': 1e-6}, {'base': int(a['base'])},
                           {'stochastic_wells': [(w[0], w[1], w[2], 1e-4) for w in a['stochastic_wells']], 'duration': 5.0},
                           {'stochastic_wells': [(w[0], w[1], w[2], 9e4) for w in a['stochastic_wells']], 'duration': 1e-3}])
        if 'base' in k:
            k['observations'] = [(*q[:2], q[2] - a['base'] + k['base'] + 1e-6, q[3]) for q in a['observations']]
        k['nrealizations'] = gen.pick(rng, [1, 2])
        k.setdefault('duration', 1e-3)
        ob.count('extremes')
    if how in (6, 8):
        # reaching or injecting wells near the paths are somebody else's subject
        k['duration'] = max(1, int(a['duration']*.3)) if how == 6 else a['duration']*.3
    carried_out(ob, r, **k)
    ob.show({'run': r.describe(), 'changed': repr(k)[:300]})
    ob.nontrivial(how, repr(sorted(k)), a['duration'])


def shipped(rng, ob, idx):
    """The example problems that come with the program meet its own requirements."""
    import importlib
    name = ['basic', 'basic_deterministic', 'carlos', 'barnesville', 'long_prairie', 'paynesville', 'perham'][idx]
    m = importlib.import_module('data.' + name)
    with scratch() as d, Watch() as w:
        pf = oneka.oneka.oneka(
            m.PROJECTNAME, 'now', m.TARGET, 2, m.DURATION/20, min(2, m.NREALIZATIONS), m.BASE, m.C_DIST, m.P_DIST, m.T_DIST,
            m.WELLS, m.OBSERVATIONS, m.BUFFER, m.SPACING, m.UMBRA, m.SMOOTH, m.CONFINED, m.TOL, m.MAXSTEP)
        require(pf is not None and w.n['register'] == min(2, m.NREALIZATIONS), 'the shipped problem %s was not carried out', name)
        require(len(files(d, '.bz2')) == 1, 'the shipped problem %s was not archived', name)
    ob.count('shipped')
    ob.nontrivial(name)


KINDS = {'invalid': (invalid, 200, 2000), 'few': (few, 60, 500), 'valid': (valid, 300, 1800), 'shipped': (shipped, 7, 7)}
