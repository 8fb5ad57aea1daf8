"""Whole runs: scratch working directories, captured log messages, drawn artists, small but complete configurations."""
import contextlib
import logging
import os
import shutil
import tempfile

import matplotlib
matplotlib.use('Agg')
import matplotlib.axes                                              # noqa: E402
import matplotlib.pyplot as plt                                     # noqa: E402
import numpy as np                                                  # noqa: E402

import oneka.oneka                                                  # noqa: E402
from fw import gen                                                  # noqa: E402
from fw.zone import Driver                                          # noqa: E402


@contextlib.contextmanager
def scratch():
    """A working directory of one's own (runs write their archive and log into the current one)."""
    here = os.getcwd()
    d = tempfile.mkdtemp(prefix='verif-run-')
    os.mkdir(os.path.join(d, 'logs'))
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def files(d, suffix=''):
    """{relative path: content} of every file below d."""
    out = {}
    for base, _, names in os.walk(d):
        for n in names:
            if n.endswith(suffix):
                p = os.path.join(base, n)
                with open(p, 'rb') as f:
                    out[os.path.relpath(p, d)] = f.read()
    return out


class Tape(logging.Handler):
    """Records what a logger was told."""

    def __init__(self, name='Oneka'):
        super().__init__(logging.INFO)                       # what the log file of a run admits
        self.lines = []
        self.logger = logging.getLogger(name)

    def emit(self, record):
        self.lines += record.getMessage().split('\n')

    def __enter__(self):
        self.level0 = self.logger.level
        self.logger.setLevel(logging.INFO)
        self.logger.addHandler(self)
        return self

    def __exit__(self, *a):
        self.logger.removeHandler(self)
        self.logger.setLevel(self.level0)


class Contours:
    """Records (axes, X, Y, Z, levels) of every contour drawn while it is open."""

    def __enter__(self):
        self.filled, self.lines = [], []
        self.saved = []
        for name, store in (('contourf', self.filled), ('contour', self.lines)):
            f = matplotlib.axes.Axes.__dict__[name]
            self.saved.append((name, f))

            def g(ax, *a, _f=f, _s=store, **k):
                cs = _f(ax, *a, **k)
                a = [x for x in a if not isinstance(x, str)]
                if len(a) >= 3:
                    Z = np.array(np.ma.filled(np.ma.asarray(a[2], dtype=float), np.nan))
                    X, Y = np.asarray(a[0], dtype=float), np.asarray(a[1], dtype=float)
                    if X.ndim == 1:
                        X, Y = np.meshgrid(X, Y)
                    _s.append((ax, X, Y, Z, np.asarray(cs.levels, dtype=float)))
                else:
                    Z = np.asarray(a[0], dtype=float)
                    Y, X = np.mgrid[0:Z.shape[0], 0:Z.shape[1]].astype(float)
                    _s.append((ax, X, Y, Z, np.asarray(cs.levels, dtype=float)))
                return cs
            setattr(matplotlib.axes.Axes, name, g)
        return self

    def __exit__(self, *a):
        for name, f in self.saved:
            setattr(matplotlib.axes.Axes, name, f)


def markers(ax):
    """[(marker, {(x, y), ...})] of the marker-only lines of an axes."""
    out = []
    for ln in ax.lines:
        x, y = np.asarray(ln.get_xdata(orig=True), dtype=float).ravel(), np.asarray(ln.get_ydata(orig=True), dtype=float).ravel()
        out.append((ln.get_marker(), sorted(zip(x.tolist(), y.tolist()))))
    for c in ax.collections:                                 # drawn by scatter instead of plot
        if type(c).__name__ == 'PathCollection':
            out.append(('?', sorted((float(x), float(y)) for x, y in np.asarray(c.get_offsets()))))
    return out


# ------------------------------------------------------------------------------
class Run:
    """A complete, quick configuration of the program."""

    NAMES = ('projectname', 'runtime', 'target', 'npaths', 'duration', 'nrealizations', 'base', 'c_dist', 'p_dist', 't_dist',
             'stochastic_wells', 'observations', 'buffer', 'spacing', 'umbra', 'smooth', 'confined', 'tol', 'maxstep')

    def __init__(self, rng, stochastic=None, extra=True, L=None, frac=None):
        if L is None and frac is None and rng.random() < .04:    # observations from a whole region
            L = gen.pick(rng, [1e4, 2.5e5])
            frac = 50/L
        sc = gen.Scenario(rng, L=L or gen.pick(rng, [300.0, 500.0]), nobs=gen.pick(rng, [9, 12, 20]), noise=.05, confined=rng.random() < .7,
                          std=gen.pick(rng, [None, .05, .2, .5]))
        d = Driver(rng, sc, rng.random() < .6, fine=False, npaths=gen.pick(rng, [1, 2, 4]), spacing=gen.pick(rng, [5, 10.0, 12.5]),
                   frac=frac or .12)
        if stochastic is None:
            stochastic = rng.random() < .5
        self.sc, self.d = sc, d
        obs = list(d.obs)
        if extra:
            # records the program has to deal with: near a well, co-located
            for _ in range(int(rng.integers(0, 3))):
                w = d.wells[int(rng.integers(len(d.wells)))]
                t = float(rng.uniform(0, 6.28))
                obs.insert(int(rng.integers(len(obs) + 1)), (w[0] + 8*float(np.cos(t)), w[1] + 8*float(np.sin(t)), sc.base + 3.0, 1.0))
            for _ in range(int(rng.integers(0, 3))):
                o = d.obs[int(rng.integers(len(d.obs)))]
                obs.insert(int(rng.integers(len(obs) + 1)), (o[0] + .2, o[1], o[2] + .05, o[3]*1.5))
        self.a = {
            'projectname': gen.pick(rng, ['p', 'Basic example', 'Ünïcode – 試験', '', '  two  words ', 'tab\there', 'a/b: c?', 'UPPER lower'*9, '50% case %s', '{0} {x}', 'a\\nb']),
            'runtime': gen.pick(rng, ['Sat Jul 25 10:00:00 2020', 'now', '', ' 2020-11-19 ']),
            'target': d.target, 'npaths': d.npaths, 'duration': d.duration,
            'nrealizations': gen.pick(rng, [2, 3, 5, 8]) if stochastic else 1,
            'base': d.base, 'c_dist': d.c, 'p_dist': d.p, 't_dist': d.t,
            'stochastic_wells': d.wells, 'observations': obs,
            'buffer': gen.pick(rng, [10, 15.5, 25]), 'spacing': d.spacing, 'umbra': d.umbra, 'smooth': gen.pick(rng, [0, 0, 1, 1.5, 4]),
            'confined': d.confined, 'tol': d.tol, 'maxstep': gen.pick(rng, [10, 20.0])}
        if rng.random() < .15:                               # unusual, but allowed
            self.a['tol'], self.a['maxstep'] = gen.pick(rng, [(8, 6), (25.0, 4.0), (50, 12.5)])
        if rng.random() < .06:                               # a narrow umbra, or a coarse grid over much ground
            if rng.random() < .5:
                self.a['umbra'] = self.a['spacing']*gen.pick(rng, [.3, .45])
            else:
                self.a['spacing'], self.a['umbra'] = gen.pick(rng, [(90.5, 750.0), (53.3, 640.0)])
        self.stochastic = stochastic
        if rng.random() < .06:                               # many wells, small and out of the way
            near = [tuple(q[:2]) for q in obs] + [tuple(w[:2]) for w in d.wells]
            while len(d.wells) < 25:
                x, y = sc.o[0] + float(rng.uniform(-1.3, 1.3))*sc.L, sc.o[1] + float(rng.uniform(-1.3, 1.3))*sc.L
                if all(abs(x - a) + abs(y - b) > 40 for a, b in near):
                    d.wells.append((x, y, .25, gen.pick(rng, [0.5, (0.5, 1.0), [0.2, 0.3, 1.0]])))
                    d.mean_wells.append((x, y, .25, {0: .5, 2: .75, 3: .5}[len(d.wells[-1][3]) if not isinstance(d.wells[-1][3], float) else 0]))
            self.a['duration'] *= .3
        elif stochastic and rng.random() < .08:
            self.a['nrealizations'], self.a['npaths'] = gen.pick(rng, [12, 25]), 1
            self.a['duration'] *= .4

    def args(self, **k):
        a = dict(self.a, **k)
        return [a[n] for n in self.NAMES]

    def go(self, **k):
        """Run the program; returns the field it returns."""
        return oneka.oneka.oneka(*self.args(**k))

    def describe(self):
        r = self.d.describe()
        r.update(nrealizations=self.a['nrealizations'], smooth=self.a['smooth'], buffer=self.a['buffer'])
        return r


def same(a, b):
    """Deep equality that also distinguishes types of containers and numbers."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and bool(np.array_equal(a, b))
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


FIELD = ('deltax', 'deltay', 'nrows', 'ncols', 'xmin', 'xmax', 'ymin', 'ymax', 'total_weight', 'pgrid', 'rgrid')


def same_field(a, b):
    """The names in which two fields differ."""
    return [n for n in FIELD if not np.array_equal(np.asarray(getattr(a, n)), np.asarray(getattr(b, n)))]
