"""A velocity failure at any point of a trace leaves exactly the part already traced, is reported, and never spoils the caller."""
import contextlib
import logging
import math
import numpy as np
from oneka.capturezone import compute_backtrace
from oneka.model import AquiferError
from fw import gen, paths
from fw.core import require, Inconclusive

PROP = 'T03'
LEVEL = 'fault_enumeration'
RULE = ('a fault-free trace is recorded, then repeated with a fault (dry-aquifer error, other numeric errors, undefined '
        'velocity, interrupt) injected at every velocity evaluation in turn (all of them); '
        'also traces running into dry regions. Distinct by fault-free vertices and fault kind.')
REQUIRE = {'faults': 6000, 'prefixes_shortened': 6000, 'warnings': 6000, 'interrupts': 400, 'undefined': 800, 'regions': 100,
           'fault_at_first_evaluation': 60, 'fault_free_silent': 60, 'unimpeded': 180, 'fast_starts': 40, 'other_errors': 1000}


class Records(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.got = []

    def emit(self, r):
        self.got.append(r)


@contextlib.contextmanager
def listening():
    h = Records()
    root = logging.getLogger()
    root.addHandler(h)
    try:
        yield h.got
    finally:
        root.removeHandler(h)


class Unheard(Exception):
    pass


OTHERS = {e.__name__: e for e in (RuntimeError, OSError, AssertionError, StopIteration, KeyError, IndexError, OverflowError, FloatingPointError,
                                  MemoryError, RecursionError, TypeError, AttributeError, np.linalg.LinAlgError, Unheard, Exception)}


class Faulty:
    def __init__(self, f, at, kind):
        self.f, self.at, self.kind, self.calls, self.fired = f, at, kind, 0, False

    def __call__(self, xy):
        self.calls += 1
        if self.calls == self.at or self.fired:
            self.fired = True
            k = self.kind
            if k == 'dry':
                raise AquiferError('The aquifer is dry.')
            if k == 'zero':
                raise ZeroDivisionError('division by zero')
            if k == 'value':
                raise ValueError('math domain error')
            if k == 'interrupt':
                raise KeyboardInterrupt()
            if k == 'exit':
                raise SystemExit(3)
            if k in OTHERS:
                raise OTHERS[k]
            u, v = self.f(float(xy[0]), float(xy[1]))
            return {'nan': np.array([np.nan, np.nan]), 'nanx': np.array([np.nan, v]), 'inf': np.array([u, np.inf]),
                    '-inf': np.array([-np.inf, v])}[k]
        u, v = self.f(float(xy[0]), float(xy[1]))
        return np.array([u, v])


STOPS = ['dry', 'dry', 'zero', 'value', 'nan', 'nanx', 'inf', '-inf']*4 + list(OTHERS)


def key(v):
    return [(float(a[0]), float(a[1])) for a in v]


def every(rng, ob, idx):
    o = gen.origin(rng)
    F = paths.any_field(rng, o)
    tol, ms = gen.pick(rng, [1, .1, 1e-3]), gen.pick(rng, [10, 50.0, 3.7])
    T = F.horizon*gen.pick(rng, [1, .4, .1])
    xs, ys = F.start
    back = rng.random() < .25 and F.name not in ('outward', 'wells')
    while paths.dopri(F.f, xs, ys, -T if back else T, tol, ms, cap=400)[0] > 330:
        T *= .6
    d = -T if back else T
    with listening() as said:
        full = key(compute_backtrace(xs, ys, d, tol, ms, F))
    require(not said, '%s: a complete trace warned %r', F.name, said and said[0].getMessage())
    ob.count('fault_free_silent')
    n = F.calls
    seen = {}                               # the last evaluation at each place
    for i, w in enumerate(F.where):
        seen[w] = i + 1
    at = list(range(1, n + 1)) if n <= 1000 else sorted({1, n, *[int(i) + 1 for i in rng.choice(n, 300, replace=False)]})
    k0 = gen.pick(rng, STOPS)
    last = 0
    for k in at:
        kind = k0 if rng.random() < .6 else gen.pick(rng, STOPS)
        g = Faulty(F.f, k, kind)
        with listening() as said:
            with np.errstate(all='ignore'):
                got = key(compute_backtrace(xs, ys, d, tol, ms, g))
        if not g.fired:
            raise Inconclusive('the fault at evaluation %d was never reached' % k)
        what = '%s field, %s at evaluation %d of %d' % (F.name, kind, k, n)
        require(len(got) >= 1 and got == full[:len(got)], '%s: the trace returned is not the beginning of the fault-free trace', what)
        # all vertices reached before the fault are kept
        must = [i for i, w in enumerate(full) if seen.get(w, n + 1) < k]
        must = (max(must) + 1) if must else 1
        require(len(got) >= must, '%s: %d vertices were reached before the fault, %d are returned', what, must, len(got))
        require(len(got) >= last, '%s: a later fault leaves a shorter trace', what)
        last = len(got)
        require(len(got) < len(full) or k == n, '%s: the trace ignored the fault', what)
        require(said, '%s: the early end was not reported', what)
        require(g.calls - k <= 60, '%s: %d evaluations after the failure', what, g.calls - k)
        ob.count('faults')
        ob.count('prefixes_shortened', len(got) < len(full))
        ob.count('warnings', len(said))
        ob.count('undefined', kind in ('nan', 'nanx', 'inf', '-inf'))
        ob.count('other_errors', kind in OTHERS)
        ob.count('fault_at_first_evaluation', k == 1)
    # an interrupt is for the user, not for the trace
    for k in sorted({1, n, *[int(i) for i in rng.integers(1, n + 1, size=6)]}):
        kind, ex = gen.pick(rng, [('interrupt', KeyboardInterrupt), ('exit', SystemExit)])
        g = Faulty(F.f, k, kind)
        try:
            compute_backtrace(xs, ys, d, tol, ms, g)
        except ex:
            ob.count('interrupts')
        else:
            require(False, '%s field: an interrupt at evaluation %d of %d was swallowed', F.name, k, n)
    ob.show({'field': F.name, 'start': F.start, 'duration': d, 'tol': tol, 'maxstep': ms, 'evaluations': n, 'faults': len(at)})
    ob.nontrivial(np.array(full), k0)


def regions(rng, ob, idx):
    """The velocity is undefined beyond a line: the trace stops on this side of it, after a true beginning."""
    o = gen.origin(rng)
    F = paths.any_field(rng, o)
    tol, ms = gen.pick(rng, [1, .1, 1e-3]), gen.pick(rng, [10, 5.0, 2])
    T = F.horizon
    xs, ys = F.start
    full = key(compute_backtrace(xs, ys, T, tol, ms, F))
    j = int(rng.integers(1, len(full)))
    t = math.atan2(full[j][1] - ys, full[j][0] - xs) + rng.uniform(-1, 1)
    c, s = math.cos(t), math.sin(t)
    lim = float(rng.uniform(.2, 1))*((full[j][0] - xs)*c + (full[j][1] - ys)*s)
    bad = lambda x, y: (x - xs)*c + (y - ys)*s > lim
    kind = gen.pick(rng, ['dry', 'nan'])

    def f(xy):
        if bad(xy[0], xy[1]):
            if kind == 'dry':
                raise AquiferError('The aquifer is dry.')
            return np.array([np.nan, np.nan])
        return np.array(F.f(float(xy[0]), float(xy[1])))
    with listening() as said:
        got = key(compute_backtrace(xs, ys, T, tol, ms, f))
    require(len(got) >= 1 and got == full[:len(got)], '%s field: the trace before a dry region is not the beginning of the unobstructed one', F.name)
    require(not any(bad(*p) for p in got), '%s field: the trace has a vertex where the velocity is undefined', F.name)
    hit = next((i for i, p in enumerate(full) if bad(*p)), None)
    if hit is not None:
        require(said, '%s field: the trace ended at a dry region without a report', F.name)
        require(len(got) <= hit, '%s field: the trace passed through the dry region', F.name)
        ob.count('regions')
    elif len(got) < len(full):
        require(said, '%s field: the trace ended early without a report', F.name)
    ob.nontrivial(np.array(got), kind, lim)


def clear(rng, ob, idx):
    """Undefined ground that the path does not come near does not cut it short, however fast the flow."""
    o = gen.origin(rng)
    F = paths.any_field(rng, o, (paths.linear, paths.radial, paths.radial, paths.wells))
    S = gen.pick(rng, [1, 30.0, 365.25, 1e4])
    tol, ms = gen.pick(rng, [1, .1, 1e-3]), gen.pick(rng, [10, 5.0, 2])
    T = F.horizon/S
    xs, ys = F.start
    fast = lambda xy: np.array([S*v for v in F.f(float(xy[0]), float(xy[1]))])
    full = key(compute_backtrace(xs, ys, T, tol, ms, fast))
    p = np.array(full)
    t = math.atan2(p[-1][1] - ys, p[-1][0] - xs) + rng.normal()*.7
    c, s = math.cos(t), math.sin(t)
    lim = ((p - p[0]) @ np.array([c, s])).max() + 6*ms

    def f(xy):
        if (xy[0] - xs)*c + (xy[1] - ys)*s > lim:
            raise AquiferError('The aquifer is dry.')
        return fast(xy)
    got = key(compute_backtrace(xs, ys, T, tol, ms, f))
    require(got == full, '%s field, speed x%r: dry ground %r beyond the path leaves %d of its %d vertices', F.name, S, 6*ms, len(got), len(full))
    ob.count('unimpeded')
    ob.count('fast_starts', S*math.hypot(*F.f(xs, ys))*.1 > 6*ms)
    ob.nontrivial('clear', p, lim)


KINDS = {'every': (every, 240, 3000), 'regions': (regions, 400, 6000), 'clear': (clear, 400, 5000)}
