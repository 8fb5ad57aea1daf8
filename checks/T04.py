"""Tracing always returns, with work in proportion to the length of the path."""
import math
import numpy as np
from oneka.capturezone import compute_backtrace
from fw import gen, paths
from fw.core import require, Violation, Finding

PROP = 'T04'
RULE = ('velocity evaluations and loop iterations of traces through ordinary fields, motionless and nearly motionless fields, '
        'stagnation points, undefined fields, fields with jumps, starts on or beside a well, extreme tolerances and steps; '
        'work is compared with that of a reference integrator with the same control. Distinct by field and evaluations.')
REQUIRE = {'ordinary': 200, 'still': 60, 'undefined': 60, 'rough': 60, 'evaluations': 50000}
FUEL = 3_000_000


class Counted:
    def __init__(self, f, cap):
        self.f, self.cap, self.calls = f, cap, 0

    def __call__(self, xy):
        self.calls += 1
        if self.calls > self.cap:
            raise Stop()
        with np.errstate(all='ignore'):
            return np.array(self.f(float(xy[0]), float(xy[1])))


class Stop(BaseException):
    pass


def run(ob, what, f, start, d, tol, ms, cap):
    g = Counted(f, cap)
    try:
        with np.errstate(all='ignore'):
            v = compute_backtrace(start[0], start[1], d, tol, ms, g)
    except Stop:
        raise Violation('%s: still tracing after %d velocity evaluations' % (what, cap))
    ob.count('evaluations', g.calls)
    return np.array([(float(a[0]), float(a[1])) for a in v]), g.calls


def ordinary(rng, ob, idx):
    F = paths.any_field(rng, gen.origin(rng))
    tol = gen.pick(rng, [1, .1, 1e-3, 1e-6, 1e3])
    ms = gen.pick(rng, [10, .3, 50.0, 3.7, 1e4])
    d = F.horizon*(1 if rng.random() < .7 else -.3)
    if F.name in ('outward', 'wells') and d < 0:
        d = -d
    ref, steps = paths.dopri(F.f, *F.start, d, tol, ms, cap=300000)
    p, n = run(ob, '%s field (the reference needs %d)' % (F.name, ref), F.f, F.start, d, tol, ms, 2*ref + 100)
    require(len(p) - 1 <= 2*steps + 20, '%s field: %d legs where the reference needs %d', F.name, len(p) - 1, steps)
    ob.count('ordinary')
    ob.show({'field': F.name, 'duration': d, 'tol': tol, 'maxstep': ms, 'evaluations': n, 'reference': ref})
    ob.nontrivial(F.name, n, p)


def still(rng, ob, idx):
    o = gen.origin(rng)
    s = gen.pick(rng, [0.0, 0.0, 1e-300, 1e-30, 1e-12, 1e-9])
    T = gen.pick(rng, [3652.5, 1.0, 1e6, .01, 1e12, 10])
    d = T if rng.random() < .5 else -T
    if rng.random() < .3:                                # a stagnation point of a linear field
        w = 1e-6
        f = lambda x, y: (w*(x - o[0]), -w*(y - o[1]))
        if T > 1e6:
            d = math.copysign(1e5, d)
        s = 0.0
    else:
        f = lambda x, y: (s, -s)
    tol, ms = gen.pick(rng, [1, 1e-3, 1e-6]), gen.pick(rng, [10, 1.0])
    p, n = run(ob, 'motionless field', f, o, d, tol, ms, 6*40 + 20*int(s*T/ms) + 200)
    err = np.hypot(*(p[-1] - np.array(o)))
    require(err <= 2*s*T + 1e-9, 'a motionless particle moved by %r', err)
    require(len(p) >= 2, 'no leg for a motionless particle')
    ob.count('still')
    ob.nontrivial('still', s, d, n)


def undefined(rng, ob, idx):
    o = gen.origin(rng)
    bad = gen.pick(rng, [np.nan, np.inf, -np.inf])
    m = int(rng.integers(3))
    if m == 0:
        f = lambda x, y: (bad, 0.0)
    elif m == 1:
        f = lambda x, y: (1.0, bad)
    else:                                                # starts on a well
        def f(x, y):
            r2 = np.float64((x - o[0])**2 + (y - o[1])**2)
            return (x - o[0])/r2, (y - o[1])/r2
    d = gen.pick(rng, [3652.5, -3652.5, .05])
    p, n = run(ob, 'undefined velocity %r' % bad, f, o, d, gen.pick(rng, [1, 1e-6]), gen.pick(rng, [10, .5]), 200)
    require(np.all(np.isfinite(p)) and len(p) <= 2, 'vertices where the velocity is undefined: %r', p)
    ob.count('undefined')
    ob.nontrivial('undefined', m, bad, d)


def rough(rng, ob, idx):
    """Velocities with jumps (the smooth error estimate does not hold there), overflowing and enormous fields."""
    o = gen.origin(rng)
    m = int(rng.integers(4))
    s = gen.logu(rng, 1e-2, 10)
    L = 300.0
    if m == 0:
        f = lambda x, y: (s if x < o[0] + 20 else 3*s, .2*s)
    elif m == 1:
        f = lambda x, y: (s, s*math.copysign(.5, math.sin((x - o[0])/9)))
    elif m == 2:
        f = lambda x, y: (s*1e8, 0.0)                     # the first step is enormous
        s = s*1e8
    else:
        f = lambda x, y: (s*(1 + .5*math.floor(((x - o[0])/13) % 3)), 0.0)
    d = L/s
    ms = gen.pick(rng, [10, 2.0])
    tol = gen.pick(rng, [1, .1, 1e-2])
    if m == 2:
        s /= 1e8
        f = lambda x, y: (s*1e8, 0.0)
    ref, steps = paths.dopri(f, *o, d, tol, ms, cap=200000)
    p, n = run(ob, 'jumps (the reference needs %d)' % ref, f, o, d, tol, ms, 3*ref + 400)
    ob.count('rough')
    ob.nontrivial('rough', m, s, n)


def sink(rng, ob, idx):
    """A trace that runs into a well (a singular point of the field) should end too."""
    o = gen.origin(rng)
    a = gen.logu(rng, .5, 20)
    r = float(rng.uniform(5, 40))
    t = rng.uniform(0, 6.3)

    def f(x, y):
        ex, ey = x - o[0], y - o[1]
        r2 = np.float64(ex*ex + ey*ey)
        return -a*ex/r2, -a*ey/r2
    d = gen.pick(rng, [2, 20])*r*r/2/a
    tol = gen.pick(rng, [.1, 1e-3, 1e-5])
    try:
        run(ob, 'field converging on a well', f, (o[0] + r*math.cos(t), o[1] + r*math.sin(t)), d, tol, 10, 60000)
    except Violation as e:
        raise Finding('trace-into-a-well', str(e))
    ob.count('sink_ended')
    ob.nontrivial('sink', r, d)


KINDS = {'sink': (sink, 6, 40), 'ordinary': (ordinary, 640, 8000), 'still': (still, 240, 2000), 'undefined': (undefined, 240, 1000), 'rough': (rough, 240, 3000)}
