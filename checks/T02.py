"""A trace starts where it was asked to, steps at most the given distance, and covers exactly the duration, in its direction."""
import math
import numpy as np
from oneka.capturezone import compute_backtrace
from fw import gen, paths
from fw.core import require

PROP = 'T02'
RULE = ('traces in uniform fields (exact duration and direction, including durations shorter than the first internal step and '
        'durations of one ulp above a step), and in all other fields (start vertex, step lengths, reversed field with reversed '
        'duration gives the same trace). Distinct by vertices.')
REQUIRE = {'uniform': 250, 'large_limits': 20, 'short': 40, 'negative': 80, 'steps': 10000, 'mirror': 150, 'single_leg': 20, 'truncated': 60, 'long': 2, 'late_surges': 2, 'remnants': 150, 'surges': 100, 'diagonal_surges': 50}


def check_steps(ob, v, xs, ys, ms, what):
    require(len(v) >= 1 and float(v[0][0]) == xs and float(v[0][1]) == ys, '%s: starts at %r, not at %r', what, v[0], (xs, ys))
    p = np.array([(float(a[0]), float(a[1])) for a in v])
    require(np.all(np.isfinite(p)), '%s: vertices are not finite', what)
    if len(p) > 1:
        ds = np.hypot(*(p[1:] - p[:-1]).T)
        lim = ms*(1 + 1e-9) + 1e-15*np.abs(p).max()
        require(ds.max() <= lim, '%s: a step of %r exceeds the maximum %r', what, ds.max(), ms)
        ob.count('steps', len(ds))
    return p


def level(rng, ob, idx):
    """Uniform flow: the end point and the monotone progress are exact."""
    o = gen.origin(rng)
    F = paths.uniform(rng, o)
    tol = gen.pick(rng, [1, 1e-2, 1e-5])
    ms = gen.pick(rng, [10, 1, 50.0, 3.7])
    a, b = F.info['v']
    sp = math.hypot(a, b)
    T = gen.pick(rng, [F.horizon, F.horizon, .05, .1, 1e-3, .1 + .9, .1*(1 + 1e-12), ms/sp, 3652.5])
    if sp*T > 4000:
        T = 4000/sp
    if idx % 12 == 3:                                      # kilometres at a step, whatever the tolerance
        ms, tol = gen.pick(rng, [1000, 2500.0, 3e4, 1e6]), gen.pick(rng, [1, 1e4, 1e9])
        T = ms/sp*gen.pick(rng, [.02, .7, 3.3, 40.5])
        ob.count('large_limits')
    elif rng.random() < .1:
        T = max(1, int(T))
        if sp*T > 4000:
            T = .05
    d = T if rng.random() < .6 else -T
    xs, ys = F.start
    v = compute_backtrace(xs, ys, d, tol, ms, F)
    p = check_steps(ob, v, xs, ys, ms, 'uniform flow')
    fp = 1e-14*max(1, np.abs(p).max())*math.sqrt(len(p)) + 1e-12*sp*T
    want = (xs + a*d, ys + b*d)
    err = math.hypot(p[-1][0] - want[0], p[-1][1] - want[1])
    require(err <= fp*2, 'uniform flow (%r, %r) for %r d: ends at %r, expected %r', a, b, d, tuple(p[-1]), want)
    s = ((p - p[0]) @ np.array([a, b]))/sp*math.copysign(1, d)
    c = ((p - p[0]) @ np.array([-b, a]))/sp
    require(np.all(np.diff(s) >= -fp) and s.max() <= sp*T + 2*fp and np.abs(c).max() <= 2*fp, 'uniform flow: the trace leaves its line or overshoots')
    ob.count('uniform')
    ob.count('short', T <= .1)
    ob.count('negative', d < 0)
    ob.count('single_leg', len(p) == 2)
    ob.show({'velocity': (a, b), 'start': F.start, 'duration': d, 'tol': tol, 'maxstep': ms, 'legs': len(p) - 1, 'end': tuple(p[-1])})
    ob.nontrivial(p)


def any_field(rng, ob, idx):
    o = gen.origin(rng)
    F = paths.any_field(rng, o)
    tol = gen.pick(rng, [1, .1, 1e-3, 1e-6])
    ms = gen.pick(rng, [10, 1, 50.0, 3.7, .4])
    T = F.horizon*gen.pick(rng, [1, .3])
    xs, ys = F.start
    v = compute_backtrace(xs, ys, T, tol, ms, F)
    p = check_steps(ob, v, xs, ys, ms, F.name)
    # time reversal of field and duration together changes nothing
    N = paths.Field(F.name, lambda x, y: tuple(-q for q in F.f(x, y)))
    q = check_steps(ob, compute_backtrace(xs, ys, -T, tol, ms, N), xs, ys, ms, F.name + ' reversed')
    err = np.hypot(*(q[-1] - p[-1]))
    require(len(p) == len(q) and err <= 1e-9 + 1e-9*np.abs(p).max()*1e-3 + tol,
            '%s: reversing the field and the duration moved the end by %r (%r legs against %r)', F.name, err, len(p) - 1, len(q) - 1)
    ob.count('mirror')
    # a shorter duration gives the beginning of the same trace
    f = float(rng.uniform(.05, .95))
    w = check_steps(ob, compute_backtrace(xs, ys, f*T, tol, ms, F), xs, ys, ms, F.name)
    require(len(w) <= len(p) + 3, '%s: a shorter trace has more legs', F.name)

    n = max(1, len(w) - 4)                # a rejected final step may be split
    require(np.array_equal(w[:n], p[:n]), '%s: the trace for %r of the duration is not the beginning of the full one', F.name, f)
    ob.count('truncated')
    ob.show({'field': F.name, 'start': F.start, 'duration': T, 'tol': tol, 'maxstep': ms, 'legs': len(p) - 1})
    ob.nontrivial(p)


def long(rng, ob, idx):
    """Thousands of legs: the whole duration is still covered."""
    o = gen.origin(rng)
    t, sp = rng.uniform(0, 6.3), gen.logu(rng, .05, 2)
    a, b = sp*math.cos(t), sp*math.sin(t)
    n = int(gen.logu(rng, 3000, 24000))
    ms = gen.pick(rng, [1, 2.5, .5, 10])
    T = (n + .4)*ms/sp*(1 if rng.random() < .6 else -1)
    if idx % 2:
        return late(rng, ob, o, a, b, ms, T)
    v = compute_backtrace(o[0], o[1], T, gen.pick(rng, [1, 1e-2]), ms, lambda xy: np.array([a, b]))
    p = check_steps(ob, v, o[0], o[1], ms, 'a long trace')
    fp = 1e-14*max(1, np.abs(p).max())*math.sqrt(len(p)) + 1e-11*abs(sp*T)
    err = math.hypot(p[-1][0] - o[0] - a*T, p[-1][1] - o[1] - b*T)
    require(err <= 2*fp, 'a trace of %d legs ends %r from where it should (%r m long)', len(p) - 1, err, abs(sp*T))
    ob.count('long')
    ob.show({'velocity': (a, b), 'start': o, 'duration': T, 'maxstep': ms, 'legs': len(p) - 1})
    ob.nontrivial(p[::50])


def late(rng, ob, o, a, b, ms, T):
    """The step limit is heeded late in a long trace as it is early."""
    s = math.copysign(1.0, T)
    sp = math.hypot(a, b)
    far = abs(T)*sp*float(rng.uniform(.5, .8))
    up, w = gen.logu(rng, 3, 40), gen.pick(rng, [.5, 2.0, 12.0])*ms

    def f(xy):
        d = s*((xy[0] - o[0])*a + (xy[1] - o[1])*b)/sp - far
        v = 1 + up*(math.tanh(d/w) + 1)/2
        return np.array([a*v, b*v])
    v = compute_backtrace(o[0], o[1], s*far/sp + T*.1, gen.pick(rng, [1, 10.0])*ms, ms, f)
    p = check_steps(ob, v, o[0], o[1], ms, 'a long trace that speeds up late')
    require((p[-1][0] - o[0])*a*s + (p[-1][1] - o[1])*b*s > far*sp, 'a trace that speeds up after %r m ended before', far)
    ob.count('late_surges')
    ob.nontrivial(p[::50])


def remnant(rng, ob, idx):
    """Durations that leave almost nothing after a whole number of steps (as the program itself chooses them)."""
    o = gen.pick(rng, [(0.0, 0.0), (12.5, -3.0), (2250.0, 2250.0)])
    t, sp = rng.uniform(0, 6.3), gen.logu(rng, .05, 30)
    a, b = sp*math.cos(t), sp*math.sin(t)
    ms, tol = gen.pick(rng, [1.0, 2.5, 10]), gen.pick(rng, [1, 1e-2])

    def f(xy):
        return np.array([a, b])
    v = compute_backtrace(o[0], o[1], 60*ms/sp, tol, ms, f)
    ks = rng.integers(1, len(v) - 1, size=6) if len(v) > 3 else []
    for k in ks:
        tk = math.hypot(v[k][0] - o[0], v[k][1] - o[1])/sp
        T = tk*(1 + gen.pick(rng, [1, 1, 1, -1])*gen.logu(rng, 1e-10, 1e-2))*gen.pick(rng, [1, 1, -1])
        p = check_steps(ob, compute_backtrace(o[0], o[1], T, tol, ms, f), o[0], o[1], ms, 'a remnant')
        fp = 1e-15*max(1, np.abs(p).max())*len(p) + 4e-16*len(p)*sp*abs(T)
        err = math.hypot(p[-1][0] - o[0] - a*T, p[-1][1] - o[1] - b*T)
        require(err <= 2*fp, 'a trace for %r d (%r more than %d steps) ends %.3g m from where it should', T, abs(T) - tk, k, err)
        ob.count('remnants')
    ob.nontrivial(np.array([(float(q[0]), float(q[1])) for q in v]))


def surge(rng, ob, idx):
    """Flow that speeds up along a straight line: every step has to heed its limit, the first as well."""
    o = gen.origin(rng)
    t = gen.pick(rng, [math.pi/4, math.pi*3/4, -math.pi*3/4, -math.pi/4, 0.0, float(rng.uniform(0, 6.3))])
    c, s = math.cos(t), math.sin(t)
    ms = gen.pick(rng, [1.0, 10, 4.0, 50.0])
    v0 = gen.logu(rng, .02, 20)*ms*10                         # a tenth of a day covers .02 to 20 step limits
    g = gen.logu(rng, .1, 3)/ms                               # relative gain of speed per metre
    top = float(rng.uniform(1.1, 6))*v0

    def f(xy):
        d = (xy[0] - o[0])*c + (xy[1] - o[1])*s
        v = v0 + (top - v0)*(1 - math.exp(-max(d, 0.0)*g)) if d > 0 else v0
        return np.array([v*c, v*s])
    T = ms*gen.pick(rng, [1.5, 4, 12])/v0
    v = compute_backtrace(o[0], o[1], T, gen.pick(rng, [1, 1e4, 1e-2])*ms, ms, f)
    p = check_steps(ob, v, o[0], o[1], ms, 'accelerating flow')
    ob.count('surges')
    ob.count('diagonal_surges', abs(abs(c) - abs(s)) < 1e-6)
    ob.nontrivial(p)


KINDS = {'remnant': (remnant, 60, 600), 'surge': (surge, 240, 2400), 'long': (long, 8, 60), 'level': (level, 800, 8000), 'any_field': (any_field, 480, 6000)}
