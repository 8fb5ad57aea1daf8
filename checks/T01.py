"""A trace follows the streamline of its velocity field, at the speed of the field, to the requested tolerance."""
import math
import numpy as np
from oneka.capturezone import compute_backtrace
from fw import gen, paths
from fw.core import Inconclusive, require

PROP = 'T01'
RULE = ('traces through uniform, rotational, saddle, spiral, converging, shearing, radial and multi-well fields, both time '
        'directions, tolerances 1 to 1e-8 m and maximum steps 0.5 to 200 m; each leg is compared with the exact streamline '
        'through its first vertex (transverse miss against the tolerance, travel times against the duration) and the end '
        'point with the closed-form flow. Distinct by vertices.')
REQUIRE = {'traces': 400, 'legs': 10000, 'endpoints': 200, 'forward_in_time': 80, 'mean_judged': 150, 'estimates': 10000}
ASSUMPTIONS = ['"To the tolerance" is judged as: no leg misses the streamline by more than 12 tol, the mean miss of a trace '
               'is at most tol, no leg that is a step of the documented Dormand-Prince method has an error estimate above 1.5 tol, '
               'and the travel-time error is that of at most 8 tol per leg (60 for fewer than 8 legs); the '
               'integrator promises an estimated, not a proven, local error.']


def legs(rng, ob, idx):
    o = gen.origin(rng)
    F = paths.any_field(rng, o) if idx % 8 else paths.gusty(rng, o)
    tol = gen.pick(rng, [1, .3, 1e-2, 1e-3, 1e-4, 1e-6, 1e-8])
    ms = gen.pick(rng, [10, 10, .5, 2, 50.0, 5.0, 200])
    if F.name == 'gusty':
        ms = min(ms, F.width)
    T = F.horizon*gen.pick(rng, [1, 1, .5, .07])
    sign = 1 if rng.random() < .7 else -1
    G = F if sign > 0 else paths.Field(F.name, lambda x, y: tuple(-v for v in F.f(x, y)))
    v = compute_backtrace(F.start[0], F.start[1], sign*T, tol, ms, G)
    p = np.array([(float(a[0]), float(a[1])) for a in v])
    n = len(p) - 1
    require(n >= 1, '%s field: the trace has no leg', F.name)
    miss, t, lo, res = paths.shadow(F.f, p, 1)
    fp = 5e-15*max(1, np.abs(p).max())*(1 if F.name != 'wells' else 3)
    ds = np.hypot(*(p[1:] - p[:-1]).T)
    if not np.all(res <= 1e-3*tol + 1e-6*ds + 10*fp):
        # the reference cannot match this leg with any travel time: it left the streamline, unless unresolved
        k = int(np.argmax(res - 1e-3*tol - 1e-6*ds))
        if not np.all(np.isfinite(res)) or ds[k] < 1e3*fp:
            raise Inconclusive('reference did not converge')
    k = int(np.argmax(miss))
    require(miss[k] <= 12*tol + fp, '%s field: leg %r from %r to %r misses the streamline by %r (tolerance %r)',
            F.name, k, tuple(p[k]), tuple(p[k + 1]), miss[k], tol)
    est, off = paths.estimates(F.f, p, t)
    own = off <= 15*fp + 1e-9*ds                           # legs that are steps of the documented method
    if own.any():
        k = int(np.argmax(np.where(own, est, 0)))
        require(est[k] <= 1.5*tol + 6*fp, '%s field: leg %r of %r was accepted with an estimated error of %r (tolerance %r)', F.name, k, n, est[k], tol)
        ob.count('estimates', own.sum())
    if n >= 8:
        ob.count('mean_judged')
        require(miss.mean() <= tol + fp, '%s field: legs miss the streamline by %r on average (tolerance %r)', F.name, miss.mean(), tol)
    slack = ((tol*(8 if n >= 8 else 60) + 4*fp)/lo).sum() + 1e-12*T
    require(abs(t.sum() - T) <= slack, '%s field: the %r legs take %r days along the streamlines, the trace was to last %r (slack %r)',
            F.name, n, t.sum(), T, slack)
    if F.flow:
        want = F.flow(*F.start, T)
        amp = F.amp(T)
        err = math.hypot(p[-1][0] - want[0], p[-1][1] - want[1])
        vmax = max(math.hypot(*F.f(*q)) for q in p)/max(1e-300, lo.min())
        lim = (tol*(4 if n >= 8 else 20) + 4*fp)*n*amp*max(1, min(vmax, 50))
        require(err <= lim, '%s field: the trace ends %r from the exact end point %r (limit %r)', F.name, err, want, lim)
        ob.count('endpoints')
    ob.count('traces')
    ob.count('legs', n)
    ob.count('forward_in_time', sign < 0)
    ob.count('field_' + F.name)
    ob.show({'field': F.name, 'start': F.start, 'duration': sign*T, 'tol': tol, 'maxstep': ms, 'legs': n,
             'worst_miss': miss.max(), 'time': t.sum()})
    ob.nontrivial(p)


KINDS = {'legs': (legs, 1920, 16000)}
