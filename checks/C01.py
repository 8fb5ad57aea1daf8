"""A capture zone is the union of the traces released uniformly around the well, registered once with its weight."""
import math
import numpy as np
from oneka.capturezone import compute_capturezone
from oneka.model import AquiferError
from oneka.probabilityfield import ProbabilityField
from fw import gen, paths, ref
from fw.core import require
from fw.pf import World, geometry, band
from fw.zone import two_sided, starts, settled, cut, sensitive

PROP = 'C01'
RULE = ('capture zones in motionless, uniform, radial (exact straight paths), rotational and multi-well velocity fields, with 1 '
        'to 60 paths, both time directions, fields already holding registered content, any weight; and with the velocity '
        'undefined beyond a line. Every node is judged against exact or independently integrated paths. Distinct by zone.')
REQUIRE = {'zones': 250, 'motionless': 30, 'release_points': 1500, 'radial': 40, 'uniform': 40, 'curved': 60, 'obstructed': 40, 'prior': 100,
           'nodes_in': 20000, 'nodes_out': 50000, 'backward_duration': 30, 'spread_out': 8, 'many_legs': 8}


def setting(rng, grow=True):
    o = gen.origin(rng)
    rt = gen.pick(rng, [.25, .5, 1.0, .0762, 1, 4.0]) if rng.random() < .9 else gen.logu(rng, 5, 90)
    if rng.random() < .06:
        rt = gen.logu(rng, 1e-4, .07)
    n = gen.pick(rng, [1, 2, 3, 4, 5, 7, 8, 12, 20, 60, 150])
    if rng.random() < .04:
        n = gen.pick(rng, [361, 400, 720, 1000, 1500])
    s = gen.pick(rng, [.25, .5, 1.0, 2.0, 5, 10.0])
    return o, rt, n, s


def prior(rng, ob, pf, o, s):
    """Some registered content and weight."""
    if rng.random() < .6:
        for _ in range(2):
            t = rng.uniform(0, 6.3)
            r = s*rng.uniform(2, 20)
            pf.rasterize([o[0], o[0] + r*math.cos(t)], [o[1], o[1] + r*math.sin(t)], 2.2*s)
            pf.register(gen.pick(rng, [1.0, .5, 3]))
        ob.count('prior')
    return World(pf, *o), float(pf.total_weight)


def run(ob, pf, o, rt, n, d, u, w, tol, ms, f, tw, before):
    compute_capturezone(o[0], o[1], rt, n, d, pf, u, w, tol, ms, f)
    geometry(pf)
    settled(pf, tw + w)
    now = World(pf, *o)
    old = before.value(before.p, now.i0, now.j0, *now.p.shape, fill=0)
    diff = now.p - old
    on = np.abs(diff - w) <= 1e-12*(1 + np.abs(now.p))
    require(np.all(on | (diff == 0)), 'a node gained a weight other than %r: %r', w, diff[~(on | (diff == 0))][:3])
    require(before.p.sum() == 0 or now.p.sum() >= before.p.sum() - 1e-9, 'accumulated weight was lost')
    ob.count('zones')
    return on


def straight(rng, ob, idx):
    o, rt, n, s = setting(rng)
    how = ['motionless', 'radial', 'uniform', 'obstructed'][idx % 4]
    u = s*gen.pick(rng, [.6, 1.0, 1.5, 3.0, 4.0, 7.5])
    if how == 'motionless':
        u = max(u, .8*s)
    w = gen.pick(rng, [1.0, 1, .25, 2.5, 10])
    L = s*gen.pick(rng, [3, 10, 25]) if rng.random() < .85 else s*gen.pick(rng, [.4, .65])
    tol, ms = gen.pick(rng, [1, .01]), gen.pick(rng, [10, s, 3*s, .7*s])
    if how == 'radial' and rng.random() < .12:             # hundreds of paths that spread until each captures ground of its own
        n = gen.pick(rng, [210, 240, 361, 480])
        u, L = .75*s, .3*n*s
        ob.count('spread_out')
    elif how == 'uniform' and rng.random() < .12:          # paths of hundreds of legs
        n, L = min(n, 5), s*gen.pick(rng, [10, 25])
        ms = L/gen.pick(rng, [130.5, 420.3, 530.5, 1100.5])
        ob.count('many_legs')
    r0 = rt + 1
    st = starts(o[0], o[1], rt, n)
    sign = 1 if rng.random() < .7 else -1
    X = None
    if how == 'motionless':
        T = 100.0
        asked = []

        def f(xy):
            asked.append((float(xy[0]), float(xy[1])))
            return np.array([0.0, 0.0])
        exact = [np.array([p, p]) for p in st]
    elif how in ('uniform', 'obstructed'):
        sp, t = gen.logu(rng, .01, 3), rng.uniform(0, 6.3)
        vx, vy = sp*math.cos(t), sp*math.sin(t)
        T = L/sp
        if how == 'obstructed':
            X = float(rng.uniform(-.3, .9))*L
        g = lambda xy: (xy[0] - o[0])*vx/sp + (xy[1] - o[1])*vy/sp
        kind = gen.pick(rng, ['raise', 'nan'])

        def f(xy):
            if X is not None and g(xy) > X:
                if kind == 'raise':
                    raise AquiferError('dry')
                return np.array([np.nan, np.nan])
            return np.array([sign*vx, sign*vy])
        exact = [np.array([p, (p[0] + vx*T, p[1] + vy*T)]) for p in st]
    else:
        a = gen.logu(rng, .05, 5)
        r1 = r0 + L
        T = (r1*r1 - r0*r0)/2/a

        def f(xy):
            ex, ey = xy[0] - o[0], xy[1] - o[1]
            r2 = ex*ex + ey*ey
            return np.array([sign*a*ex/r2, sign*a*ey/r2])
        exact = [np.array([p, (o[0] + (p[0] - o[0])*r1/r0, o[1] + (p[1] - o[1])*r1/r0)]) for p in st]
        tol = 1e-3
    pf = ProbabilityField(s, s, *o)
    before, tw = prior(rng, ob, pf, o, s)
    on = run(ob, pf, o, rt, n, sign*T, u, w, tol, ms, f, tw, before)
    if how == 'motionless':
        # every one of the release points, and nowhere else
        a, rel = np.array(asked), np.array(st)
        e = 1e-9*r0 + 4e-16*np.abs(rel).max()
        d = np.hypot(a[:, None, 0] - rel[None, :, 0], a[:, None, 1] - rel[None, :, 1]) if len(a)*n < 3e7 else None
        if d is not None:
            require((d.min(0) <= 2*e).all(), '%d of the %d release points around the well were not traced from', int((d.min(0) > 2*e).sum()), n)
            require((d.min(1) <= 2*e).all(), 'motionless water was traced to %r', a[int(d.min(1).argmax())])
            ob.count('release_points', n)
    b = 2*band(pf, u) + (1e-9 if how != 'radial' else 4*tol + 5e-2*tol*L/ms)
    must, may = exact, exact
    if X is not None:
        must, may = [], []
        back = min(L, 2*ms + .12*sp)
        for p in exact:
            start = g(p[0])
            if start > X:
                continue                                  # nothing was traced
            may.append(np.array([p[0], p[0] + (p[1] - p[0])*min(1, (X - start)/L)]))
            must.append(cut(may[-1], 0 if X - start >= L else back))
        must = [m for m in must if len(m) > 1]
        if not may:
            require(not on.any(), 'nodes are marked although no path could be traced')
            ob.count('obstructed')
            return
    und = two_sided(ob, pf, o[0], o[1], on, must, may, u - b, u + b, '%s field, %d paths' % (how, n))
    ob.count(how)
    ob.count('backward_duration', sign < 0)
    ob.show({'field': how, 'well': (o, rt), 'paths': n, 'duration': sign*T, 'spacing': s, 'umbra': u, 'weight': w, 'grid': on.shape, 'marked': int(on.sum())})
    if on.any():
        ob.nontrivial(on, o, how)


def curved(rng, ob, idx):
    o, rt, n, s = setting(rng)
    u = s*gen.pick(rng, [1.0, 1.5, 3.0, 5.0])
    w = gen.pick(rng, [1.0, 2, .1])
    if rng.random() < .4:
        om = gen.logu(rng, 1e-3, 1e-1)
        cx, cy = o[0] + s*rng.uniform(-15, 15), o[1] + s*rng.uniform(-15, 15)
        # sheared rotation about a point off the well
        q = float(rng.uniform(.6, 1.6))
        v = lambda x, y: (-om*(y - cy), om*q*(x - cx))
        T = rng.uniform(.3, 1.5)/om
        ms = .5*u
    else:
        sc = gen.Scenario(rng, o=o, nobs=9)
        F = paths.from_scenario(sc, rng)
        v = F.f
        o, rt, T = (sc.xt, sc.yt), sc.rtarget, sc.reach(.15)
        s = gen.pick(rng, [2.0, 5, 10.0])
        u = s*gen.pick(rng, [1.0, 1.5, 4.5])
        n = gen.pick(rng, [1, 3, 6, 11])
        ms = .4*u
    pf = ProbabilityField(s, s, *o)
    before, tw = prior(rng, ob, pf, o, s)
    on = run(ob, pf, o, rt, n, T, u, w, 1e-4, ms, lambda xy: np.array(v(xy[0], xy[1])), tw, before)
    eps = .02*u
    tr = []
    for x, y in starts(o[0], o[1], rt, n):
        if sensitive(v, x, y, T, 1e-4, 2*eps):
            ob.count('sensitive')
            return
        p, done = ref.trace(v, x, y, T, eps*8)
        tr.append(ref.simplify(p, eps))
    b = .1*u
    two_sided(ob, pf, o[0], o[1], on, tr, tr, u - b, u + b, 'curved paths, %d of them' % n)
    ob.count('curved')
    ob.show({'well': (o, rt), 'paths': n, 'duration': T, 'spacing': s, 'umbra': u, 'weight': w, 'grid': on.shape, 'marked': int(on.sum())})
    ob.nontrivial(on, o)


KINDS = {'straight': (straight, 640, 8000), 'curved': (curved, 200, 2500)}
