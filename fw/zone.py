"""Capture-zone oracles: two-sided raster judgement, reference zones, the program's driver arguments."""
import math

import numpy as np

from fw import gen, ref
from fw.core import Violation, require
from fw.pf import World, band


def two_sided(ob, pf, xo, yo, got, must, may, lo, hi, what, sign=None):
    """
    Nodes closer than lo to a `must` polyline are set in `got`; nodes farther than hi
    from every `may` polyline are not. Returns the number of nodes left undecided.
    """
    i0, j0 = lattice(pf, xo, yo)
    reach = hi + 2*max(pf.deltax, pf.deltay)
    allp = np.concatenate([np.asarray(t, dtype=float) for t in list(must) + list(may)])
    ia = min(i0, int(math.floor((allp[:, 0].min() - reach - xo)/pf.deltax)) - 1)
    ib = max(i0 + pf.ncols - 1, int(math.ceil((allp[:, 0].max() + reach - xo)/pf.deltax)) + 1)
    ja = min(j0, int(math.floor((allp[:, 1].min() - reach - yo)/pf.deltay)) - 1)
    jb = max(j0 + pf.nrows - 1, int(math.ceil((allp[:, 1].max() + reach - yo)/pf.deltay)) + 1)
    A = ref.Lattice(xo, yo, pf.deltax, pf.deltay, ia, ib, ja, jb)
    for t in must:
        A.add(t, reach)
    if may is must:
        B = A
    else:
        B = ref.Lattice(xo, yo, pf.deltax, pf.deltay, ia, ib, ja, jb)
        for t in may:
            B.add(t, reach)
    w = World(pf, xo, yo)
    g = w.value(np.asarray(got, dtype=bool), A.imin, A.jmin, len(A.y), len(A.x), False)
    need, never = np.sqrt(A.d2) < lo, np.sqrt(B.d2) > hi
    miss, extra = need & ~g, never & g
    if miss.any() or extra.any():
        k = np.argwhere(miss if miss.any() else extra)[0]
        raise Violation('%s: %d nodes of the zone are unmarked and %d nodes outside it are marked, of %d; e.g. node (%r, %r), '
                        '%r from the reference paths (limits %r, %r)'
                        % (what, miss.sum(), extra.sum(), need.sum(), float(A.x[k[1]]), float(A.y[k[0]]),
                           float(np.sqrt((A if miss.any() else B).d2[tuple(k)])), lo, hi))
    und = int((~need & ~never).sum())
    ob.count('nodes_in', need.sum())
    ob.count('nodes_out', (never & (np.sqrt(B.d2) < np.inf)).sum())
    ob.count('nodes_undecided', und)
    return und


def lattice(pf, xo, yo):
    try:
        return ref.field_on_lattice(pf, xo, yo)
    except ValueError as e:
        raise Violation(str(e))


def starts(xt, yt, rt, npaths):
    """The release points: npaths of them, equally spaced from due east, one metre outside the well screen."""
    return [(xt + (rt + 1)*math.cos(2*math.pi*i/npaths), yt + (rt + 1)*math.sin(2*math.pi*i/npaths)) for i in range(npaths)]


def settled(pf, weight, what='the field'):
    """After a completed capture zone no realization is pending and the total weight is as given."""
    require(not np.any(pf.rgrid), '%s still holds an unregistered realization', what)
    require(abs(float(pf.total_weight) - weight) <= 1e-9*(1 + weight), '%s: total weight %r, expected %r', what, pf.total_weight, weight)


def reference_tracks(sc, vel, duration, npaths, eps):
    """(polylines, completed flags) by an independent solver; vel already folds in the tracing direction."""
    out = []
    for x, y in starts(sc.xt, sc.yt, sc.rtarget, npaths):
        p, done = ref.trace(vel, x, y, duration, eps*4)
        out.append((ref.simplify(p, eps), done))
    return out


def sensitive(vel, x, y, duration, tol, limit):
    """Does an integration error within the tolerance grow beyond limit along the path (it follows a divide)?"""
    e = 5*tol
    p, done = ref.trace(vel, x, y, duration, max(limit, 1.0), rtol=1e-8)
    for dx, dy in ((e, 0), (0, e)):
        if vel(x + dx, y + dy) is None:
            return True
        q, also = ref.trace(vel, x + dx, y + dy, duration, max(limit, 1.0), rtol=1e-8)
        if done and also and math.hypot(*(q[-1] - p[-1])) > limit + 2*e:
            return True
    return False


def cut(p, d):
    """The polyline without its last d of length (its first point at least)."""
    p = np.asarray(p)
    ds = np.hypot(*(p[1:] - p[:-1]).T) if len(p) > 1 else np.zeros(0)
    total = ds.sum()
    if d >= total:
        return p[:1]
    s = np.concatenate([[0], np.cumsum(ds)])
    k = int(np.searchsorted(s, total - d))
    f = (total - d - s[k - 1])/max(ds[k - 1], 1e-300)
    return np.concatenate([p[:k], [p[k - 1] + f*(p[k] - p[k - 1])]])


# ------------------------------------------------------------------------------
def spread(rng, mean, how=None):
    """(distribution argument, its mean): scalar, pair or triple, tuple or list."""
    how = how or gen.pick(rng, ['scalar', 'pair', 'triple', 'triple0'])
    if how == 'scalar':
        return mean, mean
    w = float(rng.uniform(.02, .3))*abs(mean)
    if how == 'pair':
        a, b = mean - w, mean + w*float(rng.uniform(.5, 1.5))
        d, m = (a, b), (a + b)/2
    elif how == 'triple':
        a, c, b = mean - w, mean + w*float(rng.uniform(-.5, .5)), mean + w*float(rng.uniform(.7, 1.5))
        d, m = (a, c, b), (a + b + c)/3
    else:                                                  # mode at an end
        a, b = mean - w, mean + w
        c = gen.pick(rng, [a, b])
        d, m = (a, c, b), (a + b + c)/3
    return (list(d) if rng.random() < .3 else d), m


class Trapped(Exception):
    pass


class Driver:
    """Arguments of a capture-zone run around a Scenario, and what they mean."""

    def __init__(self, rng, sc, confined, dists=True, fine=True, frac=.2, npaths=None, spacing=None):
        self.sc = sc
        pick = gen.pick
        self.spacing = spacing or pick(rng, [2.0, 5, 10, 10.0])
        self.umbra = self.spacing*pick(rng, [1.0, 1.5, 1, 1.0, 1, .8, 2.5, 4.5])
        self.npaths = npaths or pick(rng, [1, 3, 5, 8])
        self.confined = bool(confined)
        if fine:
            self.tol, self.maxstep = pick(rng, [1e-4, 1e-3]), .4*self.umbra
        else:
            self.tol, self.maxstep = pick(rng, [1, 1.0, .1]), pick(rng, [10, 5.0, self.umbra])
        one = None if dists else 'scalar'
        self.c, self.cm = spread(rng, sc.k, one)
        self.p, self.pm = spread(rng, sc.p, one)
        if np.max(self.p) > 1:
            self.p = self.pm = sc.p
        self.t, self.tm = spread(rng, sc.h, one)
        self.wells, self.mean_wells = [], []
        for w in sc.wells:
            q, m = spread(rng, w[3], one)
            if q is m and abs(m) >= 50 and rng.random() < .3:
                q = m = int(round(m))                      # a whole number
            rec = (w[0], w[1], w[2], q)
            self.wells.append(list(rec) if rng.random() < .3 else rec)
            self.mean_wells.append((w[0], w[1], w[2], m))
        self.obs = [list(o) if rng.random() < .1 else o for o in sc.obs]
        self.duration = sc.reach(frac)
        self.target = sc.target
        self.base = sc.base

    def det(self, **k):
        a = dict(target=self.target, npaths=self.npaths, duration=self.duration, base=self.base, c=self.c, p=self.p, t=self.t,
                 wells=self.wells, obs=self.obs, spacing=self.spacing, umbra=self.umbra, confined=self.confined,
                 tol=self.tol, maxstep=self.maxstep)
        a.update(k)
        return (a['target'], a['npaths'], a['duration'], a['base'], a['c'], a['p'], a['t'], a['wells'], a['obs'],
                a['spacing'], a['umbra'], a['confined'], a['tol'], a['maxstep'])

    def sto(self, n, **k):
        d = self.det(**k)
        return d[:3] + (n,) + d[3:]

    def velocity(self, k=None, p=None, h=None, wells=None, coef=None, sign=-1.0):
        k, p, h = (self.cm, self.pm, self.tm) if k is None else (k, p, h)
        wells = wells or self.mean_wells
        sc = self.sc
        if coef is None:
            coef = ref.fit(self.obs, self.base, k, h, wells, sc.xt, sc.yt)[0]
        if self.duration < 0:
            sign = -sign
        return ref.fast_velocity(k, p, h, wells, sc.xt, sc.yt, coef, self.confined, sign)

    def tracks(self, vel, eps):
        """(must, may) polylines: complete paths, and those ending where the aquifer is dry."""
        must, may = [], []
        dry = 0
        for x, y in starts(self.sc.xt, self.sc.yt, self.sc.rtarget, self.npaths):
            v0 = vel(x, y)
            if v0 is None:
                dry += 1
                continue
            p, done = ref.trace(vel, x, y, self.duration, eps*4)
            p = ref.simplify(p, eps)
            may.append(p)
            if done:
                must.append(p)
            else:
                dry += 1
                q = cut(p, 3*self.maxstep + .12*math.hypot(*v0))
                if len(q) > 1:
                    must.append(q)
        return must, may, dry

    def trapped(self, vel, near=4.0):
        """Do reference paths come close to a well that draws them in (where the field is singular)?"""
        sinks = [w for i, w in enumerate(self.mean_wells) if (w[3] < 0) == (self.duration > 0) and w[3] != 0]
        if not sinks:
            return False
        if any(w[0] == self.sc.xt and w[1] == self.sc.yt for w in sinks):
            return True

        def g(x, y):
            if any((x - w[0])**2 + (y - w[1])**2 < near*near for w in sinks):
                raise Trapped()
            return vel(x, y)
        try:
            for x, y in starts(self.sc.xt, self.sc.yt, self.sc.rtarget, self.npaths):
                if vel(x, y) is not None:
                    ref.trace(g, x, y, self.duration, 1.0, rtol=1e-5, atol=1e-3)
                    if sensitive(vel, x, y, self.duration, self.tol, .04*self.umbra):
                        return True
        except Trapped:
            return True
        return False

    def describe(self):
        d = self.sc.describe()
        d.update(c=self.c, p=self.p, t=self.t, spacing=self.spacing, umbra=self.umbra, npaths=self.npaths, confined=self.confined,
                 tol=self.tol, maxstep=self.maxstep, duration=self.duration, wells=self.wells)
        return d
