"""Workloads and lattice views shared by the probability-field checks."""
import math

import numpy as np

from fw import gen, ref
from fw.core import Violation, require


def spacing(rng):
    dx = gen.pick(rng, [1.0, 2, 5.0, 10, 0.1, 7.3, 0.37, 25.0])
    dy = dx if rng.random() < .5 else gen.pick(rng, [1.0, 3, 5.0, 10, 0.2, 2.1, 40.0])
    if max(dx, dy) > 12*min(dx, dy):
        dy = dx*3
    return dx, dy


def umbra_for(rng, dx, dy):
    m = max(dx, dy)
    f = gen.pick(rng, [0.05, 0.3, 0.5, 0.75, 1.0, 1.5, 2.0, 2.0, 4.0, 9.0])
    u = m*f
    return int(u) if float(u).is_integer() and rng.random() < .5 else float(u)*(1 if rng.random() < .5 else float(rng.uniform(.8, 1.2)))


def track(rng, cx, cy, s, n=None, how=None):
    """A polyline of float vertices near (cx, cy); s is the typical step."""
    how = how or gen.pick(rng, ['walk', 'walk', 'smooth', 'smooth', 'segment', 'axis', 'repeat', 'zigzag', 'loop', 'long', 'return', 'stairs'])
    n = n or gen.pick(rng, [2, 3, 5, 12, 40])
    x0, y0 = cx + s*rng.normal()*3, cy + s*rng.normal()*3
    if how == 'walk':
        p = np.cumsum(rng.normal(size=(n, 2))*s, axis=0) + [x0, y0]
    elif how == 'smooth':
        a = np.cumsum(rng.normal(size=n)*0.3) + rng.uniform(0, 6.3)
        p = np.cumsum(np.stack([np.cos(a), np.sin(a)], 1)*s, axis=0) + [x0, y0]
    elif how == 'segment':
        t = rng.uniform(0, 6.3)
        d = s*gen.logu(rng, 1e-3, 30)
        p = np.array([[x0, y0], [x0 + d*math.cos(t), y0 + d*math.sin(t)]])
    elif how == 'axis':
        d = s*rng.uniform(-8, 8)
        p = np.array([[x0, y0], [x0 + d, y0], [x0 + d, y0 - d]])
        p = p[:gen.pick(rng, [2, 3])] if rng.random() < .5 else p[1:]
    elif how == 'repeat':
        p = np.repeat(np.cumsum(rng.normal(size=(3, 2))*s, axis=0) + [x0, y0], 2, axis=0)
        if rng.random() < .3:
            p = p[:2]                                   # a motionless particle
    elif how == 'zigzag':
        p = np.array([[x0 + s*(i % 2)*5, y0 + s*i*.4] for i in range(n)])
    elif how == 'return':                               # back and forth along one line
        t = gen.pick(rng, [0.0, math.pi/2, rng.uniform(0, 6.3)])
        r = s*np.cumsum(rng.choice([-3, 5, 1, -7, 2], size=min(n, 12)))
        p = np.stack([x0 + r*round(math.cos(t), 12), y0 + r*round(math.sin(t), 12)], 1)
        if t == 0.0:
            p = np.round(p)
    elif how == 'stairs':                               # many legs along the axes
        k, d = gen.pick(rng, [1, 4, max(2, n//3), n]), .5*s*rng.choice([-1, 1], 2)
        i = np.arange(n + 1)
        m, j = i//(2*k), i % (2*k)
        p = np.stack([x0 + d[0]*(m*k + np.minimum(j, k)), y0 + d[1]*(m*k + np.maximum(j - k, 0))], 1)
        if rng.random() < .5:
            p = np.stack([x0 + p[:, 1] - y0, y0 + p[:, 0] - x0], 1)
    elif how == 'loop':
        t = np.linspace(0, 2*math.pi, n + 2)
        p = np.stack([x0 + 4*s*np.cos(t), y0 + 3*s*np.sin(t)], 1)
        p[-1] = p[0]
    else:
        t = rng.uniform(0, 6.3)
        p = np.array([[x0 + s*i*math.cos(t)*.8, y0 + s*i*math.sin(t)*.8] for i in range(3*n)])
    return how, p


def as_args(rng, p):
    """The same track in the container types callers use."""
    m = rng.random()
    if m < .4:
        return [float(v) for v in p[:, 0]], [float(v) for v in p[:, 1]]
    if m < .7:
        return p[:, 0].copy(), p[:, 1].copy()
    return [v for v in p[:, 0]], [v for v in p[:, 1]]       # numpy scalars in a list


def geometry(pf):
    """Consistency of the grid geometry; called at quiescent points."""
    shape = [getattr(g, 'shape', None) for g in (pf.pgrid, pf.rgrid)]
    require(shape == [(pf.nrows, pf.ncols)]*2,
            'grids of shape %r and %r for %r rows and %r columns', *shape, pf.nrows, pf.ncols)
    for lo, hi, d, n, nm in ((pf.xmin, pf.xmax, pf.deltax, pf.ncols, 'x'), (pf.ymin, pf.ymax, pf.deltay, pf.nrows, 'y')):
        tol = 1e-6*d + 1e-13*n*max(abs(lo), abs(hi))
        require(abs(lo + (n - 1)*d - hi) <= tol, '%s: %r nodes at spacing %r do not span %r to %r', nm, n, d, lo, hi)


class World:
    """Node values of a field keyed by integer lattice position (independent of the grid's extent)."""

    def __init__(self, pf, xo, yo):
        try:
            self.i0, self.j0 = ref.field_on_lattice(pf, xo, yo)
        except ValueError as e:
            raise Violation(str(e))
        self.p = np.array(pf.pgrid, dtype=float)
        self.r = np.array(pf.rgrid, dtype=bool)

    def value(self, grid, i0, j0, nrows, ncols, fill=0):
        """grid resampled on another window of the same lattice."""
        out = np.full((nrows, ncols), fill, dtype=grid.dtype)
        a0, a1 = max(self.i0, i0), min(self.i0 + grid.shape[1], i0 + ncols)
        b0, b1 = max(self.j0, j0), min(self.j0 + grid.shape[0], j0 + nrows)
        if a0 < a1 and b0 < b1:
            out[b0 - j0:b1 - j0, a0 - i0:a1 - i0] = grid[b0 - self.j0:b1 - self.j0, a0 - self.i0:a1 - self.i0]
        return out


def same(w0, w1, which, what):
    """Two World snapshots agree on every node of either (missing nodes are zero)."""
    i0, j0 = min(w0.i0, w1.i0), min(w0.j0, w1.j0)
    g0, g1 = getattr(w0, which), getattr(w1, which)
    i1, j1 = max(w0.i0 + g0.shape[1], w1.i0 + g1.shape[1]), max(w0.j0 + g0.shape[0], w1.j0 + g1.shape[0])
    a, b = w0.value(g0, i0, j0, j1 - j0, i1 - i0), w1.value(g1, i0, j0, j1 - j0, i1 - i0)
    if not np.array_equal(a, b):
        k = np.argwhere(a != b)
        raise Violation('%s: %d nodes changed, e.g. lattice node (%d, %d): %r -> %r'
                        % (what, len(k), k[0][1] + i0, k[0][0] + j0, a[tuple(k[0])], b[tuple(k[0])]))


def band(pf, umbra):
    c = max(abs(pf.xmin), abs(pf.xmax), abs(pf.ymin), abs(pf.ymax))
    return 1e-6*umbra + 3e-13*c*max(8, pf.nrows, pf.ncols)


def expected_marks(pf, xo, yo, tracks, reach):
    """Distances from the tracks on a window covering the grid and everything within reach of the tracks."""
    i0, j0 = ref.field_on_lattice(pf, xo, yo)
    allp = np.concatenate([np.asarray(t, dtype=float) for t in tracks])
    ia = min(i0, int(math.floor((allp[:, 0].min() - reach - xo)/pf.deltax)) - 1)
    ib = max(i0 + pf.ncols - 1, int(math.ceil((allp[:, 0].max() + reach - xo)/pf.deltax)) + 1)
    ja = min(j0, int(math.floor((allp[:, 1].min() - reach - yo)/pf.deltay)) - 1)
    jb = max(j0 + pf.nrows - 1, int(math.ceil((allp[:, 1].max() + reach - yo)/pf.deltay)) + 1)
    lat = ref.Lattice(xo, yo, pf.deltax, pf.deltay, ia, ib, ja, jb)
    for t in tracks:
        lat.add(t, reach*1.5)
    return lat


def judge_marks(ob, pf, xo, yo, got, lat, lo, hi, what):
    """
    Every lattice node closer than lo must be set in `got` (a grid of pf), every one
    farther than hi must not; nodes outside the grid count as not set.
    """
    try:
        w = World(pf, xo, yo)
    except Violation:
        raise
    g = w.value(np.asarray(got, dtype=bool), lat.imin, lat.jmin, len(lat.y), len(lat.x), False)
    d = np.sqrt(lat.d2)
    must, mustnot = d < lo, d > hi
    miss, extra = must & ~g, mustnot & g
    if miss.any() or extra.any():
        k = np.argwhere(miss if miss.any() else extra)[0]
        raise Violation('%s: %d nodes within range are unmarked and %d out of range are marked; e.g. node (%r, %r) at distance %r '
                        '(limits %r, %r) is %s'
                        % (what, miss.sum(), extra.sum(), float(lat.x[k[1]]), float(lat.y[k[0]]), float(d[tuple(k)]), lo, hi,
                           'unmarked' if miss.any() else 'marked'))
    ob.count('nodes_marked', must.sum())
    ob.count('nodes_clear', mustnot.sum())
    ob.count('nodes_ambiguous', (~must & ~mustnot).sum())
