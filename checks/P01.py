"""A track marks exactly the lattice nodes within the umbra of it."""
import numpy as np
from oneka.probabilityfield import ProbabilityField
from fw import gen, ref
from fw.core import Violation, require
from fw.pf import spacing, umbra_for, track, as_args, geometry, World, band, expected_marks, judge_marks, same

PROP = 'P01'
RULE = ('random tracks (walks, smooth, axis-aligned, repeated vertices, motionless, loops, long) on fields with equal and '
        'unequal spacings, placed at local and UTM coordinates, umbra from a twentieth to nine spacings, several tracks per '
        'realization; every node of an unbounded lattice around the tracks is judged by brute-force distance. Distinct by '
        'the marked grid.')
REQUIRE = {'nodes_marked': 5000, 'nodes_clear': 20000, 'tracks': 500, 'grown': 50, 'motionless': 5, 'unlocated': 20}


def raster(rng, ob, idx):
    dx, dy = spacing(rng)
    o = gen.origin(rng)
    if rng.random() < .8:
        pf = ProbabilityField(dx, dy, o[0], o[1])
        xo, yo = o
    else:
        pf = ProbabilityField(dx, dy)
        xo = yo = None
        ob.count('unlocated')
    s = max(dx, dy)*gen.pick(rng, [0.05, 0.3, 0.8, 2.0, 5.0])
    tracks, lo, hi = [], [], []
    prev = None
    cx, cy = o
    big = idx % 50 == 0
    for k in range(1 if big else gen.pick(rng, [1, 1, 2, 4])):
        u = umbra_for(rng, dx, dy)
        how, p = track(rng, cx, cy, s, 600 if big else None, 'stairs' if idx % 100 == 0 else None)
        # the segments a track has are those between consecutive vertices
        x, y = as_args(rng, p)
        x0, y0 = list(x), list(y)
        before = None if xo is None else World(pf, xo, yo)
        pf.rasterize(x, y, u)
        require(list(x) == x0 and list(y) == y0, 'the track passed in was altered')
        if xo is None:
            xo, yo = pf.xmin, pf.ymin
        geometry(pf)
        now = World(pf, xo, yo)
        if before is not None:
            same(before, now, 'p', 'accumulated probabilities while inserting a track')
            i0, j0 = min(before.i0, now.i0), min(before.j0, now.j0)
            g = now.value(now.r, before.i0, before.j0, *before.r.shape)
            require(not np.any(before.r & ~g), 'inserting a track erased earlier marks')
            ob.count('grown', now.r.shape != before.r.shape)
        tracks.append((p, float(u)))
        ob.count('tracks')
        ob.count('motionless', how == 'repeat' and len(p) == 2)
        if rng.random() < .3:
            cx, cy = cx + 10*s*rng.normal(), cy + 10*s*rng.normal()
    # judge: signed distance to each track's own umbra
    reach = max(u for _, u in tracks) + 2*max(dx, dy)
    lat = expected_marks(pf, xo, yo, [p for p, _ in tracks], reach)
    gap = np.full(lat.d2.shape, np.inf)
    for p, u in tracks:
        lat.d2[:] = np.inf
        lat.add(p, reach*1.2)
        np.minimum(gap, np.sqrt(lat.d2) - u, out=gap)
    b = max(band(pf, u) for _, u in tracks)
    lat.d2 = np.where(gap < 0, 0.0, 4.0)
    lat.d2[np.abs(gap) < b] = 1.0
    judge_marks(ob, pf, xo, yo, pf.rgrid, lat, 0.5, 1.5, '%s track(s), spacing (%r, %r), umbra %r' % (len(tracks), dx, dy, [u for _, u in tracks]))
    ob.show({'origin': o, 'spacing': (dx, dy), 'umbra': [u for _, u in tracks], 'vertices': [len(p) for p, _ in tracks],
             'grid': pf.rgrid.shape, 'marked': int(pf.rgrid.sum())})
    if pf.rgrid.any():
        ob.nontrivial(pf.rgrid, pf.xmin)


def order(rng, ob, idx):
    """The marked set does not depend on the order or direction in which tracks are inserted."""
    dx, dy = spacing(rng)
    o = gen.origin(rng)
    s = max(dx, dy)*gen.pick(rng, [0.3, 1.0, 3.0])
    u = umbra_for(rng, dx, dy)
    ts = [track(rng, o[0] + 8*s*rng.normal(), o[1] + 8*s*rng.normal(), s)[1] for _ in range(3)]
    a, b = ProbabilityField(dx, dy, *o), ProbabilityField(dx, dy, *o)
    for p in ts:
        a.rasterize(p[:, 0], p[:, 1], u)
    for p in reversed(ts):
        b.rasterize(p[::-1, 0], p[::-1, 1], u)
    lat = expected_marks(a, o[0], o[1], ts, u + 2*max(dx, dy))
    amb = np.abs(np.sqrt(lat.d2) - u) < max(band(a, u), band(b, u))
    wa, wb = World(a, *o), World(b, *o)
    ga = wa.value(wa.r, lat.imin, lat.jmin, *lat.d2.shape)
    gb = wb.value(wb.r, lat.imin, lat.jmin, *lat.d2.shape)
    require(not np.any((ga != gb) & ~amb), 'inserting the same tracks in another order marks other nodes (%d)', int(((ga != gb) & ~amb).sum()))
    ob.count('orders')
    if ga.any():
        ob.nontrivial(ga)


KINDS = {'raster': (raster, 1000, 25000), 'order': (order, 200, 4000)}
