"""Registration accounting: a node's total is the weight of the realizations that visited it."""
import math
import numpy as np
from oneka.probabilityfield import ProbabilityField
from fw import gen, ref
from fw.core import Violation, require, close
from fw.pf import spacing, umbra_for, track, as_args, geometry, World

PROP = 'P03'
RULE = ('histories of 30 operations (insert track, register with unit/fractional/zero/large weight, discard, grow) shadowed '
        'by a sequential reference keyed by lattice node; after every operation totals, current marks and total weight are '
        'compared; runs of thousands of realizations, counted independently; fields made side by side. Distinct by the operation history and final totals.')
REQUIRE = {'operations': 3000, 'registered': 500, 'discarded': 200, 'revisited_nodes': 500, 'nodes_compared': 20000, 'long_runs': 10, 'visits_accounted': 50000, 'side_by_side': 1000}


def history(rng, ob, idx):
    dx, dy = spacing(rng)
    o = gen.origin(rng)
    xo, yo = o
    pf = ProbabilityField(dx, dy, *o)
    total, marks, weight = {}, set(), 0.0
    ops = []
    s = max(dx, dy)
    scale = gen.pick(rng, [1, 1, 1, 1.0, 1/3e7, 1/7, 1e9, 1e-12, gen.logu(rng, 1e-9, 1e3)])
    heavy = rng.random() < .1                                  # far apart
    for step in range(30):
        op = gen.pick(rng, ['track', 'track', 'track', 'register', 'register', 'reset', 'expand'])
        if op == 'track':
            how, p = track(rng, o[0] + 3*s*rng.normal(), o[1] + 3*s*rng.normal(), s*.7)
            pre = World(pf, xo, yo)
            pf.rasterize(*as_args(rng, p), umbra_for(rng, dx, dy))
            w = World(pf, xo, yo)
            new = {(int(i) + w.i0, int(j) + w.j0) for j, i in np.argwhere(w.r)}
            require(marks <= new, 'inserting a track dropped %d current marks', len(marks - new))
            ob.count('revisited_nodes', len(marks))
            marks = new
        elif op == 'register':
            wt = gen.pick(rng, [1.0, 1.0, 1, 0.25, 2.5, 0.1, 0, 1e-3, 7])*scale
            if heavy:
                wt = gen.pick(rng, [1.0, 1, 70000.123456789, 1/3, 2.0**25 + .25, 1e-3, 1e10])
            pf.register(wt)
            weight += wt
            for n in marks:
                total[n] = total.get(n, 0.0) + wt
            marks = set()
            ob.count('registered')
        elif op == 'reset':
            pf.reset()
            marks = set()
            ob.count('discarded')
        else:
            d = s*rng.uniform(0, 4)
            pf.expand(pf.xmin - d*rng.integers(2), pf.xmax + d*rng.integers(2), pf.ymin - d*rng.integers(2), pf.ymax + d*rng.integers(2))
        ops.append(op[0:3])
        ob.count('operations')
        geometry(pf)
        w = World(pf, xo, yo)
        close(pf.total_weight, weight, 1e-12*weight, 'total weight after %r' % ops)
        got = {(int(i) + w.i0, int(j) + w.j0) for j, i in np.argwhere(w.r)}
        require(got == marks, 'after %r the current marks differ from the reference at %d nodes', ops, len(got ^ marks))
        ref_p = np.zeros_like(w.p)
        for (i, j), v in total.items():
            jj, ii = j - w.j0, i - w.i0
            require(0 <= jj < w.p.shape[0] and 0 <= ii < w.p.shape[1], 'a node with accumulated weight is off the grid')
            ref_p[jj, ii] = v
        dev = np.abs(w.p - ref_p)
        require(dev.max(initial=0) <= 1e-12*weight, 'after %r a node holds %r, the visiting realizations weigh %r',
                ops, float(w.p[np.unravel_index(dev.argmax(), dev.shape)]), float(ref_p[np.unravel_index(dev.argmax(), dev.shape)]))
        require(w.p.min(initial=0) >= 0 and w.p.max(initial=0) <= pf.total_weight*(1 + 1e-12), 'a node is outside [0, total weight]')
        ob.count('nodes_compared', w.p.size)
        if pf.ncols*pf.nrows > 30000:
            break
    ob.show({'operations': ops, 'total_weight': weight, 'visited': len(total)})
    if total:
        ob.nontrivial(ops, sorted(total.items())[:200])


def many(rng, ob, idx):
    """Thousands of realizations, as long runs make them: nothing saturates, wraps or drifts."""
    dx, dy = spacing(rng)
    o = gen.origin(rng)
    pf = ProbabilityField(dx, dy, *o)
    s = max(dx, dy)
    u = s*.8
    tracks = [track(rng, o[0] + 2*s*rng.normal(), o[1] + 2*s*rng.normal(), s*.4, 4)[1] for _ in range(5)]
    wt = gen.pick(rng, [1.0, 1, 0.1, 1/3, 2.5])
    hits, total = {}, 0.0
    n = 3500
    for step in range(n):
        if step % 100 == 0 or rng.random() < .02:
            for t in tracks[:int(rng.integers(0, 6))]:
                pf.rasterize(*as_args(rng, t), u)
        elif pf.ncols and rng.random() < .8:
            t = tracks[int(rng.integers(2))]
            pf.rasterize(t[:2, 0], t[:2, 1], u)
        w = World(pf, *o)
        for j, i in np.argwhere(w.r):
            k = (int(i) + w.i0, int(j) + w.j0)
            hits[k] = hits.get(k, 0) + 1
        pf.register(wt)
        total += wt
    w = World(pf, *o)
    close(pf.total_weight, n*wt, 1e-10*n, 'total weight after %d realizations' % n)
    got = {(int(i) + w.i0, int(j) + w.j0): w.p[j, i] for j, i in np.argwhere(w.p != 0)}
    require(set(got) == set(hits), 'after %d realizations the visited nodes differ from the marked ones at %d nodes', n, len(set(got) ^ set(hits)))
    for k, v in got.items():
        close(v, hits[k]*wt, 1e-10*n, 'total of a node marked by %d of %d realizations' % (hits[k], n))
    ob.count('long_runs')
    ob.count('visits_accounted', sum(hits.values()))
    ob.nontrivial(sorted(hits.items()))


def fresh(rng, ob, idx):
    """Fields are independent of each other."""
    o = gen.origin(rng)
    a = ProbabilityField(1, 1, *o)
    b = ProbabilityField(1, 1, *o)
    for k in range(3):
        p = track(rng, o[0], o[1], 1.0)[1]
        a.rasterize(p[:, 0], p[:, 1], 1.5)
        a.register(1.0)
    require(b.total_weight == 0 and not b.pgrid.any() and not b.rgrid.any() and b.pgrid.shape == (3, 3), 'registering in one field changed another')
    c = ProbabilityField(1, 1, *o)
    require(c.total_weight == 0 and not c.pgrid.any() and not c.rgrid.any(), 'a new field is not empty')
    ob.count('fresh')
    # several at once, of one size and of several, located and not, marked in turns
    far = [o, (o[0] + 400, o[1]), (o[0], o[1] - 700), o]
    fs = [ProbabilityField(10, 10, *q) for q in far] + [ProbabilityField(10.0, 10.0) for _ in range(2)]
    names = ('nrows', 'ncols', 'xmin', 'xmax', 'ymin', 'ymax', 'total_weight')

    def look(f):
        if f.nrows == 0:
            return (0, 0)
        return tuple(getattr(f, n) for n in names) + (f.pgrid.tobytes(), f.rgrid.tobytes())
    was = [look(f) for f in fs]
    for step in range(24):
        k = int(rng.integers(len(fs)))
        f, q = fs[k], (far + far)[k]
        how = gen.pick(rng, ['small', 'small', 'register', 'track', 'grow', 'reset', 'new'])
        if how == 'small':                                 # within the first nine nodes
            a, b = q[0] + rng.uniform(-5, 5), q[1] + rng.uniform(-5, 5)
            f.rasterize([a, a + .5], [b, b - .5], float(rng.uniform(1, 4)))
        elif how == 'track':
            p = track(rng, *q, 8.0)[1]
            f.rasterize(p[:, 0], p[:, 1], 12.0)
        elif how == 'grow':
            f.expand(q[0] - 10.0*step, q[0] + 10.0, q[1], q[1] + 10.0*step)
        elif how == 'new':
            f = fs[k] = ProbabilityField(10, 10, *q)
            require(f.total_weight == 0 and f.pgrid.shape == (3, 3) and not f.pgrid.any() and not f.rgrid.any(), 'a new field is not empty')
        elif f.nrows:
            f.register(gen.pick(rng, [1.0, .5])) if how == 'register' else f.reset()
            require(not f.rgrid.any(), 'marks are left after %r', how)
        was[k] = look(f)
        now = [look(g) for g in fs]
        for i in range(len(fs)):
            require(now[i] == was[i], 'after %r of field %d, field %d is another', how, k, i)
        ob.count('side_by_side')
    ob.nontrivial(*was[0])


KINDS = {'many': (many, 16, 200), 'history': (history, 600, 8000), 'fresh': (fresh, 80, 400)}
