"""The stochastic field counts realizations, each the capture zone of its own parameters."""
import copy
import math
import numpy as np
from oneka.stochastic import create_stochastic_capturezone
from oneka.deterministic import create_deterministic_capturezone
from fw import gen, ref
from fw.core import require, Inconclusive
from fw.hooks import watch_realizations, Frozen
from fw.pf import geometry, World
from fw.zone import Driver, two_sided, settled, starts, lattice
from fw.runs import same, same_field
from checks.F01 import standard_error

PROP = 'C03'
RULE = ('stochastic runs of 2 to 12 realizations; a monitor records the parameters every velocity of a realization was computed '
        'with and the set registered. Judged: total weight, integer counts between 0 and n, every set against an independent '
        'trace of the recorded parameters, the field as the sum of the sets, parameters within their distributions and constant '
        'during a realization, n agreeing realizations for degenerate distributions and negligible observation error. '
        'Distinct by final field.')
REQUIRE = {'runs': 60, 'realizations': 200, 'realizations_judged': 120, 'nodes_in': 5000, 'partial_nodes': 500, 'unconfined_runs': 20,
           'degenerate_runs': 20, 'own_fit': 200, 'dry_realizations': 40, 'wet_realizations': 20, 'certain_nodes': 20, 'late_judged': 5, 'drawn': 100, 'twin_records': 15, 'injecting': 5}


def support(d):
    if isinstance(d, (list, tuple)):
        return d[0], d[-1]
    return d, d


def inside(v, d, what):
    a, b = support(d)
    require(a <= v <= b, '%s %r is outside its distribution %r', what, v, d)


def accounting(ob, pf, n, sc):
    geometry(pf)
    settled(pf, n)
    g = pf.pgrid
    require(np.all(g == np.round(g)) and g.min() >= 0 and g.max() <= n, 'counts are not integers from 0 to %d: %r', n, np.unique(g)[:8])
    ob.count('partial_nodes', ((g > 0) & (g < n)).sum())


def twin(rng, ob, d, certain):
    """A second record at the place of a well, next to it in the list or at the other end."""
    i = int(rng.integers(len(d.wells)))
    w, q = d.mean_wells[i], d.mean_wells[i][3]*float(rng.uniform(.1, .3))
    k = gen.pick(rng, [i + 1, i, i + 1, 0, len(d.wells)])
    d.wells.insert(k, (*w[:3], q if certain else (.8*q, 1.2*q) if q > 0 else (1.2*q, .8*q)))
    d.mean_wells.insert(k, (*w[:3], q))
    d.target += k <= d.target
    ob.count('twin_records')


def realized(rng, ob, idx):
    confined = rng.random() < .55
    sc = gen.Scenario(rng, confined=rng.random() < .6, noise=.05, std=gen.pick(rng, [.02, .1, .3]), nobs=gen.pick(rng, [12, 20]))
    d = Driver(rng, sc, confined, npaths=gen.pick(rng, [1, 2, 4]), spacing=gen.pick(rng, [5, 10.0]), frac=.12)
    if idx % 6 == 5:                                       # faint wells far away that inject, or idle at times
        for i in range(6):
            t, f = 1.05*i + float(rng.uniform(0, .9)), float(rng.uniform(2, 4))
            q = gen.pick(rng, [(-6.0, -2.0), -4.0, (-3.0, 3.0), (-9.0, -4.0, -1.0)])
            rec = (sc.xt + f*sc.L*math.cos(t), sc.yt + f*sc.L*math.sin(t), .25)
            d.wells.append((*rec, q))
            d.mean_wells.append((*rec, q if isinstance(q, float) else sum(q)/len(q)))
        ob.count('injecting')
    n = gen.pick(rng, [2, 3, 5, 12])
    if idx % 10 == 4:
        n = gen.pick(rng, [60, 130, 260])
        d.duration *= .3
        d.npaths = 3
    if idx % 5 == 3:                                       # a certain aquifer, uncertain discharges, precise observations
        d.c, d.t = sc.k, sc.h
        d.wells = [(w[0], w[1], w[2], (.6*m[3], 1.3*m[3]) if m[3] > 0 else (1.3*m[3], .6*m[3])) for w, m in zip(d.wells, d.mean_wells)]
        d.obs = [(x, y, z, 1e-3) for x, y, z, s in d.obs]
    if idx % 6 == 2:
        twin(rng, ob, d, False)
    args = d.sto(n)
    given = copy.deepcopy(args)
    with watch_realizations() as seen:
        pf = create_stochastic_capturezone(*args)
    require(same(args, given), 'the run changed its arguments')
    accounting(ob, pf, n, sc)
    if idx % 3 == 1:
        kept = copy.deepcopy(pf)
        two = create_stochastic_capturezone(*d.sto(2, npaths=1, duration=d.duration*.3))
        accounting(ob, two, 2, sc)
        require(not same_field(pf, kept), 'a later run changed the %r of an earlier field', same_field(pf, kept))
        ob.count('later_runs')
    ob.count('runs')
    ob.count('unconfined_runs', not confined)
    if len(seen) != n or any(r.params is None for r in seen):
        raise Inconclusive('%d registrations and %d with velocities observed for %d realizations'
                           % (len(seen), sum(r.params is not None for r in seen), n))
    judged = {0, n//2, n - 1}
    ob.count('late_judged', n > 50)
    total = World(pf, sc.xt, sc.yt)
    acc = np.zeros_like(total.p)
    drawn = [('conductivity', d.c, lambda r: r.params[1]), ('porosity', d.p, lambda r: r.params[2]), ('thickness', d.t, lambda r: r.params[3])]
    for what, dist, get in drawn + [('discharge %d' % i, w[3], lambda r, i=i: r.params[4][i][3]) for i, w in enumerate(d.wells) if len(seen[0].params[4]) == len(d.wells)]:
        if isinstance(dist, (list, tuple)) and abs(dist[-1] - dist[0]) > 1e-6*abs(dist[0]):
            require(len({get(r) for r in seen}) == n, 'the %s takes %d values in %d realizations', what, len({get(r) for r in seen}), n)
            ob.count('drawn')
    for k, r in enumerate(seen):
        require(not r.mixed, 'the parameters changed during realization %d', k)
        base, kk, p, h, wells, coef, xo, yo = r.params
        require(r.weight == 1, 'realization %d has weight %r', k, r.weight)
        inside(kk, d.c, 'conductivity')
        inside(p, d.p, 'porosity')
        inside(h, d.t, 'thickness')
        require(base == d.base, 'base of realization %d: %r', k, base)
        coef = tuple(float(v) for v in ref.rebase(coef, xo, yo, sc.xt, sc.yt))
        require(len(wells) == len(d.wells), 'realization %d has %d wells', k, len(wells))
        for w, v in zip(d.wells, wells):
            require(tuple(w[:3]) == v[:3], 'a well moved: %r -> %r', w[:3], v[:3])
            inside(v[3], w[3], 'discharge')
        # the flow field is one this realization's own observations and parameters make likely
        c, R = ref.fit(d.obs, d.base, kk, h, wells, sc.xt, sc.yt)[:2]
        z = standard_error(R, coef, c)
        require(z < 10, 'the flow field of realization %d is %.3g standard deviations from the fit of its own parameters', k, z)
        ob.count('own_fit')
        f = Frozen(pf, r.grid)
        w = World(f, sc.xt, sc.yt)
        acc += w.value(w.r, total.i0, total.j0, *acc.shape, fill=False)
        ob.count('realizations')
        if k in judged:
            vel = d.velocity(kk, p, h, list(wells), coef)
            if d.trapped(vel):
                ob.count('trapped')
                continue
            must, may, dry = d.tracks(vel, .02*d.umbra)
            if not may:
                require(not f.rgrid.any(), 'marks although every path starts dry')
                continue
            b = .1*d.umbra
            two_sided(ob, f, sc.xt, sc.yt, f.rgrid, must, may, d.umbra - b, d.umbra + b, 'realization %d of %d' % (k, n))
            ob.count('realizations_judged')
    require(np.array_equal(acc, total.p), 'the field is not the number of realizations that registered each node (%d nodes differ)',
            int((acc != total.p).sum()))
    ob.show({'run': d.describe(), 'n': n, 'parameters': [r.params[1:4] for r in seen], 'grid': pf.pgrid.shape})
    ob.nontrivial(pf.pgrid)


realized.EVALS = 4_000_000


def degenerate(rng, ob, idx):
    """No uncertainty: every realization is the deterministic zone."""
    confined = rng.random() < .5
    sc = gen.Scenario(rng, confined=rng.random() < .6, std=1e-7)
    d = Driver(rng, sc, confined, dists=False, npaths=gen.pick(rng, [2, 5]), frac=.15)
    if idx % 3 == 1:
        twin(rng, ob, d, True)
    n = gen.pick(rng, [2, 3, 4])
    if rng.random() < .5:                                  # the same constants, written as distributions
        d.c, d.p = (d.c, d.c), [d.p, d.p, d.p]
        d.wells = [(w[0], w[1], w[2], (w[3], w[3], w[3])) for w in d.wells]
        d.t = (d.t, d.t, d.t)
    vel = d.velocity()
    if d.trapped(vel):
        return
    pf = create_stochastic_capturezone(*d.sto(n))
    accounting(ob, pf, n, sc)
    must, may, dry = d.tracks(vel, .02*d.umbra)
    b = .1*d.umbra
    if may:
        two_sided(ob, pf, sc.xt, sc.yt, pf.pgrid >= n, must, may, d.umbra - b, d.umbra + b, '%d equal realizations, nodes of all' % n)
        two_sided(ob, pf, sc.xt, sc.yt, pf.pgrid > 0, must, may, d.umbra - b, d.umbra + b, '%d equal realizations, nodes of any' % n)
    det = create_deterministic_capturezone(*d.det())
    a, c = World(det, sc.xt, sc.yt), World(pf, sc.xt, sc.yt)
    e = c.value(c.p, a.i0, a.j0, *a.p.shape, fill=0)
    differ = int(((e >= n) != (a.p > 0)).sum())
    require(differ <= 3 + .01*(a.p > 0).sum(), 'the zone without uncertainty differs from the deterministic one at %d of %d nodes', differ, int((a.p > 0).sum()))
    ob.count('runs')
    ob.count('unconfined_runs', not confined)
    ob.count('degenerate_runs')
    ob.nontrivial(pf.pgrid)


def certain(rng, ob, idx):
    """The well is inside its own capture zone in every realization (default tolerances, shipped-size uncertainty)."""
    sc = gen.Scenario(rng, confined=True, noise=.2, nobs=20, std=.5)
    d = Driver(rng, sc, True, fine=False, npaths=gen.pick(rng, [8, 12]), frac=.1)
    n = gen.pick(rng, [2, 4, 8])
    pf = create_stochastic_capturezone(*d.sto(n))
    accounting(ob, pf, n, sc)
    i0, j0 = lattice(pf, sc.xt, sc.yt)
    # nodes within half an umbra of a release point: the first leg alone marks them
    for x, y in starts(sc.xt, sc.yt, sc.rtarget, d.npaths):
        for j in range(pf.nrows):
            yy = sc.yt + (j + j0)*pf.deltay
            if abs(yy - y) > d.umbra:
                continue
            for i in range(pf.ncols):
                xx = sc.xt + (i + i0)*pf.deltax
                if math.hypot(xx - x, yy - y) < d.umbra*.999:
                    require(pf.pgrid[j, i] == n, 'node (%r, %r), within the umbra of a release point, is counted %r of %d times',
                            xx, yy, float(pf.pgrid[j, i]), n)
                    ob.count('certain_nodes')
    ob.count('runs')
    ob.nontrivial(pf.pgrid)


def parched(rng, ob, idx):
    """Some realizations find the aquifer dry at the well: they capture nothing, and they count."""
    sc = gen.Scenario(rng, confined=False, noise=.02, std=gen.pick(rng, [.01, .05]), nobs=gen.pick(rng, [9, 14]), inject=False)
    d = Driver(rng, sc, False, dists=False, npaths=gen.pick(rng, [1, 2, 4]), spacing=gen.pick(rng, [5, 10.0]), frac=.1)
    pts = starts(sc.xt, sc.yt, sc.rtarget, d.npaths)

    def lowest(f):
        ws = [w[:3] + (w[3]*f,) if i == d.target else w for i, w in enumerate(d.mean_wells)]
        coef = ref.fit(d.obs, d.base, d.cm, d.tm, ws, sc.xt, sc.yt)[0]
        return max(float(ref.potential(coef, sc.xt, sc.yt, ws, x, y)[0]) for x, y in pts)
    a, b = .01, 1.0
    while lowest(b) > 0:
        b *= 2
        if b > 1e4:
            ob.count('never_dry')
            return
    for _ in range(30):
        m = (a + b)/2
        a, b = (m, b) if lowest(m) > 0 else (a, m)
    q = d.mean_wells[d.target][3]*a
    w = d.wells[d.target]
    d.wells[d.target] = (w[0], w[1], w[2], (q*.4, q*1.6))
    n = gen.pick(rng, [4, 8, 12])
    with watch_realizations() as seen:
        pf = create_stochastic_capturezone(*d.sto(n))
    accounting(ob, pf, n, sc)
    if len(seen) != n or any(r.params is None for r in seen):
        raise Inconclusive('%d registrations and %d with velocities observed for %d realizations'
                           % (len(seen), sum(r.params is not None for r in seen), n))
    total = World(pf, sc.xt, sc.yt)
    acc = np.zeros_like(total.p)
    for k, r in enumerate(seen):
        require(r.weight == 1, 'realization %d has weight %r', k, r.weight)
        f = Frozen(pf, r.grid)
        w = World(f, sc.xt, sc.yt)
        acc += w.value(w.r, total.i0, total.j0, *acc.shape, fill=False)
        base, kk, p, h, wells, coef, xo, yo = r.params
        pots = [ref.potential(np.array(coef), xo, yo, wells, x, y) for x, y in pts]
        if all(float(v) < -1e-9*float(e) for v, e in pots):
            require(not f.rgrid.any(), 'realization %d is dry at every release point, and marks %d nodes', k, f.rgrid.sum())
            ob.count('dry_realizations')
        elif all(float(v) > .05*.5*kk*h*h for v, e in pots):
            require(f.rgrid.any(), 'realization %d is wet at the well and marks no node', k)
            ob.count('wet_realizations')
    require(np.array_equal(acc, total.p), 'the field is not the number of realizations that registered each node (%d nodes differ)',
            int((acc != total.p).sum()))
    ob.count('runs')
    ob.count('unconfined_runs')
    ob.nontrivial(pf.pgrid)


KINDS = {'parched': (parched, 48, 600), 'realized': (realized, 80, 1500), 'degenerate': (degenerate, 48, 800), 'certain': (certain, 24, 300)}
