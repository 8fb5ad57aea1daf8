"""Capture zones are nested: longer durations, wider umbras and more paths only add ground."""
import math
import numpy as np
from oneka.deterministic import create_deterministic_capturezone
from oneka.stochastic import create_stochastic_capturezone
from fw import core, gen, ref
from fw.core import require
from fw.pf import World
from fw.zone import Driver, lattice

PROP = 'C06'
EVALS = 3_000_000
RULE = ('deterministic runs, and stochastic runs repeated with the same random draws, with a longer duration, a wider umbra, '
        'or a multiple of the paths; every node counted at least as often, within the same lattice. Distinct by fields and relation.')
REQUIRE = {'pairs': 150, 'duration': 30, 'umbra': 30, 'paths': 30, 'stochastic': 30, 'gained': 2000, 'nodes_compared': 20000, 'many_legs': 10}


def nested(rng, ob, idx):
    how = ['duration', 'umbra', 'paths'][idx % 3]
    stochastic = idx % 4 == 1
    confined = rng.random() < .5
    sc = gen.Scenario(rng, confined=rng.random() < .6, noise=.1, std=.1, nobs=14)
    d = Driver(rng, sc, confined, npaths=gen.pick(rng, [2, 3, 5]), frac=.15 if not stochastic else .1)
    if d.trapped(d.velocity()):
        return
    n = 4
    seed = int(rng.integers(2**31))

    def run(**k):
        if not stochastic:
            return create_deterministic_capturezone(*d.det(**k))
        np.random.seed(seed)
        core.reproducible_default_rng(seed)
        return create_stochastic_capturezone(*d.sto(n, **k))
    u = d.umbra
    if how == 'umbra':
        u = d.spacing*float(rng.uniform(.6, 6))
        d.maxstep = .4*u
    if idx % 8 == 6:                                       # paths of hundreds of legs
        d.maxstep = u/gen.pick(rng, [12, 30])
        d.npaths = min(d.npaths, 2)
        ob.count('many_legs')
    if how == 'duration':
        f = gen.pick(rng, [.2, .5, .8, .95])
        a, b = run(duration=f*d.duration, umbra=.9*u), run()
    elif how == 'umbra':
        f = gen.pick(rng, [1.02, 1.3, 2.0])
        a, b = run(umbra=u), run(umbra=f*u)
    else:
        m = gen.pick(rng, [2, 3, 4])
        k = d.npaths = gen.pick(rng, [1, 2, 3, 4, 5, 8, 9] if stochastic else [1, 2, 3, 4, 5, 8, 9, 12, 16, 20, 25, 33] if idx % 8 != 6 else [2, 3])
        d.npaths = m*k
        if d.trapped(d.velocity()):
            return
        d.npaths = k
        a, b = run(umbra=u*(1 - 1e-3)), run(npaths=m*d.npaths)
    A, B = World(a, sc.xt, sc.yt), World(b, sc.xt, sc.yt)
    i0, j0 = min(A.i0, B.i0), min(A.j0, B.j0)
    nc = max(A.i0 + a.ncols, B.i0 + b.ncols) - i0
    nr = max(A.j0 + a.nrows, B.j0 + b.nrows) - j0
    P, Q = A.value(A.p, i0, j0, nr, nc), B.value(B.p, i0, j0, nr, nc)
    bad = P > Q
    require(not bad.any(), 'more %s: %d of %d nodes are counted less often', how, int(bad.sum()), int((P > 0).sum()))
    ob.count('pairs')
    ob.count(how)
    ob.count('stochastic', stochastic)
    ob.count('gained', (Q > P).sum())
    ob.count('nodes_compared', (Q > 0).sum())
    ob.show({'relation': how, 'run': d.describe(), 'nodes': (int((P > 0).sum()), int((Q > 0).sum()))})
    ob.nontrivial(how, P, Q)


KINDS = {'nested': (nested, 240, 5000)}
