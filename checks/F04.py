"""Observations the aquifer cannot produce are refused, without touching the model."""
import numpy as np
from oneka.model import Model, RangeError
from fw import gen, ref
from fw.core import Violation, close, require
from checks.F01 import noisy_network

PROP = 'F04'
RULE = ('valid networks with one or more observations at or below the aquifer base at any position of the list (first, '
        'last, middle, all), by margins from one ulp-scale step to metres; the fit must raise the documented range error '
        'and leave coefficients and origin as they were, while the same network with the offenders raised must be '
        'accepted. Distinct by the network and the offending positions.')
REQUIRE = {'refused': 200, 'accepted': 100}


def below(rng, ob, idx):
    sc = noisy_network(rng)
    good = [tuple(q) for q in sc['obs']]
    mo = Model(sc['base'], sc['k'], sc['p'], sc['h'], sc['wells'])
    if rng.random() < .5:
        mo.coef = rng.normal(size=6)
        mo.xo, mo.yo = 3.25, -7.5
    n = len(good)
    how = int(rng.integers(5))
    pos = {0: [0], 1: [n - 1], 2: [int(rng.integers(n))], 3: list(range(n)), 4: sorted(set(int(v) for v in rng.integers(n, size=3)))}[how]
    bad = list(good)
    for i in pos:
        x, y, z, s = bad[i]
        drop = gen.pick(rng, [0.0, 1e-9*max(1.0, abs(float(sc['base']))), 0.5, 10.0, 1e3])
        bad[i] = (x, y, sc['base'] - drop, s)
    before = (np.array(mo.coef).copy(), mo.xo, mo.yo)
    try:
        r = mo.fit_regional_flow(bad, sc['xo'], sc['yo'])
    except RangeError:
        ob.count('refused')
    else:
        raise Violation('an observation at or below the aquifer base (positions %r of %d) was fitted: %r' % (pos, n, r))
    after = (np.array(mo.coef), mo.xo, mo.yo)
    require(np.array_equal(before[0], after[0]) and before[1:] == after[1:], 'a refused fit changed the model')
    mo.fit_regional_flow(good, sc['xo'], sc['yo'])
    require(np.all(np.isfinite(np.array(mo.coef, dtype=float))), 'a valid network produced %r', mo.coef)
    ob.count('accepted')
    ob.show({'nobs': n, 'offending': pos, 'base': sc['base']})
    ob.nontrivial(pos, [q[2] for q in bad])


KINDS = {'below': (below, 2500, 10000)}
