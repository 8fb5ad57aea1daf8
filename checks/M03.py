"""Head and potential correspond one-to-one; a dry aquifer is an error, never a head."""
import numpy as np
from oneka.model import Model, AquiferError
from fw import gen, ref
from fw.core import Violation, close, require
from checks.M01 import random_model, points, mutate

PROP = 'M03'
RULE = ('(sweep) a well-free model whose potential is exactly a chosen constant, swept through dry, zero, unconfined, the '
        'confined/unconfined transition to the last ulp, and deep confined; (field) random models at random points. '
        'Non-trivial: a head or a dry signal was decided; distinct by the observed heads.')
REQUIRE = {'unconfined_heads': 200, 'confined_heads': 200, 'dry': 200, 'transition': 100}


def head_or_dry(mo, x, y):
    try:
        return mo.compute_head(x, y)
    except AquiferError:
        return None


def judge(ob, mo, x, y, pot, mag, k, h, what):
    got = head_or_dry(mo, x, y)
    want = ref.head_of_potential(pot, k, h)
    if abs(pot) <= 1e-11*mag and pot != 0:
        ob.count('ambiguous')
        return got
    if want is None:
        require(got is None, '%s: potential %r is not positive but a head %r was returned', what, float(pot), got)
        ob.count('dry')
        return None
    require(got is not None, '%s: potential %r is positive but the aquifer was reported dry', what, float(pot))
    g = float(got)
    # conditioning of head on the potential
    dpot = 1e-11*float(mag) + 1e-13*float(pot)
    lim = dpot/(float(k)*min(float(want), float(h))) + 1e-12*float(want)
    if dpot > 0.1*float(pot):
        ob.count('ambiguous')
        return got
    close(g, want, 4*lim, '%s: head' % what)
    back = float(ref.potential_of_head(g, k, h))
    close(back, pot, 8*dpot + 1e-11*float(pot), '%s: potential of the observed head' % what)
    ob.count('confined_heads' if want >= h else 'unconfined_heads')
    return got


def sweep(rng, ob, idx):
    base, k, p, h = gen.aquifer(rng)
    crit = 0.5*k*h**2
    vals = [0.0, -1.0, -1e-9, -1e12, crit, np.nextafter(crit, 0), np.nextafter(crit, np.inf), crit*(1 - 1e-9), crit*(1 + 1e-9)]
    vals += [crit*gen.logu(rng, 1e-8, 1) for _ in range(8)] + [crit*gen.logu(rng, 1, 1e5) for _ in range(8)]
    vals += [-crit*gen.logu(rng, 1e-8, 10) for _ in range(4)]
    heads = []
    mo = Model(base, k, p, h, [], 0.0, 0.0, [0, 0, 0, 0, 0, 1.0])
    for v in sorted(vals):
        mo.coef = [0, 0, 0, 0, 0, v]
        got = judge(ob, mo, float(rng.normal()), float(rng.normal()), v, abs(v)*1e-3, k, h, 'k=%r H=%r potential=%r' % (k, h, v))
        ob.count('transition', abs(v - crit) <= 1e-8*crit)
        if got is not None:
            if heads:
                require(float(got) >= heads[-1]*(1 - 1e-14), 'head decreases (%r then %r) while the potential increases', heads[-1], got)
            heads.append(float(got))
    ob.show({'k': k, 'H': h, 'heads': heads[:6]})
    ob.nontrivial(np.array(heads))


def field(rng, ob, idx):
    mo, st = random_model(rng)
    heads = []
    for step in range(3):
        crit = 0.5*st['k']*st['h']**2
        st['coef'][5] = crit*float(gen.pick(rng, [-0.5, 0.05, 0.3, 0.9, 1.0, 1.1, 5.0]))
        sc = crit*gen.logu(rng, 1e-2, 2)
        st['coef'][:5] *= sc/st['scale']
        st['wells'] = [(w[0], w[1], w[2], w[3]*sc/5000) for w in st['wells']]
        mo.coef, mo.wells = st['coef'].copy(), st['wells']
        for x, y, how in points(rng, st['o'], st['L'], st['wells'], 12):
            pot, mag = ref.potential(st['coef'], st['xo'], st['yo'], st['wells'], x, y)
            got = judge(ob, mo, x, y, pot, mag, st['k'], st['h'], 'at (%r, %r)' % (x, y))
            heads.append(-1.0 if got is None else float(got))
        if rng.random() < .5:
            _, st['k'], _, st['h'] = gen.aquifer(rng)
            mo.conductivity, mo.thickness = st['k'], st['h']
        st['scale'] = sc
    ob.show({'k': st['k'], 'H': st['h'], 'heads': heads[:6]})
    ob.nontrivial(np.array(heads))


KINDS = {'sweep': (sweep, 2000, 8000), 'field': (field, 2500, 12000)}
