"""Heads generated by a model are recovered by fitting: at the wells' surroundings and everywhere."""
import numpy as np
from oneka.model import Model
from fw import gen, ref
from fw.core import Violation, close, require

PROP = 'F02'
RULE = ('error-free observations computed in extended precision from a hidden model (confined with any standard '
        'deviations, unconfined/mixed with vanishing ones), then fitted; the fitted model\'s heads and velocities must '
        'reproduce the hidden model at the observations and at unobserved locations. Distinct by the recovered heads.')
REQUIRE = {'recovered_confined': 50, 'recovered_unconfined': 30, 'points': 1000, 'exactly_six': 20, 'wide': 40}


def recovery(rng, ob, idx):
    conf = rng.random() < .6
    sc = gen.Scenario(rng, confined=conf, std=None if conf else 1e-7, nwells=gen.pick(rng, [1, 2, 4, 8]),
                      nobs=gen.pick(rng, [7, 9, 15, 40]), inject=True, L=None if rng.random() < .85 else gen.pick(rng, [1e4, 4e4]))
    ob.count('wide', sc.L > 5e3)
    mo = Model(sc.base, sc.k, sc.p, sc.h, sc.wells)
    xo, yo = (sc.xt, sc.yt) if rng.random() < .6 else (sc.o[0] + rng.uniform(-1, 1)*sc.L, sc.o[1] + rng.uniform(-1, 1)*sc.L)
    if ref.conditioning(sc.obs, xo, yo) > 500:
        xo, yo = sc.xt, sc.yt
    obs = sc.obs
    if rng.random() < .15:                          # the fewest observations that determine the flow
        for _ in range(20):
            six = [sc.obs[int(i)] for i in rng.permutation(len(sc.obs))[:6]]
            if ref.conditioning(six, xo, yo) < 300:
                obs = six
                ob.count('exactly_six')
                break
    mo.fit_regional_flow(obs, xo, yo)
    seen = []

    def truth(x, y):
        pot, _ = ref.potential(sc.coef, sc.xt, sc.yt, sc.wells, x, y)
        hd = ref.head_of_potential(pot, sc.k, sc.h)
        (qx, qy), m = ref.discharge(sc.coef, sc.xt, sc.yt, sc.wells, x, y)
        b = min(hd, sc.h)
        return float(hd), float(qx/b/sc.p), float(qy/b/sc.p), float(m/b/sc.p)
    for x, y, z, s in sc.obs:
        got = float(mo.compute_head(x, y))
        close(got + sc.base, z, 1e-5, 'fitted head at an error-free observation')
        seen.append(got)
    for i in range(15):
        x, y = sc.o[0] + rng.uniform(-.8, .8)*sc.L, sc.o[1] + rng.uniform(-.8, .8)*sc.L
        if any(np.hypot(x - w[0], y - w[1]) < 5 for w in sc.wells):
            continue
        hd, vx, vy, vm = truth(x, y)
        close(mo.compute_head(x, y), hd, 1e-4, 'head at an unobserved location (%r, %r)' % (x, y))
        V = mo.compute_velocity(x, y)
        g = 1e-6*vm + 1e-6*sc.k*sc.h/sc.L
        close(V[0], vx, g, 'Vx at an unobserved location')
        close(V[1], vy, g, 'Vy at an unobserved location')
        ob.count('points')
    un = sum(1 for q in sc.obs if q[2] - sc.base < sc.h)
    ob.count('recovered_unconfined', un > 0)
    ob.count('recovered_confined', un == 0)
    ob.show(dict(sc.describe(), heads=seen[:4]))
    ob.nontrivial(np.array(seen))


KINDS = {'recovery': (recovery, 2000, 12000)}
