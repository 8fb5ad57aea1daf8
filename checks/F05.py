"""The fitted flow does not depend on the frame or the order of the input."""
import numpy as np
from oneka.model import Model
from fw import gen, ref
from fw.core import Violation, close, require
from checks.F01 import noisy_network, fit_tol

PROP = 'F05'
RULE = ('one noisy network fitted in its own frame and in a transformed one (translated, quarter-turned, mirrored, '
        'vertically shifted datum, another local origin, shuffled observations and wells, a well split in two); heads and '
        'velocities at mapped points must correspond. Distinct by the transformation and the observed heads.')
REQUIRE = {'compared': 1000, 'translate': 30, 'rotate': 30, 'mirror': 30, 'datum': 30, 'origin': 30, 'shuffle': 30, 'split': 30, 'far_origin': 12}


def frame(rng, ob, idx):
    sc = gen.Scenario(rng, confined=rng.random() < .5, noise=0.5, nwells=gen.pick(rng, [1, 2, 4]), nobs=gen.pick(rng, [8, 12, 30]),
                      o=gen.pick(rng, [(0.0, 0.0), (2000.0, -500.0), (355731.0, 5091141.0)]),
                      L=gen.pick(rng, [None]*6 + [1e4, 3e4, 8e4]))
    ox, oy = sc.xt, sc.yt
    A = Model(sc.base, sc.k, sc.p, sc.h, list(sc.wells))
    A.fit_regional_flow(sc.obs, ox, oy)
    kind = gen.pick(rng, ['translate', 'rotate', 'mirror', 'datum', 'origin', 'origin', 'shuffle', 'split'])
    fwd = lambda x, y: (x, y)                       # noqa
    vec = lambda u, v: (u, v)                       # noqa
    dz, dord, wells, obs = 0.0, False, list(sc.wells), list(sc.obs)
    origin = None
    if kind == 'translate':
        a, b = float(round(rng.uniform(-5e5, 5e5))), float(round(rng.uniform(-5e6, 5e6)))
        fwd = lambda x, y: (x + a, y + b)           # noqa
    elif kind == 'rotate':
        fwd = lambda x, y: (ox - (y - oy), oy + (x - ox))   # noqa
        vec = lambda u, v: (-v, u)                  # noqa
    elif kind == 'mirror':
        if rng.random() < .5:
            fwd = lambda x, y: (2*ox - x, y)        # noqa
            vec = lambda u, v: (-u, v)              # noqa
        else:
            fwd = lambda x, y: (y - oy + ox, x - ox + oy)   # noqa
            vec = lambda u, v: (v, u)               # noqa
    elif kind == 'datum':
        dz = float(round(rng.uniform(-500, 500)*gen.pick(rng, [1, 1, 9]), 2))
    elif kind == 'origin':
        far = gen.pick(rng, [1, 1, 1, 3, 8, 40])
        origin = (ox + rng.uniform(-.6, .6)*sc.L*far, oy + rng.uniform(-.6, .6)*sc.L*far)
    elif kind == 'shuffle':
        obs = [obs[i] for i in rng.permutation(len(obs))]
        wells = [wells[i] for i in rng.permutation(len(wells))]
    else:
        i = int(rng.integers(len(wells)))
        x, y, r, q = wells[i]
        f = float(rng.uniform(-.5, 1.5))
        wells[i:i+1] = [(x, y, r, q*f), (x, y, r, q*(1 - f))]
    wells2 = [fwd(w[0], w[1]) + tuple(w[2:]) for w in wells]
    obs2 = [fwd(q[0], q[1]) + (q[2] + dz, q[3]) for q in obs]
    if origin:
        WA, Wb = ref.fit_system(obs2, sc.base + dz, sc.k, sc.h, wells2, *origin)
        if fit_tol(WA, Wb) > 5e-4:
            ob.count('ill_posed')
            return
        ob.count('far_origin', np.hypot(origin[0] - ox, origin[1] - oy) > 3000)
    B = Model(sc.base + dz, sc.k, sc.p, sc.h, wells2)
    B.fit_regional_flow(obs2, *(origin or fwd(ox, oy)))
    seen = []
    for i in range(20):
        x, y = sc.o[0] + rng.uniform(-.6, .6)*sc.L, sc.o[1] + rng.uniform(-.6, .6)*sc.L
        if any(np.hypot(x - w[0], y - w[1]) < 10 for w in sc.wells):
            continue
        X, Y = fwd(x, y)
        pa, pb = float(A.compute_potential(x, y)), float(B.compute_potential(X, Y))
        scale = 0.5*sc.k*sc.h**2
        close(pb, pa, 1e-5*scale + 1e-6*abs(pa), '%s: potential at (%r, %r) and its image' % (kind, x, y))
        if pa < 0.05*scale:
            continue
        close(B.compute_head(X, Y), float(A.compute_head(x, y)), 1e-3*sc.h, '%s: head at (%r, %r) and its image' % (kind, x, y))
        V = vec(*A.compute_velocity(x, y))
        W = B.compute_velocity(X, Y)
        vm = np.hypot(*V) + sc.k/sc.L*sc.h*0.01
        close(W[0], float(V[0]), 1e-3*vm, '%s: Vx' % kind)
        close(W[1], float(V[1]), 1e-3*vm, '%s: Vy' % kind)
        seen.append(pa)
        ob.count('compared')
    ob.count(kind)
    ob.show({'transformation': kind, 'potentials': seen[:4]})
    ob.nontrivial(kind, np.array(seen))


KINDS = {'frame': (frame, 9000, 60000)}
