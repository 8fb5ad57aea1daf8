"""The point-segment distance is the true distance to the segment, degenerate or not."""
import numpy as np
from oneka.probabilityfield import ProbabilityField
from fw import gen, ref
from fw.core import Violation, require, close

PROP = 'P04'
RULE = ('segments and points (generic, beyond either end, on the line, at an end, coincident ends, axis-aligned, tiny, huge, '
        'UTM coordinates; ints, floats and numpy scalars) judged against exact rational arithmetic; symmetric in the ends and '
        'under translation and quarter turns. Distinct by the observed distance.')
REQUIRE = {'distances': 5000, 'beyond_a': 500, 'beyond_b': 500, 'beside': 500, 'degenerate': 300}


def distance(rng, ob, idx):
    seen = []
    for t in range(40):
        o = gen.pick(rng, [(0.0, 0.0), (0.0, 0.0), (322579.0, 5093431.0), (-1e4, 7e5)])
        s = gen.logu(rng, 1e-3, 1e4)
        ax, ay = o[0] + s*rng.normal(), o[1] + s*rng.normal()
        m = int(rng.integers(7))
        L = s*gen.logu(rng, 1e-4, 10)
        th = rng.uniform(0, 6.3)
        if m == 0:
            th = gen.pick(rng, [0, 1, 2, 3])*np.pi/2
        bx, by = ax + L*np.cos(th), ay + L*np.sin(th)
        if m == 1:
            bx, by = ax, ay
        if m == 2:
            bx, by = (ax, ay + L) if rng.random() < .5 else (ax - L, ay)
        f, g = rng.uniform(-2, 3), rng.normal()
        if rng.random() < .2:
            g = 0.0
        if rng.random() < .2:
            f = gen.pick(rng, [0.0, 1.0])
        cx, cy = ax + f*(bx - ax) - g*(by - ay), ay + f*(by - ay) + g*(bx - ax)
        if m == 1 and rng.random() < .8:
            cx, cy = ax + s*rng.normal(), ay + s*rng.normal()
        v = [ax, ay, bx, by, cx, cy]
        if m == 3:
            v = [int(round(q)) for q in v]
        elif m == 4:
            v = [np.float64(q) for q in v]
        else:
            v = [float(q) for q in v]
        want = float(ref.exact_dist2(*v))
        R2 = max((v[0] - v[4])**2 + (v[1] - v[5])**2, (v[0] - v[2])**2 + (v[1] - v[3])**2)
        tol = 1e-10*want + 1e-13*R2
        got = ProbabilityField.distancesquared(*v)
        close(got, want, tol, 'squared distance of (%r, %r) from segment (%r, %r)-(%r, %r)' % (v[4], v[5], v[0], v[1], v[2], v[3]))
        sw = ProbabilityField.distancesquared(v[2], v[3], v[0], v[1], v[4], v[5])
        R3 = max(R2, (v[2] - v[4])**2 + (v[3] - v[5])**2)
        close(sw, want, 1e-10*want + 1e-13*R3, 'squared distance with the ends exchanged')
        rt = ProbabilityField.distancesquared(-v[1], v[0], -v[3], v[2], -v[5], v[4])
        close(rt, want, tol, 'squared distance after a quarter turn')
        ob.count('distances', 3)
        if (v[0], v[1]) == (v[2], v[3]):
            ob.count('degenerate')
        else:
            ob.count('beyond_a' if f < 0 else 'beyond_b' if f > 1 else 'beside')
        seen.append(float(got))
    ob.show({'squared_distances': seen[:5]})
    ob.nontrivial(np.array(seen))


KINDS = {'distance': (distance, 2400, 10000)}
