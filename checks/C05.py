"""The capture zone does not depend on the frame of reference, the units of time, the datum, or the order of the records."""
import math
import numpy as np
from oneka.deterministic import create_deterministic_capturezone
from fw import gen, ref
from fw.core import require
from fw.pf import World
from fw.zone import Driver, lattice

PROP = 'C05'
RULE = ('pairs of runs related by moving, turning or mirroring everything, shifting the elevation datum, rescaling time '
        '(conductivity and pumping against duration, porosity against duration), reordering wells or observations, splitting a '
        'well into two records, or rescaling all observation errors; the zone must map onto the zone, between a slightly '
        'smaller and a slightly larger umbra. Distinct by zone and relation.')
REQUIRE = {'pairs': 150, 'nodes_compared': 20000, 'move': 8, 'turn': 8, 'mirror': 8, 'datum': 8, 'time': 8, 'porosity': 8, 'wells_order': 8,
           'obs_order': 8, 'split': 8, 'errors': 8}
RELATIONS = ['move', 'turn', 'mirror', 'datum', 'time', 'porosity', 'wells_order', 'obs_order', 'split', 'errors']


def scale(d, s):
    if isinstance(d, (list, tuple)):
        return type(d)(v*s for v in d)
    return d*s


def transform(rng, d, how):
    """(arguments of the related run, target of it, node map (i, j) -> (i, j))"""
    k = {}
    xt, yt = d.sc.xt, d.sc.yt
    tgt = (xt, yt)
    ij = lambda i, j: (i, j)
    if how == 'move':
        if rng.random() < .5:
            ox, oy = float(rng.integers(-10**6, 10**6)), float(rng.integers(-5*10**6, 5*10**6))
        else:
            ox, oy = float(rng.uniform(-1e5, 1e5)), float(rng.uniform(-1e5, 1e5))
        if rng.random() < .5:                                  # across the axes
            ox, oy = -2*xt + float(rng.integers(-99, 99)), gen.pick(rng, [oy, -2*yt + float(rng.integers(-99, 99))])
        k['wells'] = [(w[0] + ox, w[1] + oy, w[2], w[3]) for w in d.wells]
        k['obs'] = [(o[0] + ox, o[1] + oy, o[2], o[3]) for o in d.obs]
        tgt = (xt + ox, yt + oy)
    elif how in ('turn', 'mirror'):
        m = int(rng.integers(1, 4)) if how == 'turn' else int(rng.integers(2))
        if how == 'turn':
            c, s = [(0, 1), (-1, 0), (0, -1)][m - 1]
            M = ((c, -s), (s, c))
        else:
            M = ((1, 0), (0, -1)) if m else ((-1, 0), (0, 1))
        f = lambda x, y: (xt + M[0][0]*(x - xt) + M[0][1]*(y - yt), yt + M[1][0]*(x - xt) + M[1][1]*(y - yt))
        k['wells'] = [(*f(w[0], w[1]), w[2], w[3]) for w in d.wells]
        k['obs'] = [(*f(o[0], o[1]), o[2], o[3]) for o in d.obs]
        ij = lambda i, j: (M[0][0]*i + M[0][1]*j, M[1][0]*i + M[1][1]*j)
    elif how == 'datum':
        c = gen.pick(rng, [100.0, -250.5, 37])
        k['base'] = d.base + c
        k['obs'] = [(o[0], o[1], o[2] + c, o[3]) for o in d.obs]
    elif how == 'time':
        s = gen.pick(rng, [2.0, .5, 4.0, 365.25, 1/86400*1000, 1e-6, d.duration*2, d.duration*30])
        k['c'] = scale(d.c, s)
        k['wells'] = [(w[0], w[1], w[2], scale(w[3], s)) for w in d.wells]
        k['duration'] = d.duration/s
    elif how == 'porosity':
        s = float(rng.uniform(.3, 2.0))
        k['p'] = scale(d.p, s)
        k['duration'] = d.duration*s
    elif how == 'wells_order':
        perm = [int(i) for i in rng.permutation(len(d.wells))]
        k['wells'] = [d.wells[i] for i in perm]
        k['target'] = perm.index(d.target)
    elif how == 'obs_order':
        k['obs'] = [d.obs[int(i)] for i in rng.permutation(len(d.obs))]
    elif how == 'split':
        i = int(rng.integers(len(d.wells)))
        f = float(rng.uniform(.2, .8))
        w = d.wells[i]
        k['wells'] = list(d.wells)
        k['wells'][i] = (w[0], w[1], w[2], scale(w[3], f))
        k['wells'].append((w[0], w[1], w[2], scale(w[3], 1 - f)))
    else:
        s = gen.pick(rng, [.25, .5, 3.0])
        k['obs'] = [(o[0], o[1], o[2], o[3]*s) for o in d.obs]
    return k, tgt, ij


def nodes(pf, o):
    i0, j0 = lattice(pf, *o)
    return {(int(i) + i0, int(j) + j0) for j, i in np.argwhere(pf.pgrid > 0)}


def pair(rng, ob, idx):
    how = RELATIONS[idx % len(RELATIONS)]
    confined = rng.random() < .5 or how == 'errors'
    sc = gen.Scenario(rng, confined=True if how == 'errors' else rng.random() < .6, noise=.1)
    d = Driver(rng, sc, confined, npaths=4 if how in ('turn', 'mirror') else gen.pick(rng, [1, 3, 4, 5]))
    if how == 'errors':
        # observation errors only rescale the weights where every observation is confined
        if min(o[2] - d.base for o in d.obs) < (d.t[-1] if isinstance(d.t, (list, tuple)) else d.t):
            ob.count('skipped')
            return
    if d.trapped(d.velocity()):
        ob.count('trapped')
        return
    k, tgt, ij = transform(rng, d, how)
    delta = .06
    small = create_deterministic_capturezone(*d.det(umbra=d.umbra*(1 - delta)))
    large = create_deterministic_capturezone(*d.det(umbra=d.umbra*(1 + delta)))
    other = create_deterministic_capturezone(*d.det(**k))
    S, G, O = nodes(small, (sc.xt, sc.yt)), nodes(large, (sc.xt, sc.yt)), nodes(other, tgt)
    S, G = {ij(*n) for n in S}, {ij(*n) for n in G}
    require(S <= O, '%s: %d nodes of %d are missing from the zone of the transformed problem, e.g. %r', how, len(S - O), len(S), sorted(S - O)[:2])
    require(O <= G, '%s: %d nodes of %d of the transformed problem are not in the zone, e.g. %r', how, len(O - G), len(O), sorted(O - G)[:2])
    ob.count('pairs')
    ob.count(how)
    ob.count('nodes_compared', len(G))
    ob.show({'relation': how, 'run': d.describe(), 'nodes': (len(S), len(O), len(G))})
    ob.nontrivial(how, sorted(O))


KINDS = {'pair': (pair, 240, 5000)}
