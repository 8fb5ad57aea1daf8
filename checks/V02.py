"""The head and potential maps show the model's head and potential at every grid point, and nothing where the aquifer is dry."""
import numpy as np
from oneka.model import Model
from oneka.visualize import contour_head, contour_potential, quick_capture_zone
from fw import gen, ref
from fw.core import Finding, require
from fw.runs import Contours

PROP = 'V02'
FUEL = 2_000_000
RULE = ('random models and windows of 2 to 25 rows and columns, with and without dry ground, drawn values compared node by node '
        'with the closed form. Distinct by map.')
REQUIRE = {'maps': 150, 'values': 8000, 'dry': 300, 'with_dry': 30, 'oblong': 80, 'exactly_zero': 100, 'fine': 10}


def maps(rng, ob, idx):
    o = gen.origin(rng)
    L = gen.pick(rng, [100.0, 1000.0])
    base, k, p, h = gen.aquifer(rng)
    wells = gen.well_list(rng, o, L, n=gen.pick(rng, [0, 1, 3]))
    mo = Model(base, k, p, h, wells)
    scale = .5*k*h*h
    coef = gen.coef_any(rng, L, scale)
    coef[5] = scale*float(rng.uniform(-1, 4))
    nr, nc = int(rng.integers(2, 26)), int(rng.integers(2, 26))
    if idx % 30 == 0:                                       # a fine map
        nr, nc = [(2, 130), (280, 2), (70, 66), (3, 301), (300, 3), (100, 100), (2, 540), (1100, 2), (3, 270), (2, 1050)][idx//30 % 10]
        ob.count('fine')
    x0, y0 = o[0] + float(rng.uniform(-1, .5))*L, o[1] + float(rng.uniform(-1, .5))*L
    x1, y1 = x0 + float(rng.uniform(.2, 1))*L, y0 + float(rng.uniform(.2, 1))*L
    X, Y = np.linspace(x0, x1, nc), np.linspace(y0, y1, nr)
    mid = float(np.median([float(ref.potential(coef, o[0], o[1], wells, x, y)[0]) for x in X[::5] for y in Y[::5]]))
    coef[5] += scale*float(rng.uniform(-.3, 2.5)) - mid
    mo.coef, mo.xo, mo.yo = coef, o[0], o[1]
    want = np.full((nr, nc), np.nan)
    sure = np.ones((nr, nc), dtype=bool)
    heads = rng.random() < .6
    tol = np.zeros((nr, nc))
    for i in range(nr):
        for j in range(nc):
            pot, err = ref.potential(coef, o[0], o[1], wells, X[j], Y[i])
            pot, err = float(pot), 1e-9*(float(err) + scale)
            if not heads:
                want[i, j], tol[i, j] = pot, err
            elif abs(pot) <= err:
                sure[i, j] = False
            elif pot > 0:
                want[i, j] = float(ref.head_of_potential(pot, k, h))
                lo = float(ref.head_of_potential(max(pot - err, 0), k, h))
                tol[i, j] = 2*abs(want[i, j] - lo) + 1e-9*h
    if np.isnan(want).all() or not sure.all():
        ob.count('skipped')
        return
    state = (tuple(np.ravel(mo.coef)), mo.xo, mo.yo)
    with Contours() as c:
        (contour_head if heads else contour_potential)(mo, x0, x1, y0, y1, nr, nc)
    require(len(c.filled) == 1, '%d filled maps drawn', len(c.filled))
    _, GX, GY, Z, _ = c.filled[0]
    require(Z.shape == GX.shape == GY.shape, 'shapes %r %r', Z.shape, GX.shape)
    require(sorted(Z.shape) == sorted((nr, nc)), 'a map of %r nodes, %r requested', Z.shape, (nr, nc))
    e = 1e-9*(abs(o[0]) + abs(o[1]) + L)
    j = np.abs(GX[:, :, None] - X).argmin(2)
    i = np.abs(GY[:, :, None] - Y).argmin(2)
    require(np.abs(GX - X[j]).max() < e and np.abs(GY - Y[i]).max() < e, 'the map is not drawn on the requested window')
    require(len(set(zip(i.ravel(), j.ravel()))) == nr*nc, 'the map does not cover the requested window')
    W, T = want[i, j], tol[i, j]
    dry = np.isnan(W)
    require(np.array_equal(np.isnan(Z), dry), 'the map is blank at %d nodes, the aquifer is dry at %d', np.isnan(Z).sum(), dry.sum())
    bad = np.abs(np.where(dry, 0, Z - np.where(dry, 0, W))) > T
    if bad.any():
        q = tuple(np.argwhere(bad)[0])
        require(False, 'at (%r, %r) the map shows %r, the model says %r', GX[q], GY[q], Z[q], W[q])
    require((tuple(np.ravel(mo.coef)), mo.xo, mo.yo) == state, 'drawing changed the model')
    ob.count('maps')
    ob.count('values', (~dry).sum())
    ob.count('dry', dry.sum())
    ob.count('with_dry', dry.any())
    ob.count('oblong', nr != nc)
    ob.show({'head': heads, 'window': (x0, x1, y0, y1), 'nodes': (nr, nc), 'dry': int(dry.sum())})
    ob.nontrivial(W)


class Well:
    def __init__(self, x, y, radius):
        self.x, self.y, self.radius = x, y, radius


def quick(rng, ob, idx):
    mo = Model(0.0, 20.0, .2, 10.0, [(0.0, 0.0, .25, 500.0)])
    mo.coef = np.array([0, 0, 0, -.2, 0, 6000.0])
    try:
        quick_capture_zone(mo, Well(0.0, 0.0, .25), 3, 1, 10.0, '-r')
    except AttributeError as e:
        raise Finding('quick_capture_zone-AttributeError', 'quick_capture_zone: %s' % e)


def exact(rng, ob, idx):
    """No wells and whole numbers: the potential is exactly zero on whole rows, columns or diagonals."""
    o = gen.pick(rng, [(0, 0), (0.0, 0.0), (1000.0, -200.0)])
    k, h = gen.pick(rng, [(2.0, 4.0), (1.0, 2.0), (8, 2)])
    mo = Model(gen.pick(rng, [0.0, 100, -30.0]), k, .25, h, [])
    a, b = [int(v) for v in rng.integers(-3, 4, 2)]
    c = int(rng.integers(-3, 4))
    if a == b == 0:
        a = 1
    s = 2.0**-gen.pick(rng, [0, 0, 0, 8, 16, 30])             # down to a film of water
    mo.coef, mo.xo, mo.yo = np.array([0., 0., 0., a*s, b*s, c*s]), o[0], o[1]
    nr, nc = int(rng.integers(3, 12)), int(rng.integers(3, 12))
    x0, y0 = o[0] - int(rng.integers(0, nc)), o[1] - int(rng.integers(0, nr))
    X, Y = x0 + np.arange(nc, dtype=float), y0 + np.arange(nr, dtype=float)
    pot = a*(X[None, :] - o[0]) + b*(Y[:, None] - o[1]) + c
    pot = pot*s
    heads = rng.random() < .7
    want = pot
    if heads:
        want = np.array([[float(ref.head_of_potential(q, k, h)) if q > 0 else np.nan for q in r] for r in pot])
    if np.isnan(want).all():
        ob.count('skipped')
        return
    with Contours() as cc:
        (contour_head if heads else contour_potential)(mo, x0, x0 + nc - 1, y0, y0 + nr - 1, nr, nc)
    require(len(cc.filled) == 1, '%d filled maps drawn', len(cc.filled))
    _, GX, GY, Z, _ = cc.filled[0]
    require(Z.shape == want.shape, 'a map of %r nodes, %r requested', Z.shape, want.shape)
    bad = ~((np.isnan(Z) & np.isnan(want)) | (np.abs(Z - want) <= 1e-9*np.abs(want)))
    if bad.any():
        q = tuple(np.argwhere(bad)[0])
        require(False, 'at (%r, %r), where the potential is %r, the map shows %r instead of %r', GX[q], GY[q], pot[q], Z[q], want[q])
    ob.count('maps')
    ob.count('values', np.isfinite(want).sum())
    ob.count('dry', np.isnan(want).sum())
    ob.count('exactly_zero', (pot == 0).sum())
    ob.nontrivial(want, heads)


KINDS = {'maps': (maps, 900, 4000), 'exact': (exact, 120, 1000), 'quick': (quick, 1, 1)}
