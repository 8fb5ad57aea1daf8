"""The maps show the registered field where it lies, with the wells, the target and the observations; an empty field is refused."""
import math
import matplotlib.pyplot as plt
import matplotlib.path
import numpy as np
from oneka.probabilityfield import ProbabilityField
from oneka.visualize import create_probability_plot, create_deterministic_plot, create_impact_plot, CaptureZoneError
from fw import gen
from fw.core import Violation, require
from fw.runs import Contours, markers

PROP = 'V01'
FUEL = 2_000_000
RULE = ('probability fields of random shape, place, spacing and content (one or many weighted realizations), every plot drawn and '
        'the drawn artists compared with the field; smoothing against an independent kernel sum; empty fields. Distinct by field.')
REQUIRE = {'probability_maps': 60, 'smoothed': 20, 'zone_maps': 60, 'cells_filled': 800, 'cells_blank': 5000, 'impact_curves': 60,
           'refused': 40, 'empty_margin': 10, 'large_fields': 20, 'thresholds': 1000, 'earlier_plots': 100, 'full_fields': 10}


def field(rng, one=False):
    o = gen.origin(rng)
    s = gen.pick(rng, [1.0, 2.5, 10, 10.0, 50.0])
    pf = ProbabilityField(s, s, *o)
    for _ in range(1 if one else gen.pick(rng, [1, 2, 5, 9])):
        for _ in range(gen.pick(rng, [1, 2, 4])):
            n = gen.pick(rng, [2, 3, 5])
            x = o[0] + s*np.concatenate([[0], np.cumsum(rng.normal(size=n - 1)*gen.pick(rng, [1, 3, 5]))])
            y = o[1] + s*np.concatenate([[0], np.cumsum(rng.normal(size=n - 1)*gen.pick(rng, [1, 3]))])
            pf.rasterize(list(x), list(y), s*gen.pick(rng, [.75, 1.0, 1.6]))
        pf.register(gen.pick(rng, [1.0, 1.0, 1e-7, 300.0]) if one else gen.pick(rng, [1.0, 1, .5, 2.25, 1e-7]))
    if rng.random() < .35 and min(pf.nrows, pf.ncols) > 4:     # ground on the rim of the grids
        for _ in range(gen.pick(rng, [1, 3])):
            x, y = gen.pick(rng, [pf.xmin, pf.xmax]), gen.pick(rng, [pf.ymin, pf.ymax])
            u, v = float(rng.uniform(pf.xmin, pf.xmax)), float(rng.uniform(pf.ymin, pf.ymax))
            if rng.random() < .5:
                pf.insert(x, v, x, y, .7*s)
            else:
                pf.insert(u, y, x, y, .7*s)
        pf.register(1.0)
    if rng.random() < .15:                                     # many realizations that captured nothing
        pf.register(gen.pick(rng, [20.0, 200.0, 5000.0]))
    return pf, o, s


def company(rng, o, s):
    n = gen.pick(rng, [1, 2, 5])
    wells = [(o[0] + float(rng.normal())*10*s, o[1] + float(rng.normal())*10*s, .25, (1, 2)) for _ in range(n)]
    t = int(rng.integers(n))
    wells[t] = (o[0], o[1], .25, 100.0)
    obs = [(o[0] + float(rng.normal())*20*s, o[1] + float(rng.normal())*20*s, 10.0, 1.0) for _ in range(gen.pick(rng, [7, 12]))]
    return t, wells, obs


def snapshot(pf):
    return (pf.xmin, pf.xmax, pf.ymin, pf.ymax, pf.nrows, pf.ncols, pf.total_weight, pf.pgrid.tobytes(), pf.rgrid.tobytes())


def earlier(rng, ob):
    """The session has drawn something else before, and left it open."""
    plt.close('all')
    for _ in range(gen.pick(rng, [0, 0, 1, 1, 2])):
        pf, o, s = field(rng, one=rng.random() < .5)
        if pf.nrows*pf.ncols > 2000:
            continue
        t, wells, obs = company(rng, o, s)
        how = int(rng.integers(3))
        if how == 0:
            create_probability_plot(t, wells, obs, pf, gen.pick(rng, [0, 1]))
        elif how == 1:
            create_deterministic_plot(t, wells, obs, pf)
        else:
            create_impact_plot(s, pf)
        ob.count('earlier_plots')


def symbols(ax, t, wells, obs, s):
    ms = markers(ax)
    need = {'the wells': sorted((float(w[0]), float(w[1])) for w in wells), 'the observations': sorted((float(b[0]), float(b[1])) for b in obs)}
    for what, pts in need.items():
        seen = [p for _, ps in ms for p in ps]
        for p in pts:
            require(p in seen, 'no marker at %r, one of %s', p, what)
    # the target has a symbol of its own
    own = [m for m, ps in ms if ps == [(float(wells[t][0]), float(wells[t][1]))]]
    others = [m for m, ps in ms if ps == need['the wells']] if len(wells) > 1 else []
    require(own and (not others or any(m not in others or m == '?' for m in own)), 'the target well has no symbol of its own')
    known = set(need['the wells']) | set(need['the observations'])
    stray = [p for _, ps in ms for p in ps if p not in known]
    require(not stray, 'markers at %r, where there is neither a well nor an observation', stray[:3])


def kernel(Z, sigma):
    """Sum of Gaussian kernels, nothing beyond the grid."""
    r = int(4*sigma + .5)
    w = [math.exp(-.5*(k/sigma)**2) for k in range(-r, r + 1)]
    w = np.array(w)/sum(w)
    pad = np.pad(Z, r)
    out = np.zeros((Z.shape[0], pad.shape[1]))
    for k in range(2*r + 1):
        out += w[k]*pad[k:k + Z.shape[0], :]
    res = np.zeros(Z.shape)
    for k in range(2*r + 1):
        res += w[k]*out[:, k:k + Z.shape[1]]
    return res


def georeferenced(X, Y, Z, pf, want, tol, what):
    require(X.shape == Y.shape == Z.shape, '%s: coordinates %r for values %r', what, X.shape, Z.shape)
    P = want
    i0 = np.rint((X - pf.xmin)/pf.deltax).astype(int)
    j0 = np.rint((Y - pf.ymin)/pf.deltay).astype(int)
    e = max(np.abs(X - (pf.xmin + i0*pf.deltax)).max()/pf.deltax, np.abs(Y - (pf.ymin + j0*pf.deltay)).max()/pf.deltay)
    require(e < 1e-3, '%s: drawn at places %r of a cell off the nodes of the field', what, float(e))
    require(i0.min() == 0 and i0.max() == P.shape[1] - 1 and j0.min() == 0 and j0.max() == P.shape[0] - 1 and Z.size == P.size,
            '%s: the drawn extent %r..%r, %r..%r is not the extent of the field', what, X.min(), X.max(), Y.min(), Y.max())
    d = np.abs(Z - P[j0, i0])
    if not (d <= tol).all():
        k = np.unravel_index(int(np.argmax(np.where(np.isnan(d), np.inf, d))), d.shape)
        raise Violation('%s: at (%r, %r) the map shows %r, the field holds %r' % (what, X[k], Y[k], Z[k], P[j0, i0][k]))


def probability(rng, ob, idx):
    pf, o, s = field(rng)
    t, wells, obs = company(rng, o, s)
    earlier(rng, ob)
    before = snapshot(pf)
    sigma = gen.pick(rng, [0, 0, .8, 1, 2.5, 4, .4, .46])
    with Contours() as c:
        if sigma == 0 and rng.random() < .4:
            create_probability_plot(t, wells, obs, pf)
        else:
            create_probability_plot(t, wells, obs, pf, sigma)
    require(snapshot(pf) == before, 'plotting changed the field')
    require(len(c.filled) >= 1, 'no filled contours were drawn')
    P = pf.pgrid/pf.total_weight
    want = kernel(P, sigma) if sigma else P
    for ax, X, Y, Z, levels in c.filled + c.lines:
        georeferenced(X, Y, Z, pf, want, 1e-9 if not sigma else 2e-3, 'probability map')
        require(-1e-9 <= Z.min() and Z.max() <= 1 + 1e-9, 'a probability of %r..%r is shown', Z.min(), Z.max())
        require(levels[0] >= 0 and levels[-1] <= 1, 'contour levels %r', levels)
    ax, X, Y, Z, levels = c.filled[0]
    require(levels[0] == 0 and levels[-1] == 1 and len(levels) >= 5, 'the filled levels %r do not span the probabilities', levels)
    symbols(ax, t, wells, obs, s)
    ob.count('probability_maps')
    ob.count('smoothed', sigma > 0)
    ob.show({'origin': o, 'spacing': s, 'grid': P.shape, 'smooth': sigma, 'weight': pf.total_weight})
    ob.nontrivial(pf.pgrid, sigma, o)


def zone(rng, ob, idx):
    pf, o, s = field(rng, one=rng.random() < .7)
    if pf.nrows*pf.ncols > 3000:
        ob.count('too_large')
        return
    t, wells, obs = company(rng, o, s)
    earlier(rng, ob)
    before = snapshot(pf)
    area = create_deterministic_plot(t, wells, obs, pf)
    require(snapshot(pf) == before, 'plotting changed the field')
    on = pf.pgrid > 0
    want = int(on.sum())*float(s)**2
    require(abs(float(area) - want) <= 1e-6*want, 'the reported area is %r; %d cells of %r make %r', area, on.sum(), s, want)
    ax = plt.gcf().axes[0]
    x = pf.xmin + np.arange(pf.ncols)*s
    y = pf.ymin + np.arange(pf.nrows)*s
    XX, YY = np.meshgrid(x, y)
    polys = [p.get_path().transformed(p.get_patch_transform()) for p in ax.patches]
    for c in ax.collections:                               # drawn together
        if type(c).__name__ in ('PolyCollection', 'PatchCollection'):
            polys += list(c.get_paths())
    for dx, dy in ((0, 0), (.45, .45), (-.45, .45), (.45, -.45), (-.45, -.45)):
        pts = np.column_stack([(XX + dx*s).ravel(), (YY + dy*s).ravel()])
        cov = np.zeros(len(pts), dtype=bool)
        for p in polys:
            b = p.get_extents()
            k = np.flatnonzero((pts[:, 0] >= b.x0) & (pts[:, 0] <= b.x1) & (pts[:, 1] >= b.y0) & (pts[:, 1] <= b.y1))
            if len(k):
                v = p.vertices - [b.x0, b.y0]
                cov[k] |= matplotlib.path.Path(v, p.codes).contains_points(pts[k] - [b.x0, b.y0])
        cov = cov.reshape(on.shape)
        if (cov != on).any():
            k = tuple(np.argwhere(cov != on)[0])
            raise Violation('the cell of node (%r, %r) is %s, the field says %s'
                            % (XX[k], YY[k], 'filled' if cov[k] else 'blank', 'captured' if on[k] else 'not captured'))
    for p in polys:
        b = p.get_extents()
        require(b.x0 >= x[0] - .5*s*(1 + 1e-6) and b.x1 <= x[-1] + .5*s*(1 + 1e-6) and b.y0 >= y[0] - .5*s*(1 + 1e-6)
                and b.y1 <= y[-1] + .5*s*(1 + 1e-6), 'ground beyond the field is filled: %r', b)
    symbols(ax, t, wells, obs, s)
    ob.count('zone_maps')
    ob.count('cells_filled', on.sum())
    ob.count('cells_blank', (~on).sum())
    ob.show({'origin': o, 'spacing': s, 'grid': on.shape, 'area': float(area)})
    ob.nontrivial(on, o)


def impact(rng, ob, idx):
    pf, o, s = field(rng, one=rng.random() < .3)
    if rng.random() < .3:                                      # most of the field is empty
        k = s*gen.pick(rng, [5, 25, 60])
        pf.expand(pf.xmin - k, pf.xmax + k*rng.random(), pf.ymin - k*rng.random(), pf.ymax + k)
    elif rng.random() < .15:                                   # none of it is
        pf.insert(pf.xmin, pf.ymin, pf.xmax, pf.ymax, pf.xmax - pf.xmin + pf.ymax - pf.ymin)
        pf.register(gen.pick(rng, [1.0, .25]))
        ob.count('full_fields')
    earlier(rng, ob)
    before = snapshot(pf)
    pr, area = create_impact_plot(s, pf)
    require(snapshot(pf) == before, 'plotting changed the field')
    pr, area = np.asarray(pr, dtype=float), np.asarray(area, dtype=float)
    P = (pf.pgrid/pf.total_weight).ravel()
    require(pr.shape == area.shape == P.shape, 'curve of %r and %r points for %r nodes', pr.shape, area.shape, P.shape)
    require(np.all(np.diff(pr) <= 0) and np.all(np.diff(area) > 0), 'the curve is not monotone')
    a = float(s)**2
    for p in list(np.unique(P)) + list(rng.random(10)):
        exact = int((P > p + 1e-12).sum())
        said = int(round(float(area[pr > p + 1e-12].max(initial=0))/a))
        require(said == exact, 'the probability exceeds %r over %d cells, the curve says %d', p, exact, said)
        ob.count('thresholds')
    require(abs(area[-1] - P.size*a) < 1e-6*area[-1], 'the whole field has area %r, the curve ends at %r', P.size*a, area[-1])
    ax = plt.gcf().axes[0]
    x = np.concatenate([np.asarray(l.get_xdata(), dtype=float) for l in ax.lines])
    y = np.concatenate([np.asarray(l.get_ydata(), dtype=float) for l in ax.lines])
    require(len(x), 'the impact plot is empty')
    for u, v in zip(x, y):
        n_lo, n_hi = int((P > u + 1e-12).sum()), int((P >= u - 1e-12).sum())
        require(n_lo*a/4046.86*(1 - 1e-6) <= v <= n_hi*a/4046.86*(1 + 1e-6), 'the plot shows %r acres at probability %r; the field has %r to %r',
                v, u, n_lo*a/4046.86, n_hi*a/4046.86)
    for p in np.unique(P[P > 0]):
        at = np.abs(x - p) < 1e-12
        require(at.any(), 'the plot leaves out the probability %r', p)
        want = int((P >= p - 1e-12).sum())*a/4046.86
        require(abs(y[at].max() - want) <= 1e-6*want, 'at probability %r the plot reaches %r acres, the field has %r', p, y[at].max(), want)
        ob.count('below_an_acre', want < 1)
    ob.count('impact_curves')
    ob.count('large_fields', P.size >= 2500)
    ob.count('empty_margin', (P > 0).sum()*2 < P.size)
    ob.show({'spacing': s, 'nodes': P.size, 'levels': sorted(set(np.round(P, 6)))[:6], 'plotted': len(x)})
    ob.nontrivial(np.sort(P), s)


def empty(rng, ob, idx):
    pf, o, s = field(rng)
    e = ProbabilityField(s, s, *o)
    e.expand(o[0] - 3*s, o[0] + 5*s, o[1] - 2*s, o[1] + s)
    if rng.random() < .5:
        e.rasterize([o[0], o[0] + s], [o[1], o[1]], s)          # traced, but never registered
    t, wells, obs = company(rng, o, s)
    for f in (lambda: create_probability_plot(t, wells, obs, e, gen.pick(rng, [0, 2])), lambda: create_deterministic_plot(t, wells, obs, e),
              lambda: create_impact_plot(s, e)):
        try:
            r = f()
        except CaptureZoneError:
            ob.count('refused')
            continue
        raise Violation('a field with no realization was plotted (%r)' % (r,))
    ob.nontrivial(o, s)


KINDS = {'probability': (probability, 210, 1200), 'zone': (zone, 240, 1200), 'impact': (impact, 270, 2000), 'empty': (empty, 60, 100)}
