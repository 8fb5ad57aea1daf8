"""Growing the field keeps every node's place and contents, and covers what was asked."""
import math
import numpy as np
from oneka.probabilityfield import ProbabilityField
from fw import gen, ref
from fw.core import Violation, require
from fw.pf import spacing, umbra_for, track, geometry, World, same

PROP = 'P02'
RULE = ('histories of extent requests (inside, touching an edge node exactly, one side, two sides, far away, degenerate) on '
        'fields holding random accumulated and current contents; after each, the nodes stay on the lattice, keep their '
        'contents, cover the request with a node to spare, and growth is no more than needed. Distinct by the extents.')
REQUIRE = {'requests': 1000, 'grew': 300, 'unchanged': 200, 'edge': 100, 'left_or_bottom': 100, 'first': 30, 'far_requests': 20, 'about_zero': 30}


def growth(rng, ob, idx):
    dx, dy = spacing(rng)
    o = gen.origin(rng)
    located = rng.random() < .7
    pf = ProbabilityField(dx, dy, *o) if located else ProbabilityField(dx, dy)
    ext = []
    xo, yo = o if located else (None, None)
    for step in range(12):
        if xo is None:
            a, b = o[0] + dx*rng.normal()*5, o[1] + dy*rng.normal()*5
            box = (a, a + dx*gen.pick(rng, [0, .3, 1, 5.5, 20]), b, b + dy*gen.pick(rng, [0, .3, 1, 5.5, 20]))
            if rng.random() < .3:                            # about zero
                a, b = dx*gen.pick(rng, [.5, 2, 7.3, 10.0]), dy*gen.pick(rng, [.5, 2, 7.3])
                box = gen.pick(rng, [(-a, a, -b, b), (-a, a, box[2], box[3]), (box[0], box[1], -b, b), (0.0, a, 0.0, b), (-a, 0.0, -b, 0.0)])
                ob.count('about_zero')
        else:
            how = int(rng.integers(6))
            W, H = pf.xmax - pf.xmin, pf.ymax - pf.ymin
            if how == 0:                                     # strictly inside
                a, b = np.sort(rng.uniform(.1, .9, 2)), np.sort(rng.uniform(.1, .9, 2))
                box = (pf.xmin + W*a[0], pf.xmin + W*a[1], pf.ymin + H*b[0], pf.ymin + H*b[1])
            elif how == 1:                                   # an edge node exactly
                box = [pf.xmin + .3*W, pf.xmin + .6*W, pf.ymin + .3*H, pf.ymin + .6*H]
                e = int(rng.integers(4))
                box[e] = (pf.xmin, pf.xmax, pf.ymin, pf.ymax)[e]
                ob.count('edge')
            elif how in (2, 3):                              # one side
                box = [pf.xmin + .3*W, pf.xmin + .6*W, pf.ymin + .3*H, pf.ymin + .6*H]
                e = int(rng.integers(4))
                d = (dx, dx, dy, dy)[e]*gen.logu(rng, .01, 30)
                if rng.random() < .02 and (pf.nrows if e < 2 else pf.ncols) < 120:
                    d = (dx, dx, dy, dy)[e]*gen.logu(rng, 300, 6000)
                    ob.count('far_requests')
                box[e] = (pf.xmin - d, pf.xmax + d, pf.ymin - d, pf.ymax + d)[e]
            elif how == 4:                                   # around
                box = (pf.xmin - dx*rng.uniform(0, 5), pf.xmax + dx*rng.uniform(0, 5), pf.ymin - dy*rng.uniform(0, 5), pf.ymax + dy*rng.uniform(0, 5))
            else:                                            # elsewhere, a point
                a, b = pf.xmin + W*rng.normal()*2, pf.ymin + H*rng.normal()*2
                box = (a, a, b, b)
            if pf.ncols*pf.nrows > 60000 and how not in (0, 1):
                continue
        box = tuple(float(v) for v in box)
        first = xo is None
        if not first:
            before = World(pf, xo, yo)
            old = (pf.xmin, pf.xmax, pf.ymin, pf.ymax, pf.total_weight)
        pf.expand(*box)
        geometry(pf)
        ob.count('requests')
        for lo, hi, nm, a, b in ((pf.xmin, pf.xmax, 'x', box[0], box[1]), (pf.ymin, pf.ymax, 'y', box[2], box[3])):
            require(lo < a and b < hi, '%s: asked to cover %r to %r, the grid spans %r to %r', nm, a, b, lo, hi)
        if first:
            xo, yo = pf.xmin, pf.ymin
            require(not pf.pgrid.any() and not pf.rgrid.any() and pf.total_weight == 0, 'a new field is not empty')
            want = (box[0] - 2*dx, box[1] + 3*dx, box[2] - 2*dy, box[3] + 3*dy)
            ob.count('first')
        else:
            now = World(pf, xo, yo)
            same(before, now, 'p', 'accumulated probabilities while growing')
            same(before, now, 'r', 'current marks while growing')
            require(pf.total_weight == old[4], 'growing changed the total weight')
            require(now.i0 <= before.i0 and now.j0 <= before.j0 and now.i0 + pf.ncols >= before.i0 + before.p.shape[1]
                    and now.j0 + pf.nrows >= before.j0 + before.p.shape[0], 'the field shrank')
            want = (min(old[0], box[0] - 2*dx), max(old[1], box[1] + 2*dx), min(old[2], box[2] - 2*dy), max(old[3], box[3] + 2*dy))
            inside = old[0] < box[0] and box[1] < old[1] and old[2] < box[2] and box[3] < old[3]
            grew = now.p.shape != before.p.shape
            require(not (inside and grew), 'the field grew although the request %r lay inside %r', box, old[:4])
            ob.count('grew', grew)
            ob.count('unchanged', not grew)
            ob.count('left_or_bottom', now.i0 < before.i0 or now.j0 < before.j0)
        slack = 1e-6*max(dx, dy) + 1e-11*max(abs(o[0]), abs(o[1]))
        # no more than needed, unless that side had to grow
        require(pf.xmin >= want[0] - slack and pf.xmax <= want[1] + slack and pf.ymin >= want[2] - slack and pf.ymax <= want[3] + slack,
                'the grid %r is larger than the request %r needs', (pf.xmin, pf.xmax, pf.ymin, pf.ymax), box)
        ext.append((pf.nrows, pf.ncols))
        # new contents, written through the public interface
        m = int(rng.integers(3))
        if m == 0:
            how, p = track(rng, rng.uniform(pf.xmin, pf.xmax), rng.uniform(pf.ymin, pf.ymax), min(dx, dy))
            if len(p) < 50:
                pf.rasterize(p[:, 0], p[:, 1], max(dx, dy)*1.3)
        elif m == 1:
            pf.register(float(rng.uniform(.1, 2)))
        else:
            pf.rgrid[:] = rng.random(pf.rgrid.shape) < .3
            pf.pgrid[:] = np.where(rng.random(pf.pgrid.shape) < .3, rng.random(pf.pgrid.shape), pf.pgrid)
    ob.show({'spacing': (dx, dy), 'origin': o, 'extents': ext})
    ob.nontrivial(ext, dx, dy)


KINDS = {'growth': (growth, 2000, 12000)}
