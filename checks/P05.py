"""Impossible geometry is refused and leaves the field untouched."""
import numpy as np
from oneka.probabilityfield import ProbabilityField, RangeError
from fw import gen, ref
from fw.core import Violation, require
from fw.pf import spacing, track, geometry

PROP = 'P05'
RULE = ('non-positive spacings in either or both directions, and inverted extents (either axis, from one ulp to large, inside, '
        'outside or overlapping the grid) sent to populated, empty and unlocated fields between valid operations: each must '
        'raise the documented range error with the field bit-for-bit unchanged. Distinct by the refused arguments.')
REQUIRE = {'refused_spacing': 200, 'refused_extent': 500, 'accepted': 200}


def snapshot(pf):
    out = []
    for k in sorted(vars(pf)):
        v = vars(pf)[k]
        out.append((k, v.tobytes() if isinstance(v, np.ndarray) else repr(v)))
    return out


def spacing_case(rng, ob, idx):
    for t in range(20):
        bad = gen.pick(rng, [0, 0.0, -0.0, -1, -1e-12, -5e-324, -25.0, -np.inf])
        good = gen.pick(rng, [1, 0.5, 10.0, 1e-3])
        args = gen.pick(rng, [(bad, good), (good, bad), (bad, bad)])
        if rng.random() < .6:
            args += gen.origin(rng)
        try:
            pf = ProbabilityField(*args)
        except RangeError:
            ob.count('refused_spacing')
        else:
            raise Violation('a field with spacing %r was created: %r' % (args[:2], pf))
        pf = ProbabilityField(good, good, *args[2:])
        require(pf.deltax == good and pf.deltay == good, 'spacing %r stored as %r, %r', good, pf.deltax, pf.deltay)
        ob.count('accepted')
        ob.nontrivial(args, t)


def extent_case(rng, ob, idx):
    dx, dy = spacing(rng)
    o = gen.origin(rng)
    pf = ProbabilityField(dx, dy, *o) if rng.random() < .7 else ProbabilityField(dx, dy)
    args = []
    for t in range(10):
        a, b = o[0] + dx*rng.normal()*6, o[1] + dy*rng.normal()*6
        w, h = dx*gen.pick(rng, [0, .5, 3, 10]), dy*gen.pick(rng, [0, .5, 3, 10])
        box = [float(a), float(a + w), float(b), float(b + h)]
        e = gen.pick(rng, [(0,), (1,), (0, 1)])
        bad = list(box)
        for q in e:
            d = gen.pick(rng, [None, 1e-6, 1.0, 50.0])
            bad[2*q] = np.nextafter(bad[2*q + 1], np.inf) if d is None else bad[2*q + 1] + d*(dx, dy)[q]
        before = snapshot(pf)
        try:
            pf.expand(*bad)
        except RangeError:
            ob.count('refused_extent')
        else:
            raise Violation('the inverted extent %r was accepted' % (bad,))
        require(snapshot(pf) == before, 'refusing the extent %r changed the field', bad)
        args.append(tuple(float(v) for v in bad))
        pf.expand(*box)
        geometry(pf)
        ob.count('accepted')
        pf.rgrid[rng.random(pf.rgrid.shape) < .2] = True
        if rng.random() < .4:
            pf.register(1.0)
    ob.show({'refused': args[:3]})
    ob.nontrivial(args)


KINDS = {'spacing': (spacing_case, 240, 300), 'extent': (extent_case, 1200, 4000)}
