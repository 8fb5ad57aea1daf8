"""The discharge vector is the negative potential gradient and balances water."""
import numpy as np
from fw import gen, ref
from fw.core import Violation, close, require
from checks.M01 import random_model, points, mutate

PROP = 'M02'
RULE = ('random models as for M01; the observed discharge vectors are compared with the closed form, with eighth-order '
        'central differences of the observed potential, and integrated around closed circles for the water balance '
        '(wells inside/outside, none on the contour). Non-trivial: at least one vector or contour decided; distinct by '
        'the observed vectors.')
REQUIRE = {'vectors': 1000, 'gradients': 200, 'contours': 100, 'contours_enclosing_wells': 40}

W8 = [(1, 4/5), (2, -1/5), (3, 4/105), (4, -1/280)]


def vectors(rng, ob, idx):
    mo, st = random_model(rng, 60 if idx % 20 == 0 else None)
    seen = []
    for step in range(3):
        for x, y, how in points(rng, st['o'], st['L'], st['wells'], 10):
            (qx, qy), m = ref.discharge(st['coef'], st['xo'], st['yo'], st['wells'], x, y)
            Q = mo.compute_discharge(x, y)
            require(len(Q) == 2, 'discharge has %d components', len(Q))
            close(Q[0], qx, 1e-11*float(m) + 1e-14, 'Qx at (%r, %r), %d wells' % (x, y, len(st['wells'])))
            close(Q[1], qy, 1e-11*float(m) + 1e-14, 'Qy at (%r, %r), %d wells' % (x, y, len(st['wells'])))
            ob.count('vectors')
            seen += [float(Q[0]), float(Q[1])]
            # The observed potential's own gradient.
            d = min([np.hypot(x - w[0], y - w[1]) for w in st['wells']] + [st['L']])
            s = 0.03*d
            if s < 1e-3*max(1.0, abs(float(y))*1e-6):
                continue
            pm = max(float(ref.potential(st['coef'], st['xo'], st['yo'], st['wells'], x + a*s, y + b*s)[1])
                     for a in (-4, 0, 4) for b in (-4, 0, 4))
            tol = 1e-7*float(m) + 40*2.3e-16*pm/s + 40*2.3e-16*max(abs(float(x)), abs(float(y)))/s*float(m)
            for axis in (0, 1):
                g = 0.0
                for j, c in W8:
                    a = (x + j*s, y) if axis == 0 else (x, y + j*s)
                    b = (x - j*s, y) if axis == 0 else (x, y - j*s)
                    g += c*(mo.compute_potential(*a) - mo.compute_potential(*b))
                close(Q[axis], -g/s, tol, 'Q[%d] against the gradient of the observed potential at (%r, %r)' % (axis, x, y))
            ob.count('gradients')
        mutate(rng, mo, st)
    ob.show({'wells': len(st['wells']), 'discharges': seen[:6]})
    if seen:
        ob.nontrivial(np.array(seen))


def contours(rng, ob, idx):
    mo, st = random_model(rng)
    wells = st['wells']
    seen = []
    for tries in range(12):
        if wells and rng.random() < 0.7:
            w = gen.pick(rng, wells)
            c, R = (w[0] + 0.0, w[1] + 0.0), gen.logu(rng, 1e-2*st['L'], st['L'])
        else:
            c = (st['o'][0] + st['L']*rng.normal(), st['o'][1] + st['L']*rng.normal())
            R = gen.logu(rng, 0.05*st['L'], 2*st['L'])
        if any(abs(np.hypot(c[0] - w[0], c[1] - w[1])/R - 1) < 0.12 for w in wells):
            continue
        if R < 1e-8*max(abs(c[0]), abs(c[1])):
            continue
        n = 360
        flux = mag = 0.0
        for t in np.arange(n)*2*np.pi/n:
            Q = mo.compute_discharge(c[0] + R*np.cos(t), c[1] + R*np.sin(t))
            flux += float(Q[0]*np.cos(t) + Q[1]*np.sin(t))
            mag += abs(float(Q[0])) + abs(float(Q[1]))
        flux *= 2*np.pi*R/n
        mag *= 2*np.pi*R/n
        enclosed = [w for w in wells if np.hypot(c[0] - w[0], c[1] - w[1]) < R]
        want = -sum(w[3] for w in enclosed) - 2*(st['coef'][0] + st['coef'][1])*np.pi*R*R
        close(flux, want, 1e-8*mag + 1e-10 + 1e-9*sum(abs(w[3]) for w in wells),
              'net outflow through a circle of radius %.4g around %r enclosing %d wells' % (R, c, len(enclosed)))
        ob.count('contours')
        ob.count('contours_enclosing_wells', bool(enclosed))
        seen.append(flux)
    if seen:
        ob.show({'wells': len(wells), 'net_outflows': seen[:4]})
        ob.nontrivial(np.array(seen))


KINDS = {'vectors': (vectors, 1000, 15000), 'contours': (contours, 500, 6000)}
