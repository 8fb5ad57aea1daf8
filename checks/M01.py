"""The discharge potential is the documented closed form, in every model state."""
import numpy as np
from oneka.model import Model
from fw import gen, ref
from fw.core import close, require

PROP = 'M01'
RULE = ('random aquifers, well fields (0-60 wells, either sign, shared locations, int/float records) and regional '
        'coefficients, then a history of state changes (coefficients, origin, wells replaced); evaluated at generic, '
        'well-hugging, axis-aligned, origin and far points. Non-trivial: at least one point compared; distinct by the '
        'evaluated potentials.')
REQUIRE = {'points': 1000, 'near_well_points': 50, 'state_changes': 50, 'asked_again': 500}


def points(rng, o, L, wells, n):
    out = []
    for i in range(n):
        m = rng.random()
        if wells and m < 0.3:
            w = gen.pick(rng, wells)
            d = gen.logu(rng, 1e-6, 30)
            t = rng.uniform(0, 2*np.pi)
            out.append((w[0] + d*np.cos(t), w[1] + d*np.sin(t), 'near'))
        elif wells and m < 0.4:
            w = gen.pick(rng, wells)
            d = gen.pick(rng, [1.0, 2, 25.5, 300])
            d = -d if rng.random() < .5 else d
            out.append((w[0], w[1] + d, 'aligned') if rng.random() < .5 else (w[0] + d, w[1], 'aligned'))
        elif m < 0.5:
            out.append((o[0], o[1], 'origin'))
        elif m < 0.6:
            out.append((o[0] + float(rng.normal())*100*L, o[1] + float(rng.normal())*100*L, 'far'))
        elif m < 0.7:
            out.append((int(o[0] + rng.uniform(-L, L)), int(o[1] + rng.uniform(-L, L)), 'int'))
        else:
            x, y = o[0] + rng.uniform(-L, L), o[1] + rng.uniform(-L, L)
            out.append((np.float64(x), np.float64(y), 'generic') if rng.random() < .5 else (float(x), float(y), 'generic'))
    return [p for p in out if all(np.hypot(p[0] - w[0], p[1] - w[1]) > 1e-7*(1 + 1e-2*abs(float(w[1]))) for w in wells)]


def random_model(rng, nwells=None):
    o = gen.origin(rng)
    L = gen.pick(rng, [1.0, 30.0, 500.0, 3000.0, 2e4])
    base, k, p, h = gen.aquifer(rng)
    wells = gen.well_list(rng, o, L, nwells)
    scale = gen.logu(rng, 1, 1e5)
    coef = gen.coef_any(rng, L, scale)
    m = rng.random()
    if m < 0.3:
        coef = list(coef)
    elif m < 0.5:
        coef = coef.reshape(6, 1)
    loc = o if rng.random() < 0.6 else (o[0] + L*rng.normal(), o[1] - L*rng.normal())
    if rng.random() < .1:
        loc = gen.pick(rng, [(loc[0], 0), (0, loc[1]), (loc[0], 0.0)])
    if m < 0.9:
        mo = Model(base, k, p, h, wells, loc[0], loc[1], coef)
    else:
        mo = Model(base, k, p, h, wells)
        mo.xo, mo.yo, mo.coef = loc[0], loc[1], coef
    st = {'o': o, 'L': L, 'base': base, 'k': k, 'p': p, 'h': h, 'wells': wells, 'xo': loc[0], 'yo': loc[1],
          'coef': np.ravel(np.array(coef, dtype=float)), 'scale': scale}
    return mo, st


def mutate(rng, mo, st):
    m = int(rng.integers(5))
    if m == 4 and len(st['wells']) and isinstance(mo.wells, list):
        # the model's own list is edited where it is
        st['wells'] = mo.wells
        i = int(rng.integers(len(st['wells'])))
        w = st['wells'][i]
        how = int(rng.integers(3))
        if how == 0:
            st['wells'][i] = (w[0], w[1], w[2], w[3]*1.5 + 3)
        elif how == 1:
            st['wells'][i] = (w[0] + 11.0, w[1] - 7.0, w[2], w[3])
        elif isinstance(w, list):
            w[3] = w[3]*.5 - 1
        else:
            st['wells'].append((w[0] - 5.0, w[1] + 3.0, w[2], 40.0))
    elif m == 0:
        st['coef'] = gen.coef_any(rng, st['L'], st['scale'])
        mo.coef = st['coef'].copy()
    elif m == 1:
        st['xo'], st['yo'] = st['o'][0] + st['L']*rng.normal(), st['o'][1] + st['L']*rng.normal()
        mo.xo, mo.yo = st['xo'], st['yo']
    elif m == 2:
        st['wells'] = gen.well_list(rng, st['o'], st['L'])
        mo.wells = st['wells']
    else:
        st['wells'] = [(a, b, c, q*2.5 + 1) for a, b, c, q in st['wells']]
        mo.wells = st['wells']


def potential(rng, ob, idx):
    mo, st = random_model(rng, 60 if idx % 20 == 0 else None)
    seen = []
    last = []
    for step in range(4):
        # some of the places of before, the very last one first
        again = [p for p in last if all(np.hypot(p[0] - w[0], p[1] - w[1]) > 1e-6*(1 + abs(float(w[1]))) for w in st['wells'])][-2:]
        ob.count('asked_again', len(again))
        last = again[::-1] + points(rng, st['o'], st['L'], st['wells'], 12)
        for x, y, how in last:
            v, m = ref.potential(st['coef'], st['xo'], st['yo'], st['wells'], x, y)
            got = mo.compute_potential(x, y)
            close(got, v, 1e-11*float(m) + 1e-13, 'potential at (%r, %r), %d wells' % (x, y, len(st['wells'])))
            vw, mw = ref.potential_wells(st['wells'], x, y)
            close(mo.compute_potential_wells_only(x, y), vw, 1e-11*float(mw) + 1e-13, 'wells-only potential at (%r, %r)' % (x, y))
            ob.count('points')
            ob.count('near_well_points', how == 'near')
            seen.append(float(got))
        mutate(rng, mo, st)
        ob.count('state_changes')
    ob.show({'wells': len(st['wells']), 'L': st['L'], 'origin': st['o'], 'potentials': seen[:4]})
    if seen:
        ob.nontrivial(np.array(seen))


KINDS = {'potential': (potential, 6000, 40000)}
