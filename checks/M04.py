"""Seepage velocity is discharge over saturated thickness and porosity."""
import numpy as np
from oneka.model import Model, AquiferError
from fw import gen, ref
from fw.core import Violation, close, require
from checks.M01 import random_model, points

PROP = 'M04'
RULE = ('random models scaled so that confined, unconfined and dry locations all occur; both velocity evaluations are '
        'observed at each point and judged against the closed-form discharge, head and porosity. Non-trivial: a velocity '
        'or a dry signal was decided; distinct by the observed velocities.')
REQUIRE = {'unconfined': 300, 'confined': 300, 'dry': 100, 'agree': 300}


def velocity(rng, ob, idx):
    mo, st = random_model(rng)
    seen = []
    for step in range(3):
        _, st['k'], st['p'], st['h'] = gen.aquifer(rng)
        mo.conductivity, mo.porosity, mo.thickness = st['k'], st['p'], st['h']
        crit = 0.5*st['k']*st['h']**2
        st['coef'][5] = crit*float(gen.pick(rng, [-0.5, 0.05, 0.3, 0.9, 1.0, 1.1, 5.0]))
        sc = crit*gen.logu(rng, 1e-2, 2)
        st['coef'][:5] *= sc/st['scale']
        st['wells'] = [(w[0], w[1], w[2], w[3]*sc/5000) for w in st['wells']]
        st['scale'] = sc
        mo.coef, mo.wells = st['coef'].copy(), st['wells']
        for x, y, how in points(rng, st['o'], st['L'], st['wells'], 10):
            (qx, qy), qm = ref.discharge(st['coef'], st['xo'], st['yo'], st['wells'], x, y)
            pot, pm = ref.potential(st['coef'], st['xo'], st['yo'], st['wells'], x, y)
            k, p, h = st['k'], st['p'], st['h']
            where = 'at (%r, %r), k=%r p=%r H=%r' % (x, y, k, p, h)
            Vc = mo.compute_velocity_confined(x, y)
            for a in (0, 1):
                close(Vc[a], (qx, qy)[a]/(ref.LD(h)*ref.LD(p)), 1e-11*float(qm)/(h*p) + 1e-300, 'confined V[%d] %s' % (a, where))
            seen += [float(Vc[0]), float(Vc[1])]
            if abs(pot) < 1e-8*pm:
                ob.count('ambiguous')
                continue
            try:
                V = mo.compute_velocity(x, y)
            except AquiferError:
                V = None
            if pot <= 0:
                require(V is None, 'velocity %r reported where the aquifer is dry, %s', V, where)
                ob.count('dry')
                continue
            require(V is not None, 'dry reported where the potential is %r, %s', float(pot), where)
            head = ref.head_of_potential(pot, k, h)
            b = min(head, ref.LD(h))
            rel = 1e-11 + 1e-11*float(pm/pot)
            for a in (0, 1):
                close(V[a], (qx, qy)[a]/(b*ref.LD(p)), 4*rel*float(qm/(b*p)) + 1e-300, 'V[%d] %s' % (a, where))
            if head >= h*(1 + 1e-9):
                for a in (0, 1):
                    close(Vc[a], float(V[a]), 1e-10*float(qm)/(h*p), 'the two velocities where confined %s' % where)
                ob.count('agree')
                ob.count('confined')
            else:
                ob.count('unconfined')
            seen += [float(V[0]), float(V[1])]
    ob.show({'k': st['k'], 'p': st['p'], 'H': st['h'], 'velocities': seen[:6]})
    ob.nontrivial(np.array(seen))


def transition(rng, ob, idx):
    """Uniform flow with the potential pinned to the confined/unconfined limit."""
    base, k, p, h = gen.aquifer(rng)
    crit = 0.5*k*h**2
    g = rng.normal(size=2)*crit/100
    for f in [1 - 1e-6, 1 - 1e-12, 1.0, 1 + 1e-12, 1 + 1e-6, gen.logu(rng, 1e-6, 1), gen.logu(rng, 1, 1e4)]:
        mo = Model(base, k, p, h, [], 5.0, -3.0, [0, 0, 0, g[0], g[1], crit*f])
        V, Vc = mo.compute_velocity(5.0, -3.0), mo.compute_velocity_confined(5.0, -3.0)
        b = min(float(ref.head_of_potential(crit*f, k, h)), h)
        for a in (0, 1):
            close(V[a], -g[a]/(b*p), 1e-9*abs(g[a])/(b*p), 'V[%d] at %r of the limit' % (a, f))
            close(Vc[a], -g[a]/(h*p), 1e-11*abs(g[a])/(h*p), 'confined V[%d] at %r of the limit' % (a, f))
        ob.count('transition')
    ob.nontrivial(k, p, h)


KINDS = {'velocity': (velocity, 2800, 20000), 'transition': (transition, 800, 3000)}
