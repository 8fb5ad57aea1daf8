"""Models are isolated: evaluation is pure and nothing is shared between models."""
import copy
import numpy as np
from oneka.model import Model, AquiferError
from fw import gen, ref
from fw.core import Violation, require
from fw.runs import same

PROP = 'M05'
RULE = ('histories of 40 operations on three models built from shared inputs (the same wells list, the same coefficient '
        'array or none at all): evaluations, fits, changes of one model\'s wells and aquifer, in-place edits of one model\'s coefficients, of the array it was given '
        'and of the arrays a fit returned. After each operation every untouched model must answer bit for bit as before '
        'and every input must be unchanged; a touched one must answer as a new model with its parameters. Distinct by the operation history.')
REQUIRE = {'operations': 2000, 'coef_edits': 200, 'fits': 200, 'default_built': 50, 'twins': 500, 'reconfigured': 300, 'edited_lists': 200, 'shores': 200, 'well_fields': 20}


def probe(mo, pts):
    out = []
    for x, y in pts:
        out.append(mo.compute_potential(x, y))
        out.extend(mo.compute_discharge(x, y))
        try:
            out.append(mo.compute_head(x, y))
            out.extend(mo.compute_velocity(x, y))
        except AquiferError:
            out.append(-1e300)
        out.extend(mo.compute_velocity_confined(x, y))
    return np.array(out, dtype=float)


def isolation(rng, ob, idx):
    sc = gen.Scenario(rng, L=1000.0, noise=0.5)
    wells = [w for w in sc.wells]
    if rng.random() < .5:
        wells = [list(w) for w in wells]
    if rng.random() < .15:
        # a well field: many wells, in no order
        make = type(wells[0])
        wells += [make((sc.o[0] + float(rng.uniform(-3, 3))*sc.L, sc.o[1] + float(rng.uniform(-3, 3))*sc.L, .3, float(rng.uniform(-20, 30)))) for _ in range(gen.pick(rng, [12, 30, 70]))]
        wells = [wells[i] for i in rng.permutation(len(wells))]
        ob.count('well_fields')
    obs = [list(o) for o in sc.obs] if rng.random() < .5 else list(sc.obs)
    if rng.random() < .4:
        # whole numbers
        obs = [type(o)((o[0], o[1], o[2], max(1, round(o[3])))) for o in obs]
        wells = [type(w)((w[0], w[1], w[2], round(w[3]))) for w in wells]
    given = np.array(sc.coef)
    if rng.random() < .3:
        given = given.reshape(6, 1)
    pts = [(sc.o[0] + rng.uniform(-800, 800), sc.o[1] + rng.uniform(-800, 800)) for _ in range(3)]
    mos = []
    for i in range(3):
        m = rng.random()
        if m < 0.4:
            mos.append(Model(sc.base, sc.k, sc.p, sc.h, wells))
            ob.count('default_built')
            require(np.all(np.asarray(mos[-1].coef) == 0), 'a new model without coefficients starts with %r', mos[-1].coef)
        else:
            mos.append(Model(sc.base, sc.k, sc.p, sc.h, wells, sc.xt, sc.yt, given))
    frozen = (copy.deepcopy(wells), copy.deepcopy(obs))
    state = [probe(m, pts) for m in mos]
    returned = []
    hist = []
    for step in range(40):
        op = int(rng.integers(12))
        j = int(rng.integers(3))
        touched = set()
        keep_given = given.copy()
        if op == 0:
            mos[j].coef[int(rng.integers(6))] += 10.0
            touched = {j}
            ob.count('coef_edits')
        elif op == 1:
            given[int(rng.integers(6))] += 3.0
            keep_given = given.copy()
            ob.count('coef_edits')
        elif op == 2:
            ev, cov = mos[j].fit_regional_flow(obs, sc.xt + 1.0, sc.yt)
            returned.append((ev, cov))
            touched = {j}
            ob.count('fits')
        elif op == 3 and returned:
            ev, cov = returned[int(rng.integers(len(returned)))]
            ev[0] += 1.0
            cov[0] += 1.0
            ob.count('coef_edits')
        elif op == 4:
            mos[j].coef = given
            touched = {j}
        elif op == 5:
            mos[j] = Model(sc.base, sc.k, sc.p, sc.h, wells)
            require(np.all(np.asarray(mos[j].coef) == 0), 'a new model without coefficients starts with %r', mos[j].coef)
            touched = {j}
        elif op == 6:
            mos[j].xo, mos[j].yo = sc.xt - 3.0, sc.yt + float(rng.uniform(-9, 9))
            touched = {j}
        elif op == 7:
            # other wells, or another aquifer
            m = mos[j]
            how = int(rng.integers(7))
            if how == 0:
                m.wells = [(w[0], w[1], w[2], w[3]*1.5 + 10) for w in m.wells] + [(sc.xt + 77.0, sc.yt - 40.0, .25, 300.0)]
            elif how == 1:
                m.wells = list(m.wells)[1:]
            elif how == 6:
                # the same rates, traded between the places
                q = [w[3] for w in m.wells]
                m.wells = [(w[0], w[1], w[2], v) for w, v in zip(m.wells, q[1:] + q[:1])] if len(q) > 1 else [(w[0] + 31.0, w[1] - 12.0, w[2], w[3]) for w in m.wells]
            elif how == 2:
                m.base += 2.5
            elif how == 3:
                m.conductivity *= 1.25
            elif how == 4:
                m.porosity *= .5
            else:
                m.thickness *= .8
            touched = {j}
            ob.count('reconfigured')
        elif op == 11:
            # a shore moves: dry ground, evaluated, becomes barely wet, and the other way round
            m = mos[j]
            x, y = pts[int(rng.integers(3))]
            for v in gen.pick(rng, [(-1.0, 1e-3), (-1e-3, 1e-6), (1e-3, -1e-3), (-5.0, 5.0)]):
                pot = float(ref.potential(np.ravel(m.coef), m.xo, m.yo, m.wells, x, y)[0])
                c = np.array(m.coef)
                c[5] += v*m.conductivity - pot
                m.coef = c
                probe(m, pts)
            touched = {j}
            ob.count('shores')
        elif op == 10:
            # the caller's list of observations is edited in place, and fitted again
            i = int(rng.integers(len(obs)))
            q = obs[i]
            if rng.random() < .7:
                mos[j].fit_regional_flow(obs, sc.xt, sc.yt)
            if isinstance(q, list) and rng.random() < .5:
                q[2] += 1.5
            else:
                obs[i] = type(q)((q[0], q[1], q[2] + 1.25, q[3]))
            frozen = (frozen[0], copy.deepcopy(obs))
            ev, cov = mos[j].fit_regional_flow(obs, sc.xt, sc.yt)
            m = mos[j]
            twin = Model(m.base, m.conductivity, m.porosity, m.thickness, copy.deepcopy(m.wells))
            ev2, cov2 = twin.fit_regional_flow(copy.deepcopy(obs), sc.xt, sc.yt)
            require(np.array_equal(ev, ev2) and np.array_equal(cov, cov2), 'fitted again to an edited list of observations a model answers unlike a new one (history %r)', hist[-6:])
            returned.append((ev, cov))
            touched = {j}
            ob.count('edited_lists')
            # solving leaves the system of equations as it was
            WA, Wb = twin.construct_fit(obs, sc.xt, sc.yt)
            keep = WA.copy(), Wb.copy()
            ev3, cov3 = twin.compute_fit(WA, Wb)
            require(np.array_equal(WA, keep[0]) and np.array_equal(Wb, keep[1]), 'solving a system of equations altered it')
            ev3[0], cov3[0] = 1.0, 1.0
            require(np.array_equal(WA, keep[0]) and np.array_equal(Wb, keep[1]), 'a solution shares its memory with the system of equations')
            require(np.array_equal(ev2, twin.coef) or not np.shares_memory(ev3, twin.coef), 'a solution shares its memory with a model')
        else:
            repr(mos[j]), str(mos[j])
        hist.append((op, j))
        ob.count('operations')
        for i, m in enumerate(mos):
            now = probe(m, pts)
            if i in touched:
                state[i] = now
                # What a model answers depends on its parameters, not on its history.
                twin = Model(m.base, m.conductivity, m.porosity, m.thickness, copy.deepcopy(m.wells), m.xo, m.yo,
                             np.array(m.coef))
                require(np.array_equal(probe(twin, pts), now, equal_nan=True),
                        'after operation %d a model answers unlike a new one with the same parameters (history %r)', op, hist[-6:])
                ob.count('twins')
                for q, (x, y) in enumerate(pts):
                    want, size = ref.potential(np.ravel(m.coef), m.xo, m.yo, m.wells, x, y)
                    got = m.compute_potential(x, y)
                    require(abs(float(got) - float(want)) <= 1e-9*(float(size) + 1), 'after operation %d the potential at (%r, %r) is %r, its wells and flow make %r (history %r)',
                            op, x, y, got, float(want), hist[-6:])
            elif not np.array_equal(now, state[i], equal_nan=True):
                raise Violation('operation %d on model %d changed the answers of model %d (history %r)' % (op, j, i, hist[-6:]))
        require(same((wells, obs), frozen), 'operation %d altered the wells or the observations passed in', op)
        require(np.array_equal(given, keep_given), 'operation %d altered the coefficient array passed in', op)
    ob.show({'history': hist[:12]})
    ob.nontrivial(hist)


KINDS = {'isolation': (isolation, 600, 4000)}
