"""The deterministic capture zone is the one the mean parameters and the fitted flow field define."""
import copy
import math
import numpy as np
from oneka.deterministic import create_deterministic_capturezone
from fw import gen, ref
from fw.core import require
from fw.hooks import watch_realizations
from fw.pf import geometry
from checks.F01 import fit_tol, standard_error
from oneka.stochastic import create_stochastic_capturezone
from fw.runs import same, same_field
from fw.zone import Driver, two_sided, settled

PROP = 'C02'
RULE = ('runs over aquifers with 1 to 5 wells, noisy observations, distributions as scalars, pairs, triples and lists, '
        'confined and unconfined, either direction of time, and aquifers that run dry; an independent pipeline (own means, '
        'extended-precision fit, other ODE solver, brute-force raster) judges every node. Distinct by zone.')
REQUIRE = {'runs': 120, 'nodes_in': 8000, 'nodes_out': 40000, 'unconfined': 40, 'forward': 15, 'dry_paths': 15, 'spread_parameters': 60, 'repeated': 30, 'earlier_runs': 30, 'big_network': 5, 'wide_networks': 4, 'pairs_of_wells': 8, 'idle_target': 6, 'idle_forward': 3, 'wide_umbra': 2, 'small_wells': 4}


def judge(ob, pf, d, vel, what):
    geometry(pf)
    settled(pf, 1.0)
    v = np.unique(pf.pgrid)
    require(set(v.tolist()) <= {0.0, 1.0}, 'a deterministic zone holds weights %r', v[:5])
    eps = .02*d.umbra
    must, may, dry = d.tracks(vel, eps)
    ob.count('dry_paths', dry)
    if not may:
        require(not pf.pgrid.any(), 'nodes are marked although the well is dry')
        return 0
    b = .1*d.umbra
    und = two_sided(ob, pf, d.sc.xt, d.sc.yt, pf.pgrid > 0, must, may, d.umbra - b, d.umbra + b, what)
    return und


def parameters(ob, d, seen):
    """The velocities of the zone were computed with the means and the fit that belongs to them (as far as a Model was asked)."""
    for r in seen:
        if r.params is None:
            continue
        require(not r.mixed, 'the parameters changed during the zone')
        base, k, p, h, wells, coef, xo, yo = r.params
        for what, got, want in (('conductivity', k, d.cm), ('porosity', p, d.pm), ('thickness', h, d.tm)):
            require(abs(got - want) <= 1e-9*abs(want), 'the %s of the zone is %r, the mean is %r', what, got, want)
        flow = ref.rebase(coef, xo, yo, d.sc.xt, d.sc.yt)
        c, R, cov, (WA, Wb) = ref.fit(d.obs, d.base, d.cm, d.tm, d.mean_wells, d.sc.xt, d.sc.yt)
        tol = fit_tol(WA, Wb) + 1e-4
        if tol < .01:
            e = standard_error(R, flow, c)
            require(e <= tol, 'the regional flow of the zone is %.3g standard deviations from the fit of the mean parameters', e)
            ob.count('flows')
        ob.count('big_network', len(d.obs) > 100)


def again(rng, ob, d, args, given, pf):
    """The same arguments give the same zone, whatever ran in between; and zones are separate objects."""
    kept = copy.deepcopy(pf)
    how = gen.pick(rng, ['at once', 'another problem', 'another target', 'realizations', 'other properties'])
    short = d.duration*.2
    if how == 'another problem':
        e = Driver(rng, gen.Scenario(rng, nobs=12, nwells=gen.pick(rng, [1, 2]), o=d.sc.o), True, fine=False, npaths=2, frac=.05)
        create_deterministic_capturezone(*e.det())
    elif how == 'another target' and len(d.wells) > 1:
        i = int(rng.integers(len(d.wells)))
        if (d.mean_wells[i][3] > 0) == (d.duration > 0):
            create_deterministic_capturezone(*d.det(target=i, duration=short, npaths=2))
    elif how == 'realizations':
        create_stochastic_capturezone(*d.sto(2, duration=short, npaths=2))
    elif how == 'other properties':
        create_deterministic_capturezone(*d.det(c=d.cm*1.7, p=min(1.0, d.pm*1.3), t=d.tm*1.2, base=d.base - 1.0, duration=short, obs=d.obs[::-1]))
    require(not same_field(pf, kept), 'a later run (%s) changed the %r of an earlier zone', how, same_field(pf, kept))
    two = create_deterministic_capturezone(*args)
    require(two is not pf, 'two runs return one field')
    require(same(args, given), 'a later run changed its arguments')
    require(not same_field(pf, kept), 'running again changed the %r of the first zone', same_field(pf, kept))
    require(not same_field(two, kept), 'the same arguments gave another zone (%s in between): %r differ', how, same_field(two, kept))
    ob.count('repeated')


def before(rng, ob, d):
    """An earlier run of the session that differs from the next one in a single respect."""
    how = gen.pick(rng, ['levels', 'errors', 'datum', 'discharge', 'duration', 'points', 'porosity', 'formulation'])
    k = {'duration': d.duration*.1, 'npaths': 1}
    if how == 'levels':
        k['obs'] = [(o[0], o[1], o[2] + 2.0 + .5*(i % 3), o[3]) for i, o in enumerate(d.obs)]
    elif how == 'errors':
        k['obs'] = [(o[0], o[1], o[2], o[3]*(1 + i % 4)) for i, o in enumerate(d.obs)]
    elif how == 'datum':
        k['base'] = d.base - 3.0
    elif how == 'discharge':
        k['wells'] = [(w[0], w[1], w[2], w[3]*1.3) for w in d.mean_wells]
    elif how == 'duration':
        k['duration'] = d.duration*.5
    elif how == 'points':
        k['obs'] = [(o[0] + 40.0*math.cos(i), o[1] + 40.0*math.sin(i), o[2], o[3]) for i, o in enumerate(d.obs)]
    elif how == 'porosity':
        k['p'] = d.pm*.8
    else:
        k['confined'] = not d.confined
    create_deterministic_capturezone(*d.det(**k))
    ob.count('earlier_runs')


def zone(rng, ob, idx):
    confined = rng.random() < .5
    forward = rng.random() < .2                            # water recharged by wells, traced forward
    cone = not confined and not forward and rng.random() < .4      # unconfined around the wells only
    wide = idx % 12 == 5 and not cone
    sc = gen.Scenario(rng, confined=rng.random() < .6, noise=gen.pick(rng, [0, .1, .3]) if not cone else 0, inject=rng.random() < .3, allinject=forward,
                      cone=cone, qmax=6000 if cone else 1500, nobs=gen.pick(rng, [150, 260, 330]) if idx % 16 == 7 else None,
                      L=gen.pick(rng, [9e3, 2e4]) if wide else None)
    d = Driver(rng, sc, confined, dists=not cone or rng.random() < .4, spacing=gen.pick(rng, [1.0, 2, 2.0]) if cone else None, frac=.02 if wide else .2)
    ob.count('wide_networks', wide)
    if cone:
        d.duration = math.pi*float(rng.uniform(8, 30))**2*sc.h*sc.p/abs(sc.wells[sc.target][3])
        d.umbra = d.spacing*gen.pick(rng, [1.0, 1.5])
        d.maxstep = .4*d.umbra
    if cone and all(o[2] - d.base >= d.tm for o in d.obs):
        x, y = sc.xt + sc.rtarget + 1, sc.yt
        ob.count('hidden_cone', float(ref.potential(sc.coef, sc.xt, sc.yt, sc.wells, x, y)[0]) < .5*d.cm*d.tm**2)
    if forward:
        d.duration = -d.duration
    elif idx % 10 == 6 and not cone:                       # an idle well: what passes by it
        w = d.wells[d.target]
        d.wells[d.target] = (*w[:3], gen.pick(rng, [0, 0.0, (-20.0, 20.0), (0.0, 0.0), [-30.0, 0, 30.0]]))
        d.mean_wells[d.target] = (*w[:3], 0.0)
        d.duration *= (1, -1)[idx//10 % 2]
        ob.count('idle_target')
        ob.count('idle_forward', d.duration < 0)
    if rng.random() < .15:                                 # a second record at the place of the target
        q = float(rng.uniform(.1, .4))*d.mean_wells[d.target][3]
        i = int(rng.integers(len(d.wells) + 1))
        rec = (sc.xt, sc.yt, sc.rtarget*gen.pick(rng, [.5, 8]) + 1, q)
        d.wells.insert(i, rec)
        d.mean_wells.insert(i, rec)
        d.target += i <= d.target
        ob.count('twin_records')
    elif idx % 10 == 3 and len(d.wells) < 9:               # a pair of wells, one takes what the other returns, and one of the rate of the target
        r = float(rng.uniform(.05, .25))*abs(d.mean_wells[d.target][3])
        far = []
        while len(far) < 3:
            a, b = sc.o[0] + float(rng.uniform(-.7, .7))*sc.L, sc.o[1] + float(rng.uniform(-.7, .7))*sc.L
            if all(math.hypot(a - v[0], b - v[1]) > .15*sc.L for v in d.mean_wells + far) and all(math.hypot(a - v[0], b - v[1]) > 20 for v in d.obs):
                far.append((a, b))
            r *= .99
        for (a, b), q in zip(far, (r, -r, r)):
            rec = (a, b, .25, q if rng.random() < .5 else (q, q))
            d.wells.append(rec)
            d.mean_wells.append((a, b, .25, q))
        ob.count('pairs_of_wells')
    if idx % 20 == 14 and not cone and not wide:           # a fine grid below a wide umbra
        d.spacing = .04*d.umbra*gen.pick(rng, [.4, .45])
        d.npaths = 1
        d.duration *= .05
        ob.count('wide_umbra')
    if idx % 20 == 4 and not cone and not wide:            # a small well, a short while, and a grid that resolves its radius
        r = float(rng.uniform(.01, .09))
        sc.rtarget = r
        for ws in (d.wells, d.mean_wells):
            w = ws[d.target]
            ws[d.target] = (w[0], w[1], r, w[3])
        d.spacing = gen.pick(rng, [.025, .04])
        d.umbra = 1.25*d.spacing
        d.maxstep, d.tol = .4*d.umbra, 1e-5
        d.npaths = gen.pick(rng, [3, 5])
        q = d.mean_wells[d.target][3]
        d.duration = math.copysign(math.pi*float(rng.uniform(1.0, 3.0))*sc.h*sc.p/max(abs(q), 20.0), d.duration)
        ob.count('small_wells')
    vel = d.velocity()
    if d.trapped(vel):
        ob.count('trapped')
        return
    if idx % 3 == 1 and d.mean_wells[d.target][3] != 0:
        before(rng, ob, d)
    args = d.det()
    given = copy.deepcopy(args)
    with watch_realizations(False) as seen:
        pf = create_deterministic_capturezone(*args)
    parameters(ob, d, seen)
    require(same(args, given), 'the run changed its arguments')
    judge(ob, pf, d, vel, 'deterministic zone')
    if idx % 3 == 0 and d.mean_wells[d.target][3] != 0:
        again(rng, ob, d, args, given, pf)
    ob.count('runs')
    ob.count('unconfined', not confined)
    ob.count('forward', forward)
    ob.count('spread_parameters', d.cm != sc.k)
    ob.show({'run': d.describe(), 'grid': pf.pgrid.shape, 'marked': int(pf.pgrid.sum())})
    if pf.pgrid.any():
        ob.nontrivial(pf.pgrid)


def dry(rng, ob, idx):
    """A thin sloping aquifer: some backtraces (or forward traces) run out of water."""
    down = rng.random() < .7                               # recharged water traced downhill, where the aquifer ends
    sc = gen.Scenario(rng, confined=False, recharge=False, strong=True, nwells=gen.pick(rng, [1, 2]), qmax=300, L=1000.0, nobs=12, allinject=down)
    # lower the water table around the well
    lo = min(float(ref.potential(sc.coef, sc.xt, sc.yt, sc.wells, sc.xt + (sc.rtarget + 1.3)*math.cos(t), sc.yt + (sc.rtarget + 1.3)*math.sin(t))[0])
             for t in np.linspace(0, 6.3, 9))
    g = math.hypot(sc.coef[3], sc.coef[4])*sc.L
    sc.coef[5] += -lo + float(rng.uniform(.02, .25))*g
    obs = []
    for x, y, z, s in sc.obs + gen.Scenario(rng, o=sc.o, L=sc.L, nobs=16).obs:
        pot = float(ref.potential(sc.coef, sc.xt, sc.yt, sc.wells, x, y)[0])
        if pot > .02*sc.k*sc.h**2:
            obs.append((x, y, float(ref.head_of_potential(pot, sc.k, sc.h)) + sc.base, .05))
    if len(obs) < 8 or ref.conditioning(obs, sc.xt, sc.yt) > 200:
        ob.count('unusable')
        return
    sc.obs = obs
    d = Driver(rng, sc, False, dists=False, npaths=4)
    d.duration = sc.reach(.4)*(-1 if down else 1)
    vel = d.velocity()
    if d.trapped(vel):
        ob.count('trapped')
        return
    pf = create_deterministic_capturezone(*d.det())
    judge(ob, pf, d, vel, 'zone reaching dry ground')
    ob.count('runs')
    ob.count('unconfined')
    ob.show({'run': d.describe(), 'marked': int(pf.pgrid.sum())})
    ob.nontrivial(pf.pgrid)


KINDS = {'zone': (zone, 160, 3500), 'dry': (dry, 80, 1500)}
