"""The regional-flow fit minimises the weighted squared error of the potentials."""
import numpy as np
from oneka.model import Model
from fw import gen, ref
from fw.core import Violation, close, require

PROP = 'F01'
RULE = ('(fit) synthetic noisy networks, 7-200 observations with standard deviations spread over up to three decades, '
        'confined, unconfined, mixed and at-the-limit heads, 0-30 wells, any local origin: the returned coefficients are '
        'compared in units of their own standard deviation with an extended-precision weighted least-squares solution, '
        'and perturbed to confirm optimality. (lsq) arbitrary well-posed weighted systems. (shipped) every shipped data '
        'set. Distinct by the fitted coefficients.')
REQUIRE = {'fits': 200, 'unconfined_obs': 200, 'confined_obs': 200, 'mixed': 20, 'systems': 100, 'shipped': 6, 'same_ends': 100}


def noisy_network(rng, conf=None, nobs=None, nwells=None):
    """A network with arbitrary (not necessarily consistent) heads; returns model pieces and obs."""
    base, k, p, h = gen.aquifer(rng)
    o = gen.origin(rng)
    L = gen.pick(rng, [50.0, 800.0, 5000.0, 2e4])
    wells = gen.well_list(rng, o, L, nwells if nwells is not None else gen.pick(rng, [0, 1, 2, 5, 30]), qmax=k*h*h)
    conf = conf or gen.pick(rng, ['confined', 'unconfined', 'mixed'])
    n = nobs or gen.pick(rng, [7, 8, 10, 20, 50, 200])
    if nobs is None and rng.random() < .03:
        n = gen.pick(rng, [300, 520])
    while True:
        xo, yo = o if rng.random() < .6 else (o[0] + rng.uniform(-L, L), o[1] + rng.uniform(-L, L))
        pts = gen.network(rng, o, L, n)
        pts = [q for q in pts if all(np.hypot(q[0] - w[0], q[1] - w[1]) > 1e-3*L for w in wells)]
        lo, hi = {'confined': (1.0, 6.0), 'unconfined': (0.05, 0.999), 'mixed': (0.3, 1.7)}[conf]
        if rng.random() < .25:
            # neighbours within a hand's breadth, and two levels at one place, are observations of their own
            pts += [(x + gen.pick(rng, [0.0, .013, .4]), y + gen.pick(rng, [0.0, .02, -.3])) for x, y in pts[::3]]
        spread = gen.pick(rng, [0.05, 1.0, 2.5])
        mid, sl = rng.uniform(lo, hi), rng.normal(size=2)
        obs = []
        for x, y in pts:
            f = mid + 0.3*(hi - lo)*(sl[0]*(x - o[0]) + sl[1]*(y - o[1]))/L + 0.05*rng.normal()
            f = min(max(f, lo), hi)
            if conf == 'mixed' and rng.random() < .1:
                f = 1.0
            s = (0.05 + rng.random())*h*0.02*10**(rng.uniform(-1, 1)*spread*.5)
            z = base + f*h
            # exactly at the limit only where every way of writing the comparison agrees
            if abs((z - base) - h) <= 1e-9*(h + abs(base)):
                z = base + h if float(h).is_integer() and float(base).is_integer() else base + h + 1e-6*(h + abs(base))
            ob = (x, y, float(z), float(s))
            obs.append(ob if rng.random() < .8 else list(ob))
        if len(obs) > (6 if nobs != 6 else 5) and ref.conditioning(obs, xo, yo) < 300:
            return dict(base=base, k=k, p=p, h=h, wells=wells, xo=xo, yo=yo, obs=obs, conf=conf, o=o, L=L)
        n += 2


def standard_error(R, c_got, c_ref):
    """The difference of two coefficient vectors in standard deviations."""
    d = np.array([ref.LD(float(v)) for v in np.ravel(c_got)]) - np.ravel(c_ref)
    return float(np.sqrt(np.sum((ref.ldmul(R, d[:, None])[:, 0])**2)))


def fit_tol(WA, Wb):
    A = np.array(WA, dtype=float)
    return 1e-6 + 4e-15*np.linalg.cond(A)*float(np.max(np.abs(Wb)))*np.sqrt(len(A))


def judge(ob, mo, sc, obs, xo, yo, ev):
    c, R, cov, (WA, Wb) = ref.fit(obs, sc['base'], sc['k'], sc['h'], sc['wells'], xo, yo)
    require(np.size(ev) == 6, 'the fit returned %d coefficients', np.size(ev))
    tol = fit_tol(WA, Wb)
    if tol > 0.05:
        ob.count('ill_posed')
        return
    e = standard_error(R, ev, c)
    if not e <= tol:
        raise Violation('fitted coefficients are %.3g standard deviations from the weighted least-squares optimum '
                        '(tolerance %.2g; %d observations, %d wells): %r, optimum %r'
                        % (e, tol, len(obs), len(sc['wells']), np.ravel(ev).tolist(), [float(v) for v in c]))
    # the model now carries the fit
    require(np.array_equal(np.ravel(mo.coef), np.ravel(ev)), 'the model does not carry the fitted coefficients')
    require(mo.xo == xo and mo.yo == yo, 'the model does not carry the local origin of the fit')
    ob.count('fits')
    n_un = sum(1 for q in obs if q[2] - sc['base'] < sc['h'])
    ob.count('unconfined_obs', n_un)
    ob.count('confined_obs', len(obs) - n_un)
    ob.count('mixed', 0 < n_un < len(obs))


def fit(rng, ob, idx):
    sc = noisy_network(rng)
    mo = Model(sc['base'], sc['k'], sc['p'], sc['h'], sc['wells'])
    ev, cov = mo.fit_regional_flow(sc['obs'], sc['xo'], sc['yo'])
    judge(ob, mo, sc, sc['obs'], sc['xo'], sc['yo'], ev)
    first = np.ravel(ev).copy()
    # optimality on the observed potentials: no perturbation lowers the weighted error
    WA, Wb = ref.fit_system(sc['obs'], sc['base'], sc['k'], sc['h'], sc['wells'], sc['xo'], sc['yo'])

    def sse(cc):
        mo.coef = cc
        tot = ref.LD(0)
        for i, q in enumerate(sc['obs']):
            std = 1/WA[i, 5]
            pot = Wb[i]*std + ref.potential_wells(sc['wells'], q[0], q[1])[0]
            tot += ((ref.LD(float(mo.compute_potential(q[0], q[1]))) - pot)/std)**2
        return float(tot)
    s0 = sse(first)
    sds = np.sqrt(np.abs(np.diag(np.array(cov, dtype=float))))
    for t in range(6):
        d = rng.normal(size=6)*sds*0.5
        require(sse(first + d) >= s0*(1 - 1e-9) - 1e-6, 'perturbing the fit lowers the weighted squared error %r -> %r', s0, sse(first + d))
        ob.count('perturbations')
    # refit the same model after its properties changed: no state of the first fit survives
    sc['wells'] = gen.well_list(rng, sc['o'], sc['L'], 2, qmax=float(sc['k']*sc['h']**2))
    sc['wells'] = [w for w in sc['wells'] if all(np.hypot(w[0] - q[0], w[1] - q[1]) > 1e-3*sc['L'] for q in sc['obs'])]
    mo.wells = sc['wells']
    sub = sc['obs'][1:] if len(sc['obs']) > 7 else sc['obs']
    if ref.conditioning(sub, sc['xo'], sc['yo']) < 300:
        ev, cov = mo.fit_regional_flow(sub, sc['xo'], sc['yo'])
        judge(ob, mo, sc, sub, sc['xo'], sc['yo'], ev)
    # another network that differs in its inner places only
    far = .05*sc['L']
    mid = [(q[0] + float(rng.uniform(-far, far)), q[1] + float(rng.uniform(-far, far)), q[2], q[3]) for q in sc['obs'][1:-1]]
    mid = [q for q in mid if all(np.hypot(w[0] - q[0], w[1] - q[1]) > 1e-3*sc['L'] for w in sc['wells'])]
    sub = [sc['obs'][0]] + mid + [sc['obs'][-1]]
    if len(sub) > 6 and ref.conditioning(sub, sc['xo'], sc['yo']) < 300:
        ob.count('same_ends', len(sub) == len(sc['obs']))
        if rng.random() < .5:
            mo.fit_regional_flow(sc['obs'], sc['xo'], sc['yo'])
        ev, cov = mo.fit_regional_flow(sub, sc['xo'], sc['yo'])
        judge(ob, mo, sc, sub, sc['xo'], sc['yo'], ev)
    ob.show({'conf': sc['conf'], 'nobs': len(sc['obs']), 'coef': first, 'wsse': s0})
    ob.nontrivial(first)


def lsq(rng, ob, idx):
    n = gen.pick(rng, [6, 7, 12, 60, 400])
    A = rng.normal(size=(n, 6))*10**rng.uniform(-2, 2, size=6)
    b = rng.normal(size=(n, 1))*10**rng.uniform(-2, 3)
    if np.linalg.cond(A) > 1e7:
        return
    A0, b0 = A.copy(), b.copy()
    ev, cov = Model.compute_fit(A, b)
    require(np.array_equal(A, A0) and np.array_equal(b, b0), 'the least-squares system was altered')
    s = np.linalg.norm(A, axis=0)
    Q, R = ref.qr(np.array(A/s, dtype=ref.LD))
    c = ref.ldmul(ref.tri_inv(R), ref.ldmul(Q.T, np.array(b, dtype=ref.LD)))[:, 0]/s
    e = standard_error(R*s, ev, c)
    lim = 1e-13*np.linalg.cond(A)*np.linalg.norm(b) + 1e-12
    require(e <= max(lim, 1e-9*np.linalg.norm(b)), 'least-squares solution off by %.3g (weighted norm)', e)
    ob.count('systems')
    ob.nontrivial(np.ravel(ev))


SHIPPED = ['basic', 'basic_deterministic', 'carlos', 'barnesville', 'long_prairie', 'paynesville', 'perham']


def shipped(rng, ob, idx):
    import importlib
    from oneka.utilities import filter_obs
    m = importlib.import_module('data.' + SHIPPED[idx % 7])

    def draw(d):
        return d if not isinstance(d, tuple) else float(rng.uniform(d[0], d[-1]))
    wells = [(a, b, c, draw(q)) for a, b, c, q in m.WELLS]
    sc = dict(base=m.BASE, k=draw(m.C_DIST), p=draw(m.P_DIST), h=draw(m.T_DIST), wells=wells)
    obs = filter_obs(m.OBSERVATIONS, m.WELLS, m.BUFFER)
    xo, yo = m.WELLS[m.TARGET][:2]
    mo = Model(sc['base'], sc['k'], sc['p'], sc['h'], wells)
    ev, cov = mo.fit_regional_flow(obs, xo, yo)
    judge(ob, mo, sc, obs, xo, yo, ev)
    ob.count('shipped')
    ob.nontrivial(np.ravel(ev))


KINDS = {'fit': (fit, 800, 10000), 'lsq': (lsq, 600, 5000), 'shipped': (shipped, 21, 140)}
