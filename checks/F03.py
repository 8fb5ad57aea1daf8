"""The reported covariance is the propagated measurement uncertainty."""
import numpy as np
from oneka.model import Model
from fw import gen, ref
from fw.core import Violation, close, require
from checks.F01 import noisy_network, fit_tol

PROP = 'F03'
RULE = ('(propagate) each observed head is perturbed up and down through the real fit; the observed response of the '
        'coefficients, combined with the stated standard deviations, must reproduce the reported covariance (confined). '
        '(metamorphic) scaling every standard deviation, adding an observation, unconfined/mixed against the '
        'extended-precision reference. Distinct by the reported covariance.')
REQUIRE = {'propagated': 50, 'responses': 500, 'metamorphic': 100, 'unconfined': 20, 'only_six': 40}


def usable(obs, sc):
    c, R, cov, (WA, Wb) = ref.fit(obs, sc['base'], sc['k'], sc['h'], sc['wells'], sc['xo'], sc['yo'])
    A = np.array(WA, dtype=float)
    cond = np.linalg.cond(A)
    return R, cov, 1e-8 + 1e-15*cond*30, cond


def whiten(R, cov):
    C = np.array([[ref.LD(float(v)) for v in row] for row in cov], dtype=ref.LD)
    return np.array(ref.ldmul(ref.ldmul(R, C), R.T), dtype=float)


def run(sc, obs):
    mo = Model(sc['base'], sc['k'], sc['p'], sc['h'], sc['wells'])
    ev, cov = mo.fit_regional_flow(obs, sc['xo'], sc['yo'])
    require(np.shape(cov) == (6, 6), 'covariance of shape %r', np.shape(cov))
    return np.ravel(ev).copy(), np.array(cov, dtype=float)


def check_cov(R, cov, tol, what):
    sd = np.sqrt(np.abs(np.diag(cov)))
    require(np.all(np.diag(cov) > 0), '%s: a variance is not positive: %r', what, np.diag(cov).tolist())
    asym = np.max(np.abs(cov - cov.T)/np.outer(sd, sd))
    require(asym < 1e-6 + tol, '%s: covariance is not symmetric (%.3g)', what, asym)
    w = whiten(R, cov)
    dev = np.max(np.abs(w - np.eye(6)))
    require(dev <= tol, '%s: covariance differs from the propagated measurement uncertainty by a factor %.3g (tolerance %.2g)', what, dev, tol)


def propagate(rng, ob, idx):
    sc = noisy_network(rng, 'confined', gen.pick(rng, [6, 7, 9, 14, 30]))
    obs = [tuple(q) for q in sc['obs']]
    # stay confined under perturbation
    d = float(sc['h'])*0.5
    obs = [(x, y, z + d + 1e-6, s) for x, y, z, s in obs]
    R, covr, tol, cond = usable(obs, sc)
    c, _, _, (WA, Wb) = ref.fit(obs, sc['base'], sc['k'], sc['h'], sc['wells'], sc['xo'], sc['yo'])
    rtol = 4e-15*cond*float(np.max(np.abs(Wb)))*len(obs)*float(np.max([q[3] for q in obs]))/d
    if cond > 1e10 or rtol > 1e-2:
        ob.count('ill_posed')
        return
    ev, cov = run(sc, obs)
    J = []
    for i in range(len(obs)):
        up, dn = list(obs), list(obs)
        up[i] = (obs[i][0], obs[i][1], obs[i][2] + d, obs[i][3])
        dn[i] = (obs[i][0], obs[i][1], obs[i][2] - d, obs[i][3])
        J.append((run(sc, up)[0] - run(sc, dn)[0])/(up[i][2] - dn[i][2])*obs[i][3])
        ob.count('responses')
    J = np.array(J, dtype=ref.LD).T
    C = ref.ldmul(J, J.T)
    check_cov(R, np.array(C, dtype=float), max(1e-6, 20*rtol), 'observed response to the measurements')
    check_cov(R, cov, max(1e-6, 1e-15*cond**2 if cond < 1e5 else 1e-5, tol), 'reported')
    ob.count('propagated')
    ob.show({'nobs': len(obs), 'std': [q[3] for q in obs][:5], 'var': np.diag(cov)})
    ob.nontrivial(cov)


def metamorphic(rng, ob, idx):
    sc = noisy_network(rng, nobs=6 if idx % 8 == 5 else None)
    ob.count('only_six', len(sc['obs']) == 6)
    obs = [tuple(q) for q in sc['obs']]
    R, covr, tol, cond = usable(obs, sc)
    if cond > 1e10:
        ob.count('ill_posed')
        return
    ev, cov = run(sc, obs)
    check_cov(R, cov, max(1e-5, tol), '%s reported' % sc['conf'])
    if sc['conf'] == 'confined':
        f = gen.pick(rng, [0.5, 2.0, 3.0])
        ev2, cov2 = run(sc, [(x, y, z, s*f) for x, y, z, s in obs])
        check_cov(R/f, cov2, max(1e-5, tol), 'after scaling every standard deviation by %r' % f)
        dd = ref.ldmul(R, np.array(ev2 - ev, dtype=ref.LD)[:, None])
        c, _, _, (WA, Wb) = ref.fit(obs, sc['base'], sc['k'], sc['h'], sc['wells'], sc['xo'], sc['yo'])
        require(float(np.max(np.abs(dd))) < 10*fit_tol(WA, Wb)*max(f, 1/f), 'scaling every standard deviation alike moved the fit')
    else:
        ob.count('unconfined')
    # one more observation never increases the uncertainty
    more = obs + [(sc['o'][0] + .37*sc['L'], sc['o'][1] - .41*sc['L'], obs[0][2], obs[0][3])]
    if all(np.hypot(more[-1][0] - w[0], more[-1][1] - w[1]) > 1e-3*sc['L'] for w in sc['wells']):
        ev3, cov3 = run(sc, more)
        w = whiten(R, cov3)
        top = np.max(np.linalg.eigvalsh((w + w.T)/2))
        require(top <= 1 + max(1e-5, tol), 'an additional observation increased the uncertainty by a factor %r', top)
    ob.count('metamorphic')
    ob.nontrivial(cov)


KINDS = {'propagate': (propagate, 800, 5000), 'metamorphic': (metamorphic, 1600, 10000)}
