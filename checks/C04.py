"""Realizations are independent draws: each parameter from its distribution, the flow field from its own fitted posterior."""
import math
import numpy as np
import scipy.stats as st
from oneka.stochastic import create_stochastic_capturezone
from fw import gen, ref
from fw.core import require, Inconclusive
from fw.hooks import watch_realizations
from fw.zone import Driver

PROP = 'C04'
RULE = ('stochastic runs of several hundred very short realizations; a monitor records the parameters used by each. Judged by '
        'tests with p < 1e-9: every parameter against its distribution, the flow coefficients, whitened by an independent '
        'fit for the same realization, against independent standard normals, no correlation between any two of these within '
        'or between consecutive realizations, no repeated draws. Distinct by drawn parameters.')
REQUIRE = {'realizations': 20000, 'parameters_tested': 60, 'scores': 100000, 'correlations': 1500, 'repeated_runs': 25, 'parameters_compared': 20, 'shared_distribution': 2, 'either_sign': 3, 'one_for_both': 3, 'places': 12}
ASSUMPTIONS = ['Statistical: rejects at p < 1e-9 per test; deviations smaller than these sample sizes resolve are not seen.']
BATCH = 1
FUEL = 300_000_000
ALPHA = 1e-9
ZCRIT = 6.2


def cdf(d):
    if len(d) == 2:
        return st.uniform(d[0], d[1] - d[0]).cdf
    return st.triang((d[1] - d[0])/(d[2] - d[0]), d[0], d[2] - d[0]).cdf


def scores(sc, seen):
    """
    Regional coefficients of each realization, whitened by an independent fit with its other parameters; and
    each in standard deviations of its own.
    """
    Z, S = np.zeros((len(seen), 6)), np.zeros((len(seen), 6))
    for k, r in enumerate(seen):
        base, kk, p, h, wells, coef, xo, yo = r.params
        WA, Wb = ref.fit_system(sc.obs, base, kk, h, wells, sc.xt, sc.yt)
        WA, Wb = WA.astype(float), Wb.astype(float)
        s = np.sqrt((WA**2).sum(0))
        Q, R = np.linalg.qr(WA/s)
        Z[k] = R @ (np.array(coef)*s) - Q.T @ Wb
        W = np.linalg.inv(R)
        S[k] = (W @ Z[k])/np.sqrt((W**2).sum(1))
    return Z, S


def tails(Z, m, what):
    for z in (2.0, 2.75):
        k, q = int((np.abs(Z) > z).sum()), 2*st.norm.sf(z)
        p = 2*min(st.binom.cdf(k, m, q), st.binom.sf(k - 1, m, q))
        require(p > ALPHA, '%s exceeds %r in %d of %d realizations, expected %.1f', what, z, k, m, m*q)


def spaced(u, what):
    """Among so many consecutive draws, a share of the range comes up as often as chance has it: neither evenly nor in bursts."""
    n = len(u)
    for m in (10, 20, 50, 100):
        if n < 20*m:
            continue
        for k in (2, 5, 20):
            c = (u[:n - n % m].reshape(-1, m)*k < 1).sum(1)
            var = m/k*(1 - 1/k)
            e = float(((c - m/k)**2).mean())/var
            w = math.sqrt((2 + (1 - 6/k*(1 - 1/k))/var)/len(c))
            require(1 - 7*w < e < 1 + 7*w + 40/len(c), 'the %s: in every %d realizations the lowest 1/%d of its range comes up with %.3f times the variance of chance', what, m, k, e)


def fresh(Z, what):
    """The length of a whitened deviation does not depend on how it was drawn; equal lengths betray equal draws."""
    d = np.sort(np.sqrt((Z**2).sum(1)))
    same = int((np.diff(d) <= 1e-8*(1 + d[1:])).sum())
    require(same <= 4, '%d of %d regional flow fields deviate equally from their fits (%s): the draws repeat', same, len(d), what)


def draws(rng, ob, idx):
    n = 5000 if idx % 8 == 0 else (1500, 4000)[idx >= 24]
    confined = rng.random() < .7
    sc = gen.Scenario(rng, confined=rng.random() < .6, noise=.02, std=gen.pick(rng, [.02, .1, .5]), nobs=gen.pick(rng, [9, 14]),
                      nwells=gen.pick(rng, [8, 12]) if idx % 8 == 5 else gen.pick(rng, [1, 2, 3]))
    d = Driver(rng, sc, confined, fine=False, npaths=1, spacing=10.0)
    if idx % 8 == 2:                                       # a certain aquifer, uncertain discharges
        d.c, d.t = sc.k, sc.h
        d.wells = [(w[0], w[1], w[2], (.6*m[3], 1.3*m[3])) for w, m in zip(d.wells, d.mean_wells)]
    if idx % 8 in (4, 7):                                  # conductivity and thickness, one distribution
        a = min(sc.k, sc.h)
        d.c = d.t = gen.pick(rng, [(.8*a, 1.4*a), [.8*a, a, 1.4*a]])
        if idx % 8 == 7:
            d.t = type(d.c)(d.c)
        ob.count('one_for_both')
    if len(d.wells) > 1 and rng.random() < .5:             # several wells, one distribution of rates
        q = (150.0, 900.0) if rng.random() < .5 else [150.0, 300.0, 900.0]
        d.wells = [(w[0], w[1], w[2], q) for w in d.wells]
        ob.count('shared_distribution')
    if idx % 8 in (3, 6):                                  # a well that pumps or injects, nobody knows
        w = d.wells[-1]
        q = gen.pick(rng, [(-150.0, 150.0), (-20.0, 300.0), [-300.0, 20.0, 60.0], (-1.0, 0.0, 1.0), (-500.0, -200.0), (0.0, 250.0)])
        d.wells[-1] = (w[0], w[1], w[2], q)
        ob.count('either_sign')
    args = d.sto(n, duration=.02)
    with watch_realizations(snapshots=False) as seen:
        create_stochastic_capturezone(*args)
    seen = [r for r in seen if r.params]
    if len(seen) < .9*n:
        raise Inconclusive('only %d of %d realizations were observed computing velocities' % (len(seen), n))
    ob.count('realizations', len(seen))
    cols, names = [], []
    specs = [('conductivity', d.c, [r.params[1] for r in seen]), ('porosity', d.p, [r.params[2] for r in seen]),
             ('thickness', d.t, [r.params[3] for r in seen])]
    for i, w in enumerate(d.wells):
        specs.append(('discharge %d' % i, w[3], [r.params[4][i][3] for r in seen]))
    for nm, dist, v in specs:
        v = np.array(v, dtype=float)
        if not isinstance(dist, (list, tuple)) or dist[0] == dist[-1]:
            c = dist[0] if isinstance(dist, (list, tuple)) else dist
            require(np.all(v == c), '%s is %r, the constant given is %r', nm, v[v != c][:1], c)
            continue
        a, b = dist[0], dist[-1]
        require(v.min() >= a and v.max() <= b, '%s %r is outside %r', nm, v.min() if v.min() < a else v.max(), dist)
        p = st.kstest(v, cdf(dist)).pvalue
        require(p > ALPHA, '%s of %d realizations does not follow %r (p = %.3g; mean %r, range %r to %r)', nm, len(v), dist, p, v.mean(), v.min(), v.max())
        for q, e in ((cdf(dist)(v.min()), v.min()), (1 - cdf(dist)(v.max()), v.max())):
            require(len(v)*q < 24, '%s of %d realizations comes no closer to the end of %r than %r', nm, len(v), dist, e)
        require(len(np.unique(v)) > .98*len(v), '%s takes only %d values in %d realizations', nm, len(np.unique(v)), len(v))
        spaced(cdf(dist)(v), nm)
        u = np.clip(cdf(dist)(v), 1e-9, 1 - 1e-9)
        cols.append(st.norm.ppf(u))
        names.append(nm)
        ob.count('parameters_tested')
    Z, S = scores(sc, seen)
    ob.count('scores', Z.size)
    m = len(Z)
    fresh(Z, 'within one run')
    chi = float((Z**2).sum())
    p = 2*min(st.chi2.sf(chi, 6*m), st.chi2.cdf(chi, 6*m))
    require(p > ALPHA, 'the coefficients vary with %.3f times the variance their fit implies (%d realizations)', chi/(6*m), m)
    for j in range(6):
        require(abs(Z[:, j].mean())*math.sqrt(m) < ZCRIT, 'standardized coefficient %d averages %r over %d realizations', j, Z[:, j].mean(), m)
        p = st.kstest(Z[:, j], 'norm').pvalue
        require(p > ALPHA, 'standardized coefficient %d is not standard normal (p = %.3g)', j, p)
        tails(Z[:, j], m, 'standardized coefficient %d' % j)
        tails(S[:, j], m, 'coefficient %d, in its standard deviations,' % j)
        same = int((np.diff(np.sort(S[:, j])) < 1e-9).sum())
        require(same <= 4, 'coefficient %d is the same number of standard deviations off its fit in %d of %d realizations', j, same, m)
        p = st.kstest(S[:, j], 'norm').pvalue
        require(p > ALPHA, 'coefficient %d, in its standard deviations, is not standard normal (p = %.3g)', j, p)
        cols.append(Z[:, j])
        names.append('coefficient score %d' % j)
    for z in (2.0, 2.75, 3.1):
        k, q = int((np.abs(Z) > z).sum()), 2*st.norm.sf(z)
        p = 2*min(st.binom.cdf(k, 6*m, q), st.binom.sf(k - 1, 6*m, q))
        require(p > ALPHA, 'standardized coefficients exceed %r in %d of %d draws, expected %.1f', z, k, 6*m, 6*m*q)
        ob.count('tails')
    require(len(np.unique(Z[:, 0])) > .98*m, 'the coefficients repeat between realizations')
    X = np.stack(cols, 1)
    X = (X - X.mean(0))/X.std(0)
    for lag in (0, 1, 2):
        A, B = X[:m - lag], X[lag:]
        C = (A.T @ B)/len(A)*math.sqrt(len(A))
        if lag == 0:
            np.fill_diagonal(C, 0)
        k = np.unravel_index(np.argmax(np.abs(C)), C.shape)
        require(abs(C[k]) < ZCRIT + .6, '%s and %s (%d realizations later) are correlated: r = %.3f, n = %d', names[k[0]], names[k[1]], lag, C[k]/math.sqrt(m), m)
        ob.count('correlations', C.size)
    ob.show({'run': d.describe(), 'n': n, 'tested': names, 'chi2_ratio': chi/(6*m)})
    ob.nontrivial(Z, [s[2][:3] for s in specs])


def again(rng, ob, idx):
    """Two runs of one session are as independent as two realizations of one run."""
    n = gen.pick(rng, [8, 20])
    confined = rng.random() < .7
    sc = gen.Scenario(rng, confined=rng.random() < .6, noise=.02, std=gen.pick(rng, [.02, .1, .5]), nobs=gen.pick(rng, [9, 14]),
                      nwells=gen.pick(rng, [1, 2, 3]))
    d = Driver(rng, sc, confined, fine=False, npaths=1, spacing=10.0, dists=rng.random() < .7)
    args = d.sto(n, duration=.02)
    runs = []
    for _ in range(2):
        with watch_realizations(snapshots=False) as seen:
            create_stochastic_capturezone(*args)
        runs.append([r for r in seen if r.params])
    if min(map(len, runs)) < .9*n:
        raise Inconclusive('only %r of %d realizations were observed computing velocities' % ([len(r) for r in runs], n))
    a, b = [scores(sc, r)[0] for r in runs]
    fresh(np.concatenate([a, b]), 'between two runs')
    specs = [('conductivity', d.c, lambda r: r.params[1]), ('porosity', d.p, lambda r: r.params[2]), ('thickness', d.t, lambda r: r.params[3])]
    for i, w in enumerate(d.wells):
        specs.append(('discharge %d' % i, w[3], lambda r, i=i: r.params[4][i][3]))
    for nm, dist, get in specs:
        if isinstance(dist, (list, tuple)) and dist[0] < dist[-1]:
            u, v = {get(r) for r in runs[0]}, {get(r) for r in runs[1]}
            require(len(u & v) <= 1, '%d of %d values of the %s appear in both of two runs', len(u & v), len(u), nm)
            ob.count('parameters_compared')
    ob.count('repeated_runs')
    ob.nontrivial(a, b)


def places(rng, ob, idx):
    """The first, the second and the last of many runs are drawn as any other: a realization does not know its place."""
    n, runs = gen.pick(rng, [2, 3]), 160
    sc = gen.Scenario(rng, noise=.02, std=gen.pick(rng, [.05, .5]), nobs=gen.pick(rng, [9, 14]), nwells=gen.pick(rng, [1, 2]))
    d = Driver(rng, sc, True, fine=False, npaths=1, spacing=10.0)
    d.c, d.p, d.t = (.8*sc.k, 1.3*sc.k), [.8*sc.p, .9*sc.p, 1.1*sc.p], (.9*sc.h, sc.h, 1.05*sc.h)
    d.wells = [(w[0], w[1], w[2], (.6*m[3], 1.3*m[3])) for w, m in zip(d.wells, d.mean_wells)]
    args = d.sto(n, duration=.02)
    place = [[] for _ in range(n)]
    for _ in range(runs):
        with watch_realizations(snapshots=False) as seen:
            create_stochastic_capturezone(*args)
        if len(seen) == n and all(r.params for r in seen):
            for k, r in enumerate(seen):
                place[k].append(r)
    m = len(place[0])
    if m < .9*runs:
        raise Inconclusive('only %d of %d runs were observed computing velocities' % (m, runs))
    specs = [('conductivity', d.c, lambda r: r.params[1]), ('porosity', d.p, lambda r: r.params[2]), ('thickness', d.t, lambda r: r.params[3])]
    for i, w in enumerate(d.wells):
        specs.append(('discharge %d' % i, w[3], lambda r, i=i: r.params[4][i][3]))
    for k, seen in enumerate(place):
        for nm, dist, get in specs:
            v = np.array([get(r) for r in seen], dtype=float)
            p = st.kstest(v, cdf(dist)).pvalue
            require(p > ALPHA, 'the %s of realization %d of %d runs does not follow %r (p = %.3g; mean %r, range %r to %r)', nm, k, m, dist, p, v.mean(), v.min(), v.max())
        Z = scores(sc, seen)[0]
        chi = float((Z**2).sum())
        p = 2*min(st.chi2.sf(chi, 6*m), st.chi2.cdf(chi, 6*m))
        require(p > ALPHA, 'in realization %d of %d runs the coefficients vary with %.3f times the variance their fit implies', k, m, chi/(6*m))
        for j in range(6):
            require(st.kstest(Z[:, j], 'norm').pvalue > ALPHA, 'in realization %d of %d runs standardized coefficient %d is not standard normal', k, m, j)
        ob.count('places')
    ob.count('realizations', n*m)
    ob.nontrivial(n, [get(r) for _, _, get in specs for r in place[0][:4]])


KINDS = {'draws': (draws, 24, 160), 'again': (again, 32, 400), 'places': (places, 8, 60)}
