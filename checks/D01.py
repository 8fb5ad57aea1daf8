"""A parameter given as constant, range or triangle is sampled from that distribution, and its mean is that distribution's mean."""
import math
import numpy as np
import scipy.stats as st
import oneka.stochastic as sto
from fw import gen
from fw.core import require, close

PROP = 'D01'
RULE = ('random constants, ranges and triangles (mode inside or at an end, zero width, negative, large and tiny, integers, '
        'tuples and lists): support, law (KS p < 1e-9), agreement of sample mean and stated mean; malformed specifications '
        'are rejected. Distinct by specification.')
REQUIRE = {'constants': 60, 'ranges': 60, 'triangles': 100, 'mode_at_end': 30, 'zero_width': 40, 'lists': 60, 'about_zero': 40, 'malformed': 40, 'draws': 200000, 'long_samples': 30}
N = 2000


def spec(rng, idx):
    how = ['const', 'pair', 'triple', 'triple_low', 'triple_high', 'zero2', 'zero3', 'triple'][idx % 8]
    s = gen.pick(rng, [1.0, 1.0, 100, 1e4, 1e-3, .2, 3e7])
    a = float(rng.uniform(-2, 3))*s if rng.random() < .4 else float(rng.uniform(.1, 3))*s
    w = s*gen.logu(rng, 1e-3, 2)
    if rng.random() < .12:
        w = (abs(a) + 1e-6*s)*gen.logu(rng, 1e-7, 1e-3)        # narrow in comparison with its values
    if rng.random() < .25:
        a, w = int(a), max(1, int(w))
    f = float(rng.uniform(.05, .95))
    if how != 'const' and rng.random() < .12:                   # about zero
        a, w = -w, 2*w
        f = gen.pick(rng, [f, .5])
    elif how in ('pair', 'triple') and rng.random() < .06:      # from zero, up to zero
        a = gen.pick(rng, [0*a, -w])
    d = {'const': a, 'pair': (a, a + w), 'triple': (a, a + f*w, a + w), 'triple_low': (a, a, a + w), 'triple_high': (a, a + w, a + w),
         'zero2': (a, a), 'zero3': (a, a, a)}[how]
    if isinstance(d, tuple) and rng.random() < .4:
        d = list(d)
    return how, d


def law(rng, ob, idx):
    how, d = spec(rng, idx)
    ob.count('about_zero', isinstance(d, (tuple, list)) and d[0] == -d[-1] != 0)
    keep = d if not isinstance(d, list) else list(d)
    m = sto.compute_variate_mean(d)
    n = N if how not in ('const', 'zero2', 'zero3') else 20
    x = np.array([float(sto.generate_random_variate(d)) for _ in range(n)])
    require(d == keep, 'the specification was altered')
    ob.count('draws', n)
    ob.count('lists', isinstance(d, list))
    if how in ('const', 'zero2', 'zero3'):
        c = d if how == 'const' else d[0]
        require(np.all(x == c), 'constant %r sampled as %r', d, x[x != c][:1])
        close(m, c, 1e-15*abs(c)*4, 'mean of %r' % (d,))
        ob.count('constants' if how == 'const' else 'zero_width')
    else:
        a, b = d[0], d[-1]
        require(np.all((x >= a) & (x <= b)), '%r sampled outside: %r', d, x[(x < a) | (x > b)][:1])
        if len(d) == 2:
            F, want = st.uniform(a, b - a).cdf, (a + b)/2
            ob.count('ranges')
        else:
            F, want = st.triang((d[1] - a)/(b - a), a, b - a).cdf, (a + b + d[1])/3
            ob.count('triangles')
            ob.count('mode_at_end', how != 'triple')
        close(m, want, 1e-14*(abs(a) + abs(b)), 'mean of %r' % (d,))
        p = st.kstest(x, F).pvalue
        require(p > 1e-9, 'draws from %r do not follow it (p = %.3g, mean %r)', d, p, x.mean())
        require(abs(x.mean() - m) <= 6.5*x.std()/math.sqrt(n), 'draws from %r average %r, the stated mean is %r', d, x.mean(), m)
        r = np.corrcoef(x[1:], x[:-1])[0, 1]
        require(abs(r)*math.sqrt(n) < 6.5, 'consecutive draws from %r are correlated (%r)', d, r)
        require(len(np.unique(x)) > .9*n or (b - a) < 1e-9*max(abs(a), abs(b)), 'draws from %r repeat', d)
    ob.show({'spec': d, 'mean': m})
    ob.nontrivial(how, d)


def tails(rng, ob, idx):
    """The whole range is drawn from, up to its ends."""
    while True:
        how, d = spec(rng, 1 + idx % 4)
        if d[-1] - d[0] > 1e-4*max(abs(d[0]), abs(d[-1])):
            break
    a, b = d[0], d[-1]
    n = 250000
    x = np.array([sto.generate_random_variate(d) for _ in range(n)], dtype=float)
    F = st.uniform(a, b - a) if len(d) == 2 else st.triang((d[1] - a)/(b - a), a, b - a)
    # n times the probability beyond the extremes is exponential with mean one
    for p, what in ((F.cdf(x.min()), 'smallest'), (F.sf(x.max()), 'largest')):
        require(n*p < 24, 'the %s of %d draws from %r is %r: the end of the range is never drawn', what, n, d, x.min() if what == 'smallest' else x.max())
    p = st.kstest(x, F.cdf).pvalue
    require(p > 1e-10, 'draws from %r do not follow it (p = %.3g)', d, p)
    u = F.cdf(x)
    u = u - u.mean()
    s = float((u*u).sum())
    for lag in range(1, 65):
        r = float((u[lag:]*u[:-lag]).sum())/s
        require(abs(r)*math.sqrt(n) < 7, 'draws from %r, %d apart, are correlated (%r)', d, lag, r)
    # counts in equal parts vary as those of independent draws do
    v = F.cdf(x)
    for m in (10, 25, 64, 200, 1000):
        for k in (2, 5, 20):
            c = np.floor(v[:n - n % m].reshape(-1, m)*k).clip(0, k - 1)
            c = (c == 0).sum(1)
            e = float(((c - m/k)**2).mean())/(m/k*(1 - 1/k))
            w = math.sqrt((2 + (1 - 6/k*(1 - 1/k))/(m/k*(1 - 1/k)))/len(c))
            require(abs(e - 1) < 7.5*w, 'in runs of %d draws from %r the share of the lowest 1/%d varies %.3f times as independent draws do', m, d, k, e)
    ob.count('long_samples')
    ob.nontrivial(how, d, 'tails')


def malformed(rng, ob, idx):
    d = gen.pick(rng, [(), (1.0,), [2.0], (1, 2, 3, 4), [1.0, 2.0, 3.0, 4.0, 5.0], []])
    for f in (sto.generate_random_variate, sto.compute_variate_mean):
        try:
            v = f(d)
        except (sto.Error, TypeError, ValueError):
            ob.count('malformed')
        else:
            require(False, 'the specification %r gave %r', d, v)
    ob.nontrivial(d)


KINDS = {'law': (law, 1920, 12000), 'tails': (tails, 40, 200), 'malformed': (malformed, 160, 800)}
