"""Specifications are recognized as distributions exactly when they are ordered and within the bounds."""
import math
import numpy as np
import oneka.stochastic as sto
from fw import gen
from fw.core import require

PROP = 'D02'
RULE = ('random specifications of every length and type against random bounds (equal to ends, infinite, crossed, NaN), compared '
        'with the definition; accepted ones are sampled and stay within the bounds. Distinct by specification and bounds.')
REQUIRE = {'accepted': 600, 'rejected': 1500, 'at_a_bound': 200, 'unordered': 200, 'wrong_length': 200, 'wrong_type': 100, 'sampled': 600}


def judge(rng, ob, idx):
    for _ in range(20):
        lb, ub = gen.pick(rng, [(0, 1), (0, np.inf), (-np.inf, np.inf), (-5.0, 5), (2, 2), (0.0, 1.0)])
        pool = [0, 1, 2, 0.5, -1, -1.5, 3.25, 1e6, 5, -5.0, 2.0, 0.0, 1.0, float(rng.normal()), float(rng.random())]
        n = gen.pick(rng, [0, 1, 2, 2, 2, 3, 3, 3, 3, 4, -1, -1, -2])
        if n == -2:
            d = gen.pick(rng, [None, 'abc', '1', {}, {1, 2}, object(), b'12', 1j])
            want = False
            ob.count('wrong_type')
        elif n == -1:
            d = gen.pick(rng, pool + [math.nan])
            want = lb <= d <= ub
        else:
            v = [gen.pick(rng, pool) for _ in range(n)]
            if rng.random() < .6:
                v.sort()
            if v and rng.random() < .1:
                v[int(rng.integers(n))] = math.nan
            want = n in (2, 3) and all(a <= b for a, b in zip([lb] + v, v + [ub]))
            ob.count('wrong_length', n not in (2, 3))
            ob.count('unordered', n in (2, 3) and any(a > b for a, b in zip(v, v[1:])))
            d = tuple(v) if rng.random() < .5 else v
        got = sto.isdistribution(d, lb, ub)
        require(bool(got) == want, '%r within [%r, %r]: judged %r', d, lb, ub, got)
        ob.count('accepted' if want else 'rejected')
        if want:
            e = [d] if not isinstance(d, (list, tuple)) else list(d)
            ob.count('at_a_bound', lb in e or ub in e)
            x = [sto.generate_random_variate(d) for _ in range(5)] + [sto.compute_variate_mean(d)]
            s = 1e-12*(1 + max(abs(v) for v in e))
            require(all(lb - s <= v <= ub + s for v in x), '%r was accepted for [%r, %r] and sampled %r', d, lb, ub, x)
            ob.count('sampled')
    ob.show({'spec': repr(d), 'bounds': (lb, ub), 'accepted': want})
    ob.nontrivial(repr(d), lb, ub)


KINDS = {'judge': (judge, 2000, 10000)}
