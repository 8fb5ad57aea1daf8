"""Observations near wells are dropped, co-located ones are merged optimally, all others pass through unchanged."""
import copy
import math
import numpy as np
from oneka.utilities import filter_obs
from fw import gen
from fw.core import require, close
from fw.runs import Tape

PROP = 'U01'
FUEL = 1_000_000
RULE = ('networks of sites far apart, each with 1 to 5 records at the same place or within 0.45 m, interleaved in any order, '
        'with sites inside, at exactly, and outside the buffer of up to 60 wells; compared with an independent grouping; '
        'reordering changes nothing, filtering again changes nothing, total information is conserved for any clustering. '
        'Distinct by retained records.')
REQUIRE = {'networks': 250, 'merged': 400, 'single': 600, 'removed': 500, 'at_the_buffer': 40, 'interleaved': 100, 'permuted': 200, 'chains': 30, 'long_lists': 4, 'pairs_together': 80, 'pairs_apart': 100, 'pairs_at_a_metre': 20}


def near(records, wells, buffer):
    return [r for r in records if any(math.hypot(r[0] - w[0], r[1] - w[1]) <= buffer for w in wells)]


def rec(rng, x, y):
    z = float(rng.normal())*10 + 300
    s = gen.pick(rng, [.5, 1.0, 2, 1, gen.logu(rng, 1e-2, 20), gen.logu(rng, 1e-6, 1e3)])
    if rng.random() < .2:
        z = int(z)
    elif rng.random() < .08:
        z = gen.pick(rng, [0.0, 0, -4.25, 1e-9])
    return (x, y, z, s)


def information(rs):
    return sum(1/float(r[3])**2 for r in rs), sum(float(r[2])/float(r[3])**2 for r in rs)


def network(rng, ob, idx, many=False):
    o = gen.pick(rng, [(0.0, 0.0), (322579.0, 5093431.0), (-1500.0, 820.0)])
    L = gen.pick(rng, [300.0, 3000.0])
    wells = [(o[0] + float(round(rng.uniform(-L, L))), o[1] + float(round(rng.uniform(-L, L))), gen.pick(rng, [.25, .25, 1, 6.0, 120.0]), (100, 200))[:int(rng.integers(2, 5))]
             for _ in range(gen.pick(rng, [0, 1, 1, 3, 12, 12, 60]))]
    buffer = gen.pick(rng, [50, 100.0, 5, 1.5])
    if many:                                                # a long list of sites on a jittered grid
        s = 7.0
        m = gen.pick(rng, [18, 24, 30])
        sites = [(o[0] + s*(i % m) + float(rng.uniform(-2, 2)), o[1] + s*(i//m) + float(rng.uniform(-2, 2))) for i in range(m*m)]
        wells = wells[:1]
        ob.count('long_lists')
    else:
        sites = gen.network(rng, o, L, gen.pick(rng, [1, 3, 8, 20]))
    exact = 0
    if wells and buffer in (50, 100.0, 5):
        w = gen.pick(rng, wells)
        f = buffer/5.0
        for a, b in ((3*f, 4*f), (-buffer, 0.0), (0.0, buffer), (4*f, -3*f)):
            if rng.random() < .4:
                p = (w[0] + a, w[1] + b)
                if all(math.hypot(p[0] - s[0], p[1] - s[1]) > 3 for s in sites):
                    sites.append(p)
                    exact += 1
    keep = []
    for p in sites:
        if all(math.hypot(p[0] - q[0], p[1] - q[1]) > 2.5 for q in keep):
            keep.append(p)
    groups = []
    for x, y in keep:
        n = gen.pick(rng, [1, 1, 1, 2, 2, 3, 5])
        jit = rng.random() < .5
        g = [rec(rng, x, y)]
        for _ in range(n - 1):
            e = rng.uniform(-.3, .3, 2) if jit else (0, 0)
            g.append(rec(rng, x + float(e[0]), y + float(e[1])))
        groups.append(g)
    flat = [(k, r) for k, g in enumerate(groups) for r in g]
    if rng.random() < .7:
        flat = [flat[int(i)] for i in rng.permutation(len(flat))]
        ob.count('interleaved')
    records = [r if rng.random() < .9 else list(r) for k, r in flat]
    given = copy.deepcopy(records)
    with Tape() as tape:
        got = filter_obs(records, wells, buffer)
    text = '\n'.join(tape.lines)
    for r in given:
        require(str(r) in text, 'the log does not say what became of %r', r)
        ob.count('logged')
    require(records == given, 'the observations passed in were altered')
    want = []
    for g in groups:
        out = {id(r) for r in near(g, wells, buffer)}
        left = [r for r in g if id(r) not in out]
        ob.count('removed', len(out))
        if left:
            want.append(left)
    ob.count('at_the_buffer', exact)
    require(len(got) == len(want), '%d records retained, expected %d (of %d, buffer %r)', len(got), len(want), len(records), buffer)
    pool = list(got)
    for left in want:
        m = [r for r in pool if any(math.hypot(r[0] - q[0], r[1] - q[1]) < 1e-9*(1 + abs(q[0]) + abs(q[1]))*1e-3 or (r[0] == q[0] and r[1] == q[1]) for q in left)]
        m = m or [r for r in pool if math.hypot(r[0] - left[0][0], r[1] - left[0][1]) < 1]
        require(len(m) == 1, '%d records retained for the site of %r', len(m), left[0])
        r = m[0]
        pool.remove(r)
        require(len(r) == 4, 'a retained record has %d fields', len(r))
        require(min(q[0] for q in left) - 1e-9 <= r[0] <= max(q[0] for q in left) + 1e-9 and min(q[1] for q in left) - 1e-9 <= r[1] <= max(q[1] for q in left) + 1e-9,
                'the record for %r is placed at %r', left, r[:2])
        if len(left) == 1:
            require(tuple(r) == tuple(left[0]), 'a lone observation %r was changed to %r', left[0], r)
            ob.count('single')
        else:
            W, WZ = information(left)
            close(r[2], WZ/W, 1e-10*(1 + abs(WZ/W)), 'merged level of %r' % (left,))
            close(r[3], math.sqrt(1/W), 1e-10*math.sqrt(1/W), 'merged standard deviation of %r' % (left,))
            ob.count('merged')
    again = filter_obs(list(got), wells, buffer)
    require([tuple(r) for r in again] == [tuple(r) for r in got], 'filtering twice changes the result')
    perm = filter_obs([given[int(i)] for i in rng.permutation(len(given))], wells, buffer)
    a = sorted((round(float(r[2]), 6), round(float(r[3]), 9)) for r in got)
    b = sorted((round(float(r[2]), 6), round(float(r[3]), 9)) for r in perm)
    require(len(a) == len(b) and all(abs(p[0] - q[0]) <= 2e-6 and abs(p[1] - q[1]) <= 2e-9*(1 + p[1]) for p, q in zip(a, b)),
            'reordering the observations changes what is retained')
    ob.count('permuted')
    ob.count('networks')
    ob.show({'wells': len(wells), 'buffer': buffer, 'records': len(records), 'retained': len(got)})
    ob.nontrivial(got)


def chain(rng, ob, idx):
    """Records in chains and clouds (grouping is not unique): nothing is lost, retained records are apart."""
    o = gen.pick(rng, [(0.0, 0.0), (322579.0, 5093431.0)])
    n = gen.pick(rng, [3, 6, 15])
    if rng.random() < .5:
        pts = [(o[0] + .6*i, o[1]) for i in range(n)]
    else:
        pts = [(o[0] + float(rng.normal()), o[1] + float(rng.normal())) for i in range(n)]
    records = [rec(rng, *pts[int(i)]) for i in rng.permutation(n)]
    got = filter_obs(list(records), [(o[0] + 1e4, o[1], .2, 3)], 10)
    W, WZ = information(records)
    V, VZ = information(got)
    close(V, W, 1e-9*W, 'total weight of the retained observations')
    close(VZ, WZ, 1e-9*abs(WZ), 'weighted total of the retained observations')
    for i, a in enumerate(got):
        for b in got[:i]:
            require(math.hypot(a[0] - b[0], a[1] - b[1]) >= 1 - 1e-9, 'two retained observations are at one location: %r and %r', a, b)
    ob.count('chains')
    ob.nontrivial(got)


def apart(rng, ob, idx):
    """Two records alone: one place below a metre, two places from a metre on."""
    o = gen.pick(rng, [(0.0, 0.0), (322579.0, 5093431.0), (-1500.0, 820.0), (17.0, -4.0)])
    d = gen.pick(rng, [0.0, .2, .5, .9, .99, .999, 1.0, 1.0, 1.001, 1.01, 1.1, 1.5, 2.0, 2.5, 5.0])
    if d in (0.0, 1.0, 2.0, 5.0):
        e = gen.pick(rng, [(d, 0.0), (0.0, d), (-d, 0.0), (0.0, -d)])       # exactly
    else:
        t = rng.uniform(0, 2*math.pi)
        e = (d*math.cos(t), d*math.sin(t))
    pair = [rec(rng, *o), rec(rng, o[0] + e[0], o[1] + e[1])]
    far = [rec(rng, o[0] + 40.0*(i + 1), o[1] - 30.0) for i in range(gen.pick(rng, [0, 2, 5]))]
    records = pair + far
    records = [records[int(i)] for i in rng.permutation(len(records))]
    got = filter_obs(list(records), [(o[0] + 1e4, o[1], .2, 3)], 10)
    one = d < 1
    require(len(got) == len(far) + (1 if one else 2), 'two observations %r m apart became %d', d, len(got) - len(far))
    if one:
        W, WZ = information(pair)
        m = [r for r in got if math.hypot(r[0] - o[0], r[1] - o[1]) < 1]
        require(len(m) == 1, '%d records where two observations were merged', len(m))
        close(m[0][2], WZ/W, 1e-10*(1 + abs(WZ/W)), 'merged level')
        close(m[0][3], math.sqrt(1/W), 1e-10, 'merged standard deviation')
    else:
        require(all(tuple(r) in [tuple(g) for g in got] for r in pair), 'observations %r m apart were changed: %r', d, got)
    ob.count('pairs_together' if one else 'pairs_apart')
    ob.count('pairs_at_a_metre', d == 1)
    ob.nontrivial(got)


def long(rng, ob, idx):
    """A list of a thousand records and more."""
    network(rng, ob, idx, many=True)


long.FUEL = 60_000_000
KINDS = {'long': (long, 8, 40), 'apart': (apart, 300, 1500), 'network': (network, 1600, 8000), 'chain': (chain, 300, 1000)}
