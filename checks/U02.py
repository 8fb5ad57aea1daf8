"""The summary table states the count, extremes, median, mean and standard deviation of the data, ignoring missing values."""
import math
import numpy as np
from oneka.utilities import summary_statistics
from fw import gen
from fw.core import require

PROP = 'U02'
FUEL = 1_000_000
RULE = ('random tables of 1 to 60 records and 1 to 6 variables (repeated, constant, large, negative, missing values; tuples, '
        'lists, arrays), tables parsed back from the text. Distinct by text.')
REQUIRE = {'tables': 250, 'cells': 4000, 'with_missing': 60, 'singletons': 20, 'even': 60, 'odd': 60, 'outliers': 4}


def table(rng, ob, idx):
    n = gen.pick(rng, [1, 2, 3, 4, 7, 10, 25, 60]) if rng.random() < .95 else gen.pick(rng, [101, 1001, 2500, 6000])
    m = gen.pick(rng, [1, 2, 4, 4, 6])
    s = [gen.pick(rng, [1.0, 100.0, 5e6, 1e-2]) for _ in range(m)]
    X = rng.normal(size=(n, m))*s
    if rng.random() < .3:
        X[:, 0] = X[0, 0]
    if rng.random() < .3:
        X = np.round(X, 1)
    if rng.random() < .2 or n > 900 and rng.random() < .5:
        X[int(rng.integers(n)), 0] *= gen.pick(rng, [1e3, -1e4, 1e5])          # one value far off all others
        ob.count('outliers', n > 900)
    if n > 1 and rng.random() < .4:
        for j in range(m):
            k = rng.random(n) < .3
            k[int(rng.integers(n))] = False
            X[k, j] = np.nan
        ob.count('with_missing')
    fm = [gen.pick(rng, ['24.6f', '22.3f', '21.6e', '24.9g']) for _ in range(m)]
    names = ['v%d' % j if rng.random() < .7 else 'Head' for j in range(m)]
    vals = X if rng.random() < .3 else [tuple(float(v) for v in r) for r in X] if rng.random() < .5 else [list(r) for r in X]
    title = gen.pick(rng, ['Retained Observations', 'T', 'a longer title than usual'])
    text = summary_statistics(vals, names, fm, title).getvalue()
    lines = text.split('\n')
    require(any(l.strip() == title for l in lines), 'the title is not in the table')
    require(any(l.split() == names for l in lines), 'the variable names are not in the table')
    rows = {l[:3]: l[4:].split() for l in lines if l[3:4] == ':'}
    f = {'cnt': len, 'min': np.min, 'med': np.median, 'max': np.max, 'avg': np.mean, 'std': np.std}
    for k, g in f.items():
        require(k in rows and len(rows[k]) == m, 'row %r of the table: %r', k, rows.get(k))
        for j in range(m):
            x = X[:, j]
            x = x[~np.isnan(x)]
            want = float(g(x))
            got = float(rows[k][j])
            d = fm[j]
            prec = int(d.split('.')[1][:-1])
            tol = {'f': .51*10.0**-prec, 'e': abs(want)*10.0**-prec*.51, 'g': abs(want)*10.0**(1 - prec)*.51}[d[-1]] + 1e-12*(1 + np.abs(x).max())
            if k == 'cnt':
                tol = 0
            require(abs(got - want) <= tol, '%s of variable %d: the table says %r, the data say %r', k, j, got, want)
            ob.count('cells')
    ob.count('tables')
    ob.count('singletons', n == 1)
    ob.count('even', n % 2 == 0)
    ob.count('odd', n % 2)
    ob.show({'records': n, 'variables': m, 'text': lines[2:10]})
    ob.nontrivial(text)


KINDS = {'table': (table, 1600, 8000)}
