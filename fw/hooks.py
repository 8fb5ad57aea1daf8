"""Monitors attached from outside: what each registered realization was computed with."""
import contextlib

import numpy as np

import oneka.model
import oneka.probabilityfield


# Every way to ask a model for a velocity; only the outermost call is recorded.
VELOCITIES = ('compute_velocity', 'compute_velocity_confined', 'compute_discharge')


class Realization:
    def __init__(self):
        self.params = None
        self.model = None
        self.mixed = False
        self.calls = 0
        self.grid = None            # (xmin, ymin, rgrid) when registered
        self.weight = None


def describe(mo):
    return (mo.base, float(mo.conductivity), float(mo.porosity), float(mo.thickness),
            tuple((float(w[0]), float(w[1]), float(w[2]), float(w[3])) for w in mo.wells),
            tuple(float(c) for c in np.ravel(mo.coef)), float(mo.xo), float(mo.yo))


@contextlib.contextmanager
def watch_realizations(snapshots=True):
    """Yields the list of realizations registered while the block runs, and the open one."""
    M, P = oneka.model.Model, oneka.probabilityfield.ProbabilityField
    done = []
    cur = [Realization()]
    depth = [0]
    saved = [(M, n, M.__dict__[n]) for n in VELOCITIES] + [(P, 'register', P.__dict__['register'])]

    def wrap(name, f):
        def g(self, *a, **k):
            if depth[0] == 0:
                r = cur[0]
                r.calls += 1
                p = describe(self)
                if r.params is None:
                    r.params = p
                elif r.params != p:
                    r.mixed = True
            depth[0] += 1
            try:
                return f(self, *a, **k)
            finally:
                depth[0] -= 1
        return g

    reg = P.__dict__['register']

    def register(self, weight, *a, **k):
        r = cur[0]
        r.weight = weight
        if snapshots:
            r.grid = (self.xmin, self.ymin, self.rgrid.copy())
        done.append(r)
        cur[0] = Realization()
        return reg(self, weight, *a, **k)

    for n in VELOCITIES:
        setattr(M, n, wrap(n, M.__dict__[n]))
    P.register = register
    try:
        yield done
    finally:
        for c, n, f in saved:
            setattr(c, n, f)


class Frozen:
    """A field-like view of a snapshot, for the raster oracles."""

    def __init__(self, pf, grid):
        self.deltax, self.deltay = pf.deltax, pf.deltay
        self.xmin, self.ymin, g = grid
        self.rgrid = g
        self.pgrid = np.zeros(g.shape)
        self.nrows, self.ncols = g.shape
        self.xmax = self.xmin + (self.ncols - 1)*self.deltax
        self.ymax = self.ymin + (self.nrows - 1)*self.deltay
