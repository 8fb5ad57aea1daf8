"""
Independent reference oracles (none of this imports the code under test).
"""
import math

import numpy as np
from scipy.integrate import solve_ivp

LD = np.longdouble
PI = LD('3.14159265358979323846264338327950288')


# ---------------------------------------------------------------- flow model
def potential(coef, xo, yo, wells, x, y):
    """(value, sum of absolute terms) of the discharge potential in extended precision."""
    c = [LD(float(v)) for v in np.ravel(coef)]
    dx, dy = LD(x) - LD(xo), LD(y) - LD(yo)
    terms = [c[0]*dx*dx, c[1]*dy*dy, c[2]*dx*dy, c[3]*dx, c[4]*dy, c[5]]
    v, m = potential_wells(wells, x, y)
    return sum(terms) + v, sum(abs(t) for t in terms) + m


def potential_wells(wells, x, y):
    v = m = LD(0)
    for w in wells:
        dx, dy = LD(x) - LD(w[0]), LD(y) - LD(w[1])
        t = LD(w[3])/(2*PI)*np.log(np.hypot(dx, dy))
        v += t
        m += abs(t) + abs(LD(w[3]))*LD(1e-3)
    return v, m


def discharge(coef, xo, yo, wells, x, y):
    """((Qx, Qy), magnitude) of the vertically integrated discharge."""
    c = [LD(float(v)) for v in np.ravel(coef)]
    dx, dy = LD(x) - LD(xo), LD(y) - LD(yo)
    qx = -(2*c[0]*dx + c[2]*dy + c[3])
    qy = -(2*c[1]*dy + c[2]*dx + c[4])
    m = abs(2*c[0]*dx) + abs(c[2]*dy) + abs(c[3]) + abs(2*c[1]*dy) + abs(c[2]*dx) + abs(c[4])
    for w in wells:
        ex, ey = LD(x) - LD(w[0]), LD(y) - LD(w[1])
        r2 = ex*ex + ey*ey
        f = LD(w[3])/(2*PI)/r2
        qx -= f*ex
        qy -= f*ey
        m += abs(f)*np.sqrt(r2)
    return (qx, qy), m


def head_of_potential(pot, k, h):
    """Head above the base, or None where the aquifer is dry."""
    pot, k, h = LD(pot), LD(k), LD(h)
    if pot <= 0:
        return None
    if pot < k*h*h/2:
        return np.sqrt(2*pot/k)
    return pot/(k*h) + h/2


def potential_of_head(head, k, h):
    head, k, h = LD(head), LD(k), LD(h)
    return k*head*head/2 if head <= h else k*h*head - k*h*h/2


def fast_velocity(k, p, h, wells, xo, yo, coef, confined, sign=1.0):
    """A plain float velocity function v(x, y) for the ODE references; None where dry."""
    A, B, C, D, E, F = [float(v) for v in np.ravel(coef)]
    w = np.array([[float(v) for v in u] for u in wells], dtype=float).reshape(-1, 4)
    wx, wy, wq = w[:, 0], w[:, 1], w[:, 3]/(2*math.pi)

    def vel(x, y):
        dx, dy = x - xo, y - yo
        ex, ey = x - wx, y - wy
        r2 = ex*ex + ey*ey
        qx = -(2*A*dx + C*dy + D) - np.dot(wq, ex/r2)
        qy = -(2*B*dy + C*dx + E) - np.dot(wq, ey/r2)
        if confined:
            b = h
        else:
            pot = A*dx*dx + B*dy*dy + C*dx*dy + D*dx + E*dy + F + np.dot(wq, np.log(r2))/2
            if pot <= 0:
                return None
            b = min(h, math.sqrt(2*pot/k))
        return sign*qx/(b*p), sign*qy/(b*p)
    return vel


# ---------------------------------------------------------------- fitting
def fit_system(obs, base, k, h, wells, xo, yo):
    """The weighted system (WA, Wb) in extended precision."""
    n = len(obs)
    WA, Wb = np.zeros((n, 6), dtype=LD), np.zeros(n, dtype=LD)
    for i, (x, y, z, s) in enumerate(obs):
        head, s = LD(z) - LD(base), LD(s)
        if head >= LD(h):
            pot, std = LD(k)*LD(h)*(head - LD(h)/2), LD(k)*LD(h)*s
        else:
            pot, std = LD(k)*(head*head + s*s)/2, LD(k)*head*s
        dx, dy = LD(x) - LD(xo), LD(y) - LD(yo)
        WA[i] = np.array([dx*dx, dy*dy, dx*dy, dx, dy, LD(1)], dtype=LD)/std
        Wb[i] = (pot - potential_wells(wells, x, y)[0])/std
    return WA, Wb


def qr(A):
    """Twice-iterated modified Gram-Schmidt in extended precision."""
    Q = A.copy()
    m = A.shape[1]
    R = np.zeros((m, m), dtype=LD)
    for _ in range(2):
        S = np.zeros((m, m), dtype=LD)
        for j in range(m):
            for i in range(j):
                S[i, j] = np.sum(Q[:, i]*Q[:, j])
                Q[:, j] = Q[:, j] - S[i, j]*Q[:, i]
            S[j, j] = np.sqrt(np.sum(Q[:, j]**2))
            Q[:, j] = Q[:, j]/S[j, j]
        R = S if _ == 0 else ldmul(S, R)
    return Q, R


def ldmul(A, B):
    return np.array([[np.sum(A[i, :]*B[:, j]) for j in range(B.shape[1])] for i in range(A.shape[0])], dtype=LD)


def tri_inv(R):
    m = R.shape[0]
    X = np.zeros((m, m), dtype=LD)
    for j in range(m):
        for i in range(m - 1, -1, -1):
            X[i, j] = ((LD(1) if i == j else LD(0)) - np.sum(R[i, i+1:]*X[i+1:, j]))/R[i, i]
    return X


def fit(obs, base, k, h, wells, xo, yo):
    """(coef, R, cov): coef = argmin |WA c - Wb|, WA = Q R, cov = inv(R'R)."""
    WA, Wb = fit_system(obs, base, k, h, wells, xo, yo)
    s = np.sqrt(np.sum(WA**2, axis=0))
    Q, R = qr(WA/s)
    Ri = tri_inv(R)
    c = ldmul(Ri, ldmul(Q.T, Wb[:, None]))[:, 0]/s
    W = Ri/s[:, None]
    return c, R*s, ldmul(W, W.T), (WA, Wb)


def conditioning(obs, xo, yo):
    """Condition number of the column-scaled regressors (well-posedness of a network)."""
    o = np.array([[float(v) for v in ob] for ob in obs])
    dx, dy = o[:, 0] - xo, o[:, 1] - yo
    A = np.stack([dx*dx, dy*dy, dx*dy, dx, dy, np.ones(len(o))], axis=1)/o[:, 3:4]
    return np.linalg.cond(A/np.linalg.norm(A, axis=0))


# ---------------------------------------------------------------- tracing
class Dry(Exception):
    pass


class Stiff(Exception):
    """The reference solver would take too long (a path along a singularity): nothing to judge."""


def trace(vel, xs, ys, duration, ds, rtol=1e-9, atol=1e-7):
    """
    Dense reference path of dx/dt = vel(x, y) over |duration| (the caller folds
    the direction into vel). Returns (points, completed). Spacing <= ds.
    """
    budget = [400000]

    def f(t, u):
        budget[0] -= 1
        if budget[0] < 0:
            raise Stiff('the reference path cannot be followed at an affordable cost')
        v = vel(u[0], u[1])
        if v is None:
            raise Dry()
        return v

    def speed(u):
        v = vel(u[0], u[1])
        return math.hypot(*v)
    pts = [np.array([xs, ys], dtype=float)]
    T = abs(duration)
    from scipy.integrate import DOP853
    t, cap, done = 0.0, np.inf, False
    for attempt in range(9):
        s = None
        try:
            v = math.hypot(*f(t, pts[-1]))
            first = min(cap, T - t, .1*ds/v if v > 0 else np.inf)
            s = DOP853(f, t, pts[-1], T, rtol=rtol, atol=atol, max_step=cap, first_step=first)
            while s.status == 'running':
                s.step()
                if s.status == 'failed':
                    break
                d = s.dense_output()
                n = max(1, int(math.ceil(2*math.hypot(*(s.y - pts[-1]))/ds)), int(math.ceil(speed(s.y)*(s.t - s.t_old)/ds)))
                n = min(n, 20000)
                u = d(np.linspace(s.t_old, s.t, n + 1)[1:])
                pts.extend(u.T)
                t = s.t
            done = s.status == 'finished'
            break
        except Dry:
            # approach the place where the velocity ends in ever smaller steps
            v = vel(*pts[-1])
            if v is None:
                break
            step = math.hypot(*v)*(min(cap, T - t))
            if step < .02*ds:
                break
            cap = min(cap, T - t, 40*ds/max(math.hypot(*v), 1e-300))/6
    return np.array(pts), done


def exact_dist2(ax, ay, bx, by, cx, cy):
    """Squared point-segment distance in exact rational arithmetic."""
    from fractions import Fraction as Fr
    ax, ay, bx, by, cx, cy = [Fr(float(v)) if not isinstance(v, int) else Fr(v) for v in (ax, ay, bx, by, cx, cy)]
    ux, uy, vx, vy = bx - ax, by - ay, cx - ax, cy - ay
    L = ux*ux + uy*uy
    if L == 0:
        return vx*vx + vy*vy
    t = (ux*vx + uy*vy)/L
    t = min(max(t, Fr(0)), Fr(1))
    ex, ey = vx - t*ux, vy - t*uy
    return ex*ex + ey*ey


# ---------------------------------------------------------------- rasters
class Lattice:
    """Distances from a set of tracks to the nodes of an unbounded lattice (xo + i dx, yo + j dy)."""

    def __init__(self, xo, yo, dx, dy, imin, imax, jmin, jmax):
        self.xo, self.yo, self.dx, self.dy = float(xo), float(yo), float(dx), float(dy)
        self.imin, self.jmin = int(imin), int(jmin)         # column, row
        self.x = self.xo + np.arange(imin, imax + 1)*self.dx
        self.y = self.yo + np.arange(jmin, jmax + 1)*self.dy
        self.d2 = np.full((len(self.y), len(self.x)), np.inf)

    def add(self, pts, reach):
        """Fold in the distance to a polyline, exact up to `reach` (inf beyond)."""
        pts = np.asarray(pts, dtype=float)
        segs = zip(pts[:-1], pts[1:]) if len(pts) > 1 else [(pts[0], pts[0])]
        for a, b in segs:
            x0, x1 = min(a[0], b[0]) - reach, max(a[0], b[0]) + reach
            y0, y1 = min(a[1], b[1]) - reach, max(a[1], b[1]) + reach
            i0 = max(0, int(math.floor((x0 - self.x[0])/self.dx)))
            i1 = min(len(self.x), int(math.ceil((x1 - self.x[0])/self.dx)) + 1)
            j0 = max(0, int(math.floor((y0 - self.y[0])/self.dy)))
            j1 = min(len(self.y), int(math.ceil((y1 - self.y[0])/self.dy)) + 1)
            if i0 >= i1 or j0 >= j1:
                continue
            X, Y = self.x[i0:i1][None, :] - a[0], self.y[j0:j1][:, None] - a[1]
            ux, uy = b[0] - a[0], b[1] - a[1]
            L = ux*ux + uy*uy
            if L > 0:
                t = np.clip((X*ux + Y*uy)/L, 0, 1)
                d2 = (X - t*ux)**2 + (Y - t*uy)**2
            else:
                d2 = X*X + Y*Y
            np.minimum(self.d2[j0:j1, i0:i1], d2, out=self.d2[j0:j1, i0:i1])


def simplify(pts, eps):
    """Drop dense-path points while staying within eps (greedy chords): a cheaper polyline."""
    pts = np.asarray(pts)
    out = [0]
    n = len(pts)
    i = 0
    while i < n - 1:
        step = 1
        j = i + 1
        while True:
            k = min(n - 1, i + step*2)
            if k == j:
                break
            a, b = pts[i], pts[k]
            u = b - a
            L = math.hypot(*u)
            seg = pts[i+1:k] - a
            if L == 0:
                dev = np.hypot(seg[:, 0], seg[:, 1]).max(initial=0)
            else:
                t = np.clip((seg @ u)/(L*L), 0, 1)
                e = seg - t[:, None]*u
                dev = np.hypot(e[:, 0], e[:, 1]).max(initial=0)
            if dev > eps:
                break
            j = k
            step *= 2
        out.append(j)
        i = j
    return pts[out]


def field_on_lattice(pf, xo, yo):
    """
    The world position of a field's nodes as integer lattice offsets from (xo, yo):
    (imin, jmin). Raises ValueError when the nodes are off the lattice.
    """
    fi, fj = (pf.xmin - xo)/pf.deltax, (pf.ymin - yo)/pf.deltay
    i, j = int(round(fi)), int(round(fj))
    slack = 1e-9 + 1e-12*(abs(xo) + abs(pf.xmin))/pf.deltax + 1e-12*(abs(yo) + abs(pf.ymin))/pf.deltay
    slack = slack*max(1, pf.ncols, pf.nrows)**0.5
    if abs(fi - i) > slack or abs(fj - j) > slack:
        raise ValueError('grid node (%r, %r) is off the lattice through (%r, %r)' % (pf.xmin, pf.ymin, xo, yo))
    return i, j


def rebase(coef, xo, yo, x1, y1):
    """The coefficients of the same regional flow about another origin."""
    A, B, C, D, E, F = (LD(float(c)) for c in np.ravel(coef))
    dx, dy = LD(float(x1)) - LD(float(xo)), LD(float(y1)) - LD(float(yo))
    return np.array([A, B, C, D + 2*A*dx + C*dy, E + 2*B*dy + C*dx, F + A*dx*dx + B*dy*dy + C*dx*dy + D*dx + E*dy])
