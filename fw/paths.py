"""Velocity fields, a reference Dormand-Prince integrator and path oracles for the tracing checks."""
import math

import numpy as np
import scipy.linalg

from fw import gen


class Field:
    """v(x, y) for scalars or arrays; counts the evaluations the tracer makes."""

    def __init__(self, name, f, flow=None, start=None, horizon=None, amp=None, **info):
        self.name, self.f, self.flow, self.start, self.horizon, self.amp, self.info = name, f, flow, start, horizon, amp, info
        self.calls = 0
        self.where = []

    def __call__(self, xy):
        self.calls += 1
        self.where.append((float(xy[0]), float(xy[1])))
        u, v = self.f(float(xy[0]), float(xy[1]))
        return np.array([u, v])


def uniform(rng, o):
    s, t = gen.logu(rng, 1e-4, 5), rng.uniform(0, 2*math.pi)
    if rng.random() < .3:
        t = gen.pick(rng, [0, math.pi/2, math.pi])
    a, b = s*math.cos(t), s*math.sin(t)
    L = gen.logu(rng, 1, 2000)
    return Field('uniform', lambda x, y: (a + 0*x, b + 0*y), lambda x, y, t: (x + a*t, y + b*t),
                 (o[0] + rng.normal()*10, o[1] + rng.normal()*10), L/s, lambda T: 1.0, v=(a, b))


def linear(rng, o):
    """v = M (x - c) + b."""
    how = gen.pick(rng, ['rotation', 'saddle', 'spiral', 'sink', 'shear'])
    w = gen.logu(rng, 1e-4, 1e-1)
    if how == 'rotation':
        M = np.array([[0, -w], [w, 0]])
    elif how == 'saddle':
        M = np.diag([w, -w])
    elif how == 'spiral':
        M = np.array([[.15*w, -w], [w, .15*w]])
    elif how == 'sink':
        M = -np.diag([w, .6*w])
    else:
        M = np.array([[0, w], [0, 0]])
    R = gen.logu(rng, 5, 800)
    a = rng.uniform(0, 2*math.pi)
    Q = np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])
    if how != 'rotation':
        M = Q @ M @ Q.T
    m = [[float(v) for v in r] for r in M]
    b = np.array([w*R*.3*rng.normal(), w*R*.3*rng.normal()]) if rng.random() < .5 else np.zeros(2)
    T = rng.uniform(.5, 2.2)/w
    G = np.zeros((3, 3))
    G[:2, :2], G[:2, 2] = M, b
    b0, b1 = float(b[0]), float(b[1])

    def f(x, y):
        ex, ey = x - o[0], y - o[1]
        return m[0][0]*ex + m[0][1]*ey + b0, m[1][0]*ex + m[1][1]*ey + b1

    def flow(x, y, t):
        r = scipy.linalg.expm(G*t) @ np.array([x - o[0], y - o[1], 1.0])
        return o[0] + r[0], o[1] + r[1]
    t = rng.uniform(0, 2*math.pi)
    return Field(how, f, flow, (o[0] + R*math.cos(t), o[1] + R*math.sin(t)), T,
                 lambda T: max(np.linalg.norm(scipy.linalg.expm(M*s), 2) for s in np.linspace(-T, T, 9)), M=M, b=b)


def radial(rng, o):
    """A single well: r dr/dt = a. Outward (backtracing a pumping well) or inward, stopping short of it."""
    a = gen.logu(rng, 1e-2, 50)
    r0 = gen.pick(rng, [1.25, 1.0762, 2.0, 30.0])
    out = rng.random() < .7
    if out:
        r1 = r0*gen.logu(rng, 1.5, 400)
    else:
        r0, r1 = r0*gen.logu(rng, 3, 200), r0
        a = -a
    T = abs(r1*r1 - r0*r0)/2/abs(a)

    def f(x, y):
        ex, ey = x - o[0], y - o[1]
        r2 = ex*ex + ey*ey
        return a*ex/r2, a*ey/r2

    def flow(x, y, t):
        ex, ey = x - o[0], y - o[1]
        s = math.sqrt(1 + 2*a*t/(ex*ex + ey*ey))
        return o[0] + ex*s, o[1] + ey*s
    t = rng.uniform(0, 2*math.pi)
    return Field('outward' if out else 'inward', f, flow, (o[0] + r0*math.cos(t), o[1] + r0*math.sin(t)), T,
                 lambda T: max(r1/r0, r0/r1), a=a, r0=r0)


def wavy(rng, o):
    """Speed or direction changes again and again along a long path: the step has to follow for hundreds of legs."""
    lam, s, t = gen.logu(rng, 12, 120), gen.logu(rng, 1e-3, 3), rng.uniform(0, 2*math.pi)
    if rng.random() < .6:
        t = gen.pick(rng, [0, math.pi/2, math.pi, -math.pi/2])
    c, d = (math.cos(t), math.sin(t)) if t not in (0, math.pi/2, math.pi, -math.pi/2) else (round(math.cos(t)), round(math.sin(t)))
    n = float(rng.uniform(3, 40))
    A = float(rng.uniform(.3, .9))
    if rng.random() < .5:                                  # pulsating: faster and slower along a straight line
        def f(x, y):
            q = s*(1 + A*np.sin((c*(x - o[0]) + d*(y - o[1]))/lam))
            return c*q, d*q
        return Field('pulsating', f, None, (o[0] + rng.normal()*lam, o[1] + rng.normal()*lam), n*lam/s/math.sqrt(1 - A*A), lambda T: (1 + A)/(1 - A))

    def f(x, y):                                           # meandering: steady across, swinging to and fro
        q = s*A*np.cos((c*(x - o[0]) + d*(y - o[1]))/lam)
        return c*s - d*q, d*s + c*q

    def flow(x, y, T):
        u0 = c*(x - o[0]) + d*(y - o[1])
        u, w = s*T, A*lam*(math.sin((u0 + s*T)/lam) - math.sin(u0/lam))
        return x + c*u - d*w, y + d*u + c*w
    return Field('meandering', f, flow, (o[0] + rng.normal()*lam, o[1] + rng.normal()*lam), n*lam/s, lambda T: 1 + 2*A)


def gusty(rng, o):
    """Round and round, with a narrow stretch where the water is many times faster: the step has to shrink late in the trace."""
    R, w = gen.logu(rng, 30, 300), gen.logu(rng, 1e-3, .1)
    b, G, n = R*float(rng.uniform(.1, .3)), gen.pick(rng, [3, 10, 50.0]), float(rng.uniform(1.2, 4))
    x0 = o[0] - R*float(rng.uniform(.3, .9))

    def f(x, y):
        ex, ey = x - o[0], y - o[1]
        q = w*(1 + G*np.exp(-((x - x0)/b)**2))
        return -ey*q, ex*q
    t = rng.uniform(-.5, .5)
    F = Field('gusty', f, None, (o[0] + R*math.cos(t), o[1] + R*math.sin(t)), n*5.5/w, lambda T: 1.0)
    F.width = b
    return F


def wells(rng, o):
    """Regional flow, recharge and several wells: the field the program traces."""
    sc = gen.Scenario(rng, o=o, inject=False)
    return from_scenario(sc, rng)


def from_scenario(sc, rng, sign=-1.0):
    A, B, C, D, E, F = [float(v) for v in sc.coef]
    W = np.array([[float(v) for v in w] for w in sc.wells])
    s = sign/(sc.h*sc.p)

    def f(x, y):
        dx, dy = x - sc.xt, y - sc.yt
        qx, qy = -(2*A*dx + C*dy + D), -(2*B*dy + C*dx + E)
        for w in W:
            ex, ey = x - w[0], y - w[1]
            g = w[3]/(2*math.pi)/(ex*ex + ey*ey)
            qx, qy = qx - g*ex, qy - g*ey
        return s*qx, s*qy
    t = rng.uniform(0, 2*math.pi)
    r = sc.rtarget + 1
    return Field('wells', f, None, (sc.xt + r*math.cos(t), sc.yt + r*math.sin(t)), sc.reach(), None, scenario=sc.describe())


def any_field(rng, o, kinds=(uniform, linear, radial, radial, wells, wells, wavy)):
    return kinds[int(rng.integers(len(kinds)))](rng, o)


# ------------------------------------------------------------------------------
# The classical Dormand-Prince 5(4) tableau, written from the published coefficients.
DP_A = [[1/5], [3/40, 9/40], [44/45, -56/15, 32/9], [19372/6561, -25360/2187, 64448/6561, -212/729],
        [9017/3168, -355/33, 46732/5247, 49/176, -5103/18656], [35/384, 0.0, 500/1113, 125/192, -2187/6784, 11/84]]
DP_B4 = [5179/57600, 0.0, 7571/16695, 393/640, -92097/339200, 187/2100, 1/40]


def dopri(f, x, y, duration, tol, maxstep, cap=10**7):
    """(number of velocity evaluations, accepted steps) a Dormand-Prince tracer with this control spends."""
    t, dt = 0.0, math.copysign(0.1, duration)
    u = np.array([x, y], dtype=float)
    calls = 1
    k = [np.array(f(*u))]
    sp = math.hypot(*k[0])
    if sp*abs(dt) > maxstep:
        dt = math.copysign(.9*maxstep/sp, duration)
    steps = 0
    b5 = DP_A[-1] + [0.0]
    while abs(t) < abs(duration) and calls < cap:
        if abs(t + dt) > abs(duration):
            dt = duration - t
        k = k[:1]
        for row in DP_A:
            k.append(np.array(f(*(u + dt*sum(a*q for a, q in zip(row, k))))))
            calls += 1
        new = u + dt*sum(a*q for a, q in zip(b5, k))
        err = np.abs(dt*sum((a - b)*q for a, b, q in zip(b5, DP_B4, k))).max()
        ds = math.hypot(*(new - u))
        if err < tol and ds < maxstep:
            t, u, steps = t + dt, new, steps + 1
            k[0] = k[-1]
        dt *= 0.9*min((tol/(err + 1e-300))**.2, maxstep/(ds + 1e-300), 10)
    return calls, steps


def shadow(f, pts, sign):
    """
    For each consecutive pair: the transverse miss of the exact streamline through the first
    vertex past the second, the travel time between them, and the smallest speed on the way.
    f takes arrays. Reference: RK4 with many substeps and a Newton solve for the time.
    """
    a, b = pts[:-1].T, (pts[1:] - pts[:-1]).T           # b and u are displacements from a
    g = lambda u: sign*np.array(f(a[0] + u[0], a[1] + u[1]))
    ds = np.maximum(np.hypot(*b), 1e-300)
    t = ds/np.maximum(np.maximum(np.hypot(*g(0*a)), np.hypot(*g(b))), 1e-300)
    n = 24
    for it in range(40):
        u = 0*a
        h = t/n
        lo = np.full(t.shape, np.inf)
        for _ in range(n):
            k1 = g(u)
            lo = np.minimum(lo, np.hypot(*k1))
            k2 = g(u + h/2*k1)
            k3 = g(u + h/2*k2)
            k4 = g(u + h*k3)
            u = u + h/6*(k1 + 2*k2 + 2*k3 + k4)
        v = g(u)
        s = np.maximum(np.hypot(*v), 1e-300)
        lo = np.minimum(lo, s)
        along = ((b - u)*v).sum(0)/s
        t = t + np.clip(along, -.3*ds, .3*ds)/s
        if np.all(np.abs(along) <= 1e-11*ds):
            break
    return np.hypot(*(b - u)), t, lo, np.abs(along)


def estimates(f, pts, t):
    """
    (error estimate, mismatch) of the Dormand-Prince step that makes each leg; t are approximate travel times.
    A leg some other method made has a mismatch; its estimate says nothing.
    """
    a, b = pts[:-1].T, (pts[1:] - pts[:-1]).T
    g = lambda u: np.array(f(a[0] + u[0], a[1] + u[1]))
    b5 = DP_A[-1] + [0.0]
    t = t.copy()
    best, est = np.full(t.shape, np.inf), np.zeros(t.shape)
    for it in range(8):
        k = [g(0*a)]
        for row in DP_A:
            k.append(g(t*sum(c*q for c, q in zip(row, k))))
        new = t*sum(c*q for c, q in zip(b5, k))
        e = np.abs(t*sum((c - d)*q for c, d, q in zip(b5, DP_B4, k))).max(0)
        d = b - new
        res = np.hypot(*d)
        better = res < best
        best, est = np.where(better, res, best), np.where(better, e, est)
        v = k[-1]
        s2 = np.maximum((v**2).sum(0), 1e-300)
        t = t + np.clip((d*v).sum(0)/s2, -.2*np.abs(t), .2*np.abs(t))
    return est, best
