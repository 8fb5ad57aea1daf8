"""What the capture zone delimits is what the well pumps: captured water returns to the well, and its volume is the volume pumped."""
import math
import numpy as np
from oneka.capturezone import compute_backtrace
from oneka.model import Model, AquiferError
from fw import gen, ref
from fw.core import require

PROP = 'T05'
RULE = ('backtraces from around a pumping well in fitted-like aquifers (other wells, recharge, slope; confined and not): the '
        'potential never falls along a backtrace; the end point, traced forward for the same time, comes back to the well; and '
        'the area enclosed by the ends of all backtraces balances pumped volume, recharge and storage, confined or not. '
        'Distinct by end points.')
REQUIRE = {'returned': 150, 'monotone_legs': 3000, 'balances': 25, 'unconfined': 40, 'recharged_balances': 8, 'unconfined_balances': 12}
ASSUMPTIONS = ['Return is judged within 0.05 (r+1) + 1e4 tol of the start circle; balance within 2 percent of the volume pumped.']


class Overlong(BaseException):
    pass


LIMIT = 30000           # velocity evaluations per trace; the sound integrator needs a few thousand at most


def limited(f):
    n = [0]

    def g(xy):
        n[0] += 1
        if n[0] > LIMIT:
            raise Overlong()
        return f(xy)
    return g


def back_and_forth(mo, confined):
    vel = mo.compute_velocity_confined if confined else mo.compute_velocity

    def back(xy):
        vx, vy = vel(xy[0], xy[1])
        return np.array([-float(vx), -float(vy)])

    def fwd(xy):
        vx, vy = vel(xy[0], xy[1])
        return np.array([float(vx), float(vy)])
    return back, fwd


def decided(case):
    def run(rng, ob, idx):
        try:
            case(rng, ob, idx)
        except Overlong:
            ob.count('overlong')
    return run


@decided
def returns(rng, ob, idx):
    confined = rng.random() < .6
    sc = gen.Scenario(rng, confined=confined or rng.random() < .4, nobs=9)
    mo = Model(sc.base, sc.k, sc.p, sc.h, sc.wells)
    mo.coef = np.array(sc.coef)
    mo.xo, mo.yo = sc.xt, sc.yt
    T = sc.reach(.2)
    tol, ms = gen.pick(rng, [1e-5, 1e-6, 1e-5, 1e-4]), gen.pick(rng, [10, 4.0])
    back, fwd = back_and_forth(mo, confined)
    r = sc.rtarget + 1
    ends = []
    for t in rng.uniform(0, 2*math.pi, size=3):
        xs, ys = sc.xt + r*math.cos(t), sc.yt + r*math.sin(t)
        v = compute_backtrace(xs, ys, T, tol, ms, limited(back))
        p = np.array([(float(a[0]), float(a[1])) for a in v])
        ph = [ref.potential(sc.coef, sc.xt, sc.yt, sc.wells, *q) for q in p]
        for (a, ma), (b, mb), q in zip(ph[:-1], ph[1:], p):
            require(b >= a - 2*tol*float(sum(abs(c) for c in ref.discharge(sc.coef, sc.xt, sc.yt, sc.wells, *q)[0])) - 1e-12*float(ma),
                    'the potential falls from %r to %r along a backtrace', float(a), float(b))
        ob.count('monotone_legs', len(p) - 1)
        if rng.random() < .5:
            w = compute_backtrace(p[-1][0], p[-1][1], T, tol, ms, limited(fwd))
        else:
            w = compute_backtrace(p[-1][0], p[-1][1], -T, tol, ms, limited(back))
        d = math.hypot(float(w[-1][0]) - xs, float(w[-1][1]) - ys)
        require(d <= .05*r + 1e4*tol, 'water at the end of the backtrace from %r comes to %r, %r from its well-side start, in the same time',
                (xs, ys), tuple(float(a) for a in w[-1]), d)
        ob.count('returned')
        ob.count('unconfined', not confined)
        ends.append(tuple(p[-1]))
    ob.show({'scenario': sc.describe(), 'duration': T, 'tol': tol, 'confined': confined, 'ends': ends})
    ob.nontrivial(ends)


@decided
def balance(rng, ob, idx):
    confined = rng.random() < .5
    sc = gen.Scenario(rng, confined=confined, nobs=9, nwells=gen.pick(rng, [1, 1, 2, 3]), recharge=confined, qmax=1500 if confined else gen.pick(rng, [400, 1500, 4000]))
    mo = Model(sc.base, sc.k, sc.p, sc.h, sc.wells)
    mo.coef = np.array(sc.coef)
    mo.xo, mo.yo = sc.xt, sc.yt
    q = sc.wells[sc.target][3]
    N = -2*(sc.coef[0] + sc.coef[1])
    T = sc.reach(gen.pick(rng, [.04, .08, .12]))
    back, fwd = back_and_forth(mo, confined)
    n = 240
    tol = gen.pick(rng, [1e-4, 1e-3, 1e-2])
    r = sc.rtarget + 1
    for t in np.linspace(0, 2*math.pi, 72, endpoint=False):
        d = ref.discharge(sc.coef, sc.xt, sc.yt, sc.wells, sc.xt + r*math.cos(t), sc.yt + r*math.sin(t))[0]
        if float(d[0])*math.cos(t) + float(d[1])*math.sin(t) >= 0:
            ob.count('passing_by')                        # not all water at the release points flows to the well
            return
    def end(t):
        v = compute_backtrace(sc.xt + r*math.cos(t), sc.yt + r*math.sin(t), T, tol, 20, limited(back))
        return float(v[-1][0]) - sc.xt, float(v[-1][1]) - sc.yt
    # the ends of neighbouring traces must be near one another for the polygon to be the zone
    ts = list(np.linspace(0, 2*math.pi, n, endpoint=False))
    ends = [end(t) for t in ts]
    size = math.sqrt(q*T/(math.pi*sc.h*sc.p))
    for turn in range(5):
        e = np.array(ends)
        wide = np.flatnonzero(np.hypot(*(np.roll(e, -1, axis=0) - e).T) > .1*size)
        if len(wide) > 60 or turn == 4:
            break
        for k in wide[::-1]:
            t = .5*(ts[k] + (ts[k + 1] if k + 1 < len(ts) else 2*math.pi))
            ts.insert(k + 1, t)
            ends.insert(k + 1, end(t))
    if len(wide):
        ob.count('too_sparse')
        return
    # no other well inside
    for i, w in enumerate(sc.wells):
        if i != sc.target and math.hypot(w[0] - sc.xt, w[1] - sc.yt) < 1.3*np.hypot(*e.T).max():
            ob.count('other_well_near')
            return
    x, y = e.T
    if not confined:
        # what the well pumped is the water that was stored in the zone: saturated thickness times porosity
        total = 0.0
        gx, gw = np.polynomial.legendre.leggauss(6)
        for (x0, y0), (x1, y1) in zip(e, np.roll(e, -1, axis=0)):
            xm, ym = .5*(x0 + x1), .5*(y0 + y1)
            s0 = r/math.hypot(xm, ym)
            s = s0 + (1 - s0)*(gx + 1)/2
            hs = [min(sc.h, float(ref.head_of_potential(float(ref.potential(sc.coef, sc.xt, sc.yt, sc.wells, sc.xt + a*xm, sc.yt + a*ym)[0]), sc.k, sc.h)))
                  for a in s]
            total += (x0*y1 - x1*y0)*float(np.sum(gw*s*np.array(hs)))*(1 - s0)/2
        total *= sc.p
        require(abs(total - q*T) <= .02*q*T, 'the zone holds %r m3 of water; the volume pumped in %r d is %r m3', total, T, q*T)
        ob.count('unconfined_balances')
        ob.show({'scenario': sc.describe(), 'duration': T, 'stored': total, 'pumped': q*T})
        ob.nontrivial(total)
        return
    A = .5*float(np.sum(x*np.roll(y, -1) - np.roll(x, -1)*y))
    hp = sc.h*sc.p
    A0 = math.pi*r*r
    if abs(N) > 1e-12:
        want = q/N + (A0 - q/N)*math.exp(-N*T/hp)
    else:
        want = A0 + q*T/hp
    require(abs(A - want) <= .02*(q*T/hp) + 2e-3*A0, 'the zone encloses %r m2; the volume pumped, %r m3 in %r d, fills %r m2', A, q*T, T, want)
    ob.count('balances')
    ob.count('recharged_balances', abs(N) > 1e-12)
    ob.show({'scenario': sc.describe(), 'duration': T, 'recharge': N, 'area': A, 'expected': want})
    ob.nontrivial(A)


KINDS = {'returns': (returns, 100, 2500), 'balance': (balance, 120, 2000)}
