"""
Scenario generators: aquifers, well fields, observation networks, tracks.
"""
import math

import numpy as np

from fw import ref


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def logu(rng, a, b):
    a, b = min(a, b), max(a, b)
    return float(math.exp(rng.uniform(math.log(a), math.log(b))))


ORIGINS = [(0.0, 0.0), (322579.0, 5093431.0), (355731.25, 5091141.5), (-1500.0, 820.0),
           (1e4, -7e5), (-432000.7, -5200000.3), (2250.0, 2250.0), (0.5, -0.25), (1250.0, 0.0), (0, -830.5)]


def origin(rng):
    if rng.random() < 0.2:
        return (round(float(rng.uniform(-1e6, 1e6)), 3), round(float(rng.uniform(-6e6, 6e6)), 3))
    return pick(rng, ORIGINS)


def aquifer(rng):
    """(base, conductivity, porosity, thickness)"""
    base = pick(rng, [0.0, 0, 500.0, -120.5, 312.7, 1000, -1834.25, 4096.5])
    k = pick(rng, [1.0, 1, 20.0, 65]) if rng.random() < 0.4 else logu(rng, 1e-2, 1e3)
    p = pick(rng, [0.2, 0.25, 0.05, 0.99]) if rng.random() < 0.5 else float(rng.uniform(0.01, 0.6))
    h = pick(rng, [10.0, 20, 100.0, 7.5]) if rng.random() < 0.4 else logu(rng, 0.5, 500)
    if rng.random() < .12:                                          # orders of magnitude beyond the usual
        k, p, h = logu(rng, 1e-5, 1e5), pick(rng, [logu(rng, 1e-3, .99), float(rng.uniform(.5, .999))]), logu(rng, 2e-3, 5e3)
    return base, k, p, h


def well_list(rng, o, L, n=None, signed=True, qmax=None):
    """n wells within L of o; each (x, y, r, q)."""
    if n is None:
        n = pick(rng, [0, 1, 1, 2, 3, 5, 8, 13, 40])
        if rng.random() < .015:
            n = pick(rng, [110, 260, 400])
    ws = []
    for i in range(n):
        if ws and rng.random() < 0.08:
            x, y = ws[int(rng.integers(len(ws)))][0:2]             # two records, one location
        else:
            x, y = o[0] + float(rng.uniform(-L, L)), o[1] + float(rng.uniform(-L, L))
            if rng.random() < 0.3:
                x, y = float(round(x)), float(round(y))
            if rng.random() < 0.1:
                x, y = int(round(x)), int(round(y))
        q = logu(rng, 1, qmax or 5000)
        if rng.random() < 0.2:
            q = int(q) + 1
        if rng.random() < 0.05:
            q = 0.0
        if rng.random() < 0.05:
            q = logu(rng, 1e-6, 1)*min(1.0, (qmax or 1))
        if signed and rng.random() < 0.25:
            q = -q
        r = pick(rng, [0.25, 0.2, 1, 0.0762, 0.5, 1.0]) if rng.random() < .9 else logu(rng, .01, 80)
        ws.append((x, y, r, q) if rng.random() < 0.8 else [x, y, r, q])
    return ws


def coef_any(rng, L, scale):
    """Six regional coefficients: terms of comparable size at distance L."""
    c = rng.normal(size=6)*scale/np.array([L*L, L*L, L*L, L, L, 1.0])
    c[rng.random(6) < 0.15] = 0.0
    return c


def network(rng, o, L, n, jitter=True):
    """n well-spread observation locations around o (never closer than 2 m)."""
    pts = []
    while len(pts) < n:
        x, y = o[0] + float(rng.uniform(-L, L)), o[1] + float(rng.uniform(-L, L))
        if rng.random() < 0.5:
            x, y = float(round(x)), float(round(y))
        if all(abs(x - a) + abs(y - b) > 2*max(1.0, L*1e-3) for a, b in pts):
            pts.append((x, y))
    return pts


class Scenario:
    """A physically sensible capture-zone problem with synthetic observations."""

    def __init__(self, rng, nwells=None, nobs=None, confined=True, L=None, o=None, recharge=True, noise=0.0,
                 qmax=1500, std=None, base=None, inject=False, strong=False, allinject=False, cone=False, unusual=True):
        self.o = o or origin(rng)
        self.L = L or pick(rng, [400.0, 1000.0, 2500.0])
        self.base = base if base is not None else pick(rng, [0.0, 0.0, 100.0, -50.0, 311, -.625, 42.875, -1725.5, 3810.0])
        self.k = float(rng.uniform(5, 60))
        self.p = float(rng.uniform(0.1, 0.35))
        self.h = float(rng.uniform(8, 40))
        self.unusual = unusual and rng.random() < .2
        if self.unusual:                                   # clay or gravel, thin or thick
            self.k = logu(rng, .2, 900)
            self.p = float(rng.uniform(.02, .85))
            self.h = logu(rng, 5, 160)
        f = min(40.0, self.k*self.h/720) if self.unusual else 1.0
        qmax = qmax*f
        # Regional flow: gradient magnitude g, direction, recharge.
        g = logu(rng, 0.5e-3, 8e-3) if not strong else logu(rng, 4e-3, 1.2e-2)
        th = rng.uniform(0, 2*math.pi)
        T = self.k*self.h
        n = nwells if nwells is not None else pick(rng, [1, 1, 1, 2, 2, 3, 3, 5, 5, 11])
        self.wells = []
        xt, yt = self.o
        if rng.random() < 0.5:
            xt, yt = xt + float(round(rng.uniform(-0.1, 0.1)*self.L)), yt + float(round(rng.uniform(-0.1, 0.1)*self.L))
        ws = [(xt, yt)]
        while len(ws) < n:
            x, y = self.o[0] + float(rng.uniform(-.6, .6))*self.L, self.o[1] + float(rng.uniform(-.6, .6))*self.L
            if all(math.hypot(x - a, y - b) > 0.12*self.L for a, b in ws):
                ws.append((x, y))
        for i, (x, y) in enumerate(ws):
            q = float(rng.uniform(0.3, 1.0))*qmax
            if inject and i > 0 and rng.random() < 0.4:
                q = -q
            if allinject:
                q = -q
            self.wells.append((x, y, pick(rng, [0.25, 0.2, 1.0, 0.0762]), q))
        self.target = int(rng.integers(n)) if rng.random() < 0.7 else 0
        # put the first location at the target index
        self.wells[0], self.wells[self.target] = self.wells[self.target], self.wells[0]
        N = f*float(rng.uniform(0, 8e-4)) if recharge and rng.random() < 0.7 else 0.0
        s = float(rng.uniform(0.2, 0.8))
        A, B = -N/2*s, -N/2*(1 - s)
        C = f*float(rng.normal())*1e-5
        head0 = self.h*(float(rng.uniform(2.0, 6.0)) if confined else float(rng.uniform(0.5, 1.2)))
        if self.unusual and confined:
            head0 = 2*self.h*40**((head0/self.h - 2)/4)     # up to eighty times the thickness
        D, E = -T*g*math.cos(th), -T*g*math.sin(th)
        xt, yt = self.wells[self.target][0:2]
        far = float(ref.potential_wells(self.wells, xt + self.L, yt + self.L)[0])
        # keep the whole neighbourhood wet: raise the constant term if necessary
        F = float(ref.potential_of_head(head0, self.k, self.h)) - far
        self.coef = np.array([A, B, C, D, E, F])
        lo = np.inf
        for x, y in self._probe():
            lo = min(lo, float(ref.potential(self.coef, xt, yt, self.wells, x, y)[0]))
        want = 0.5*T*self.h*(1.3 if confined else float(rng.uniform(0.1, 0.5)))
        if lo < want:
            self.coef[5] += want - lo
        if cone:
            # confined everywhere but around the wells: no observation shows that the cone of depression is unconfined
            lo = far = np.inf
            for x, y in self._probe():
                pot = float(ref.potential(self.coef, xt, yt, self.wells, x, y)[0])
                lo = min(lo, pot)
                if all(math.hypot(x - w[0], y - w[1]) > 25 for w in self.wells):
                    far = min(far, pot)
            for w in self.wells:
                for t in range(8):
                    far = min(far, float(ref.potential(self.coef, xt, yt, self.wells, w[0] + 25*math.cos(t*.785), w[1] + 25*math.sin(t*.785))[0]))
            crit = 0.5*T*self.h
            self.coef[5] += max(crit*1.05 - far, crit*.04 - lo)
        self.std = std
        no = nobs if nobs is not None else pick(rng, [9, 12, 16, 25, 40])
        self.obs = []
        sd = std if std is not None else float(rng.uniform(0.2, 2.0))
        while True:
            pts = network(rng, self.o, self.L, no)
            pts = [(x, y) for x, y in pts if all(math.hypot(x - w[0], y - w[1]) > 30 for w in self.wells)]
            self.obs = []
            for x, y in pts:
                pot = float(ref.potential(self.coef, xt, yt, self.wells, x, y)[0])
                hd = float(ref.head_of_potential(pot, self.k, self.h))
                e = float(rng.normal())*noise
                z1 = sd if std is not None else sd*float(rng.uniform(0.6, 1.5))
                self.obs.append((x, y, hd + e + self.base, z1))
            if len(self.obs) > 6 and ref.conditioning(self.obs, xt, yt) < 60:
                break
            no += 1
        self.rtarget = self.wells[self.target][2]
        self.xt, self.yt = xt, yt

    def _probe(self):
        for a in np.linspace(-1, 1, 7):
            for b in np.linspace(-1, 1, 7):
                x, y = self.o[0] + a*self.L, self.o[1] + b*self.L
                if all(math.hypot(x - w[0], y - w[1]) > 1 for w in self.wells):
                    yield x, y
        for w in self.wells:
            for t in range(4):
                yield w[0] + (w[2] + .5)*math.cos(t*1.57), w[1] + (w[2] + .5)*math.sin(t*1.57)

    def reach(self, frac=0.35):
        """A duration whose capture zone stays well inside the domain."""
        q = abs(self.wells[self.target][3])
        vol_r = frac*self.L
        t1 = math.pi*vol_r**2*self.h*self.p/q
        sp = math.hypot(self.coef[3], self.coef[4])/(self.h*self.p) + 1e-9
        return min(t1, vol_r/sp*2)

    def describe(self):
        return {'origin': self.o, 'k': self.k, 'p': self.p, 'h': self.h, 'base': self.base,
                'wells': self.wells, 'target': self.target, 'coef': self.coef, 'nobs': len(self.obs)}
