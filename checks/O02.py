"""Every run leaves one archive of its own, from which the whole run - inputs and field - is restored."""
import bz2
import copy
import os
import pickle
import subprocess
import sys
import numpy as np
import oneka.archive
from oneka.archive import dump_oneka, load_oneka
from oneka.probabilityfield import ProbabilityField
from fw import core, gen
from fw.core import Violation, require
from fw.pf import geometry
from fw.runs import Run, files, same, same_field, scratch

PROP = 'O02'
FUEL = 3_000_000
LEVEL = 'fault_enumeration'
RULE = ('whole runs archived and restored (in this and in a fresh process), runs repeated within the same second, dumps with '
        'a write failure injected at every write of an archive, and clocks that stand still or run backwards; every file in the '
        'working directory is watched. Distinct by archive content.')
REQUIRE = {'runs': 60, 'restored': 120, 'same_second': 40, 'write_faults': 30, 'fresh_process': 3, 'earlier_archives_intact': 150, 'records_dropped_by_filter': 20, 'many_realizations': 30, 'long_lists': 30, 'whole_numbers': 60}


def random_field(rng, ob=None):
    o = gen.origin(rng)
    s = gen.pick(rng, [1.0, 10, 2.5])
    pf = ProbabilityField(s, s, *o)
    for _ in range(gen.pick(rng, [1, 2, 3])):
        x = o[0] + s*np.cumsum(rng.normal(size=4)*3)
        y = o[1] + s*np.cumsum(rng.normal(size=4)*3)
        pf.rasterize(list(x), list(y), s)
        pf.register(gen.pick(rng, [1.0, .5, .1, 1/3, 1 + 1e-9]))
    if rng.random() < .3:                                      # the work of a night: some ground is captured every time, some now and then
        if rng.random() < .7:
            pf = ProbabilityField(s, s, *o)
        n = gen.pick(rng, [260, 300, 700])
        for i in range(n):
            pf.rasterize([o[0], o[0] + 3*s], [o[1], o[1] + s*(i % 7)], s)
            pf.register(1.0)
        if rng.random() < .3:
            pf.rasterize([o[0], o[0] - 2*s], [o[1], o[1] - s], s)
            pf.register(gen.pick(rng, [70000.0, 2.0**25 + 1, 2.0**40 + 1]))
        if ob:
            ob.count('many_realizations')
    return pf


def new_archive(d, before):
    now = files(d)
    for n, c in before.items():
        require(n in now, 'the file %r of an earlier run is gone', n)
        require(now[n] == c, 'the file %r of an earlier run was overwritten', n)
    new = sorted(set(now) - set(before))
    require(len(new) == 1 and new[0].endswith('.bz2'), 'a run left the files %r, expected one archive', new)
    return new[0], now


def restore(ob, d, name, want, pf):
    got = load_oneka(os.path.join(d, name))
    require(isinstance(got, dict), 'the archive restores a %s', type(got).__name__)
    for n, v in want.items():
        require(n in got, 'the archive lacks %r', n)
        require(same(got[n], v), 'the archive restores %s = %r, the run had %r', n, got[n], v)
    require('pfield' in got, 'the archive lacks the field')
    q = got['pfield']
    diff = same_field(q, pf)
    require(not diff, 'the restored field differs from that of the run in %r', diff)
    # and both are working fields
    for f in (q, pf):
        geometry(f)
        require(not f.rgrid.any(), 'the field of a completed run holds an unregistered realization')
    a, b = q.pgrid.copy(), q.total_weight
    q.rasterize([q.xmin, q.xmin + 3*q.deltax], [q.ymin, q.ymin], q.deltax)
    q.register(2.0)
    require(abs(q.total_weight - b - 2) < 1e-9 and q.pgrid.sum() > a.sum(), 'the restored field does not accept realizations')
    ob.count('restored')


def run(rng, ob, idx):
    r = Run(rng)
    args = dict(r.a)
    raw = [tuple(o) for o in args['observations']]
    with scratch() as d:
        files_ = {}
        for i in range(2):
            k = {} if i == 0 else {'projectname': 'again', 'npaths': r.a['npaths'] + 1}
            pf = r.go(**k)
            name, now = new_archive(d, files_)
            want = dict(args, **k)
            require([tuple(o) for o in load_oneka(os.path.join(d, name))['observations']] == raw, 'the archived observations are not those given to the run')
            restore(ob, d, name, want, pf)
            ob.count('runs')
            ob.count('same_second', i > 0)
            ob.count('earlier_archives_intact', len(files_))
            files_ = now
        if idx % 12 == 0:
            code = ("import sys; sys.path.insert(0, %r)\nfrom oneka.archive import load_oneka\nimport numpy as np\na = load_oneka(%r)\n"
                    "p = a['pfield']\nprint(a['npaths'], len(a['observations']), p.nrows, p.ncols, repr(float(p.pgrid.sum())), repr(float(p.total_weight)))\n"
                    % (core.REPO, os.path.join(d, name)))
            out = subprocess.run([sys.executable, '-B', '-c', code], capture_output=True, text=True, cwd='/', timeout=120)
            want = '%d %d %d %d %r %r' % (r.a['npaths'] + 1, len(raw), pf.nrows, pf.ncols, float(pf.pgrid.sum()), float(pf.total_weight))
            require(out.stdout.strip() == want, 'a fresh process restores %r, expected %r %s', out.stdout.strip(), want, out.stderr[-500:])
            ob.count('fresh_process')
    ob.count('records_dropped_by_filter', len(raw) > len(r.d.obs))
    ob.show({'run': r.describe(), 'archive': name, 'bytes': len(now[name])})
    ob.nontrivial(pf.pgrid, r.a['npaths'])


class Clock:
    """datetime as the archive sees it, with a clock of our own."""
    times = []

    @classmethod
    def now(cls, *a):
        return cls.times.pop(0) if len(cls.times) > 1 else cls.times[0]


def clock(rng, ob, idx):
    """Many archives under a clock that stands still, repeats itself or runs backwards."""
    import datetime
    r = Run(rng)
    t0 = datetime.datetime(2020, 11, 1, 1, 59, 58) + datetime.timedelta(seconds=int(rng.integers(10**6)))
    n = 5 if rng.random() < .85 else gen.pick(rng, [12, 22])
    Clock.times = [t0 + datetime.timedelta(seconds=int(s), microseconds=int(rng.integers(10**6)))
                   for s in gen.pick(rng, [[0]*n, [0, 0, 1, 0, 1], [3, 2, 1, 3, 2], [0, 1, 1, 1, 0]] if n == 5 else [[0]*n, [int(i/2) % 2 for i in range(n)]])] + [t0]
    saved = getattr(oneka.archive, 'datetime', None)
    own = isinstance(saved, type)
    if own:
        oneka.archive.datetime = Clock
    try:
        with scratch() as d:
            seen = {}
            for i in range(n):
                pf = random_field(rng, ob)
                k = {'runtime': 'run %d' % i, 'npaths': i + 1}
                if rng.random() < .2:                              # a long list of records, as lists or tuples
                    k['observations'] = [[37.5*j, 12.0*(j % 11), 100 + .5*(j % 3), 1.0] if i % 2 else (j, 12.0*(j % 11), 100, 1.0) for j in range(gen.pick(rng, [130, 1200]))]
                    k['stochastic_wells'] = [list(w) for w in r.a['stochastic_wells']]*gen.pick(rng, [1, 60])
                    ob.count('long_lists')
                if rng.random() < .3:                              # whole numbers stay whole numbers
                    for n_ in ('c_dist', 'p_dist', 't_dist', 'base', 'duration', 'umbra', 'spacing', 'maxstep', 'tol', 'buffer'):
                        if n_ in r.a and rng.random() < .6:
                            k[n_] = int(rng.integers(1, 60))
                            ob.count('whole_numbers')
                want = dict(r.a, **k)
                kept = copy.deepcopy(pf)
                dump_oneka(*r.args(**k), pf)
                require(not same_field(pf, kept), 'archiving changed the field: %r', same_field(pf, kept))
                name, now = new_archive(d, seen)
                restore(ob, d, name, want, pf)
                ob.count('earlier_archives_intact', len(seen))
                ob.count('same_second', i > 0)
                seen = now
    finally:
        if own:
            oneka.archive.datetime = saved
    ob.count('own_clock', own)
    ob.nontrivial([n for n in sorted(seen)], idx)


class Disk:
    """Fails the n-th write of every compressed file."""

    def __init__(self, at):
        self.at, self.n, self.hit = at, 0, False

    def __enter__(self):
        self.saved = bz2.BZ2File.write
        me = self

        def write(f, data):
            me.n += 1
            if me.n == me.at:
                me.hit = True
                raise OSError(28, 'No space left on device')
            return me.saved(f, data)
        bz2.BZ2File.write = write
        return self

    def __exit__(self, *a):
        bz2.BZ2File.write = self.saved


def fault(rng, ob, idx):
    """A write that fails reaches the caller and spoils no earlier archive; the next run is archived as usual."""
    r = Run(rng)
    with scratch() as d:
        pfs = []
        seen = {}
        for i in range(2):
            pfs.append(random_field(rng))
            dump_oneka(*r.args(runtime='run %d' % i), pfs[-1])
            name, seen = new_archive(d, seen)
        at = 1
        while True:
            with Disk(at) as disk:
                try:
                    dump_oneka(*r.args(), random_field(rng))
                    failed = False
                except OSError:
                    failed = True
            if not disk.hit:
                break
            require(failed, 'write %d of the archive failed, and the run reported success', at)
            now = files(d)
            for n, c in seen.items():
                require(now.get(n) == c, 'a failing write damaged the earlier archive %r', n)
                ob.count('earlier_archives_intact')
            ob.count('write_faults')
            at += 1
        before = files(d)
        pf = random_field(rng)
        dump_oneka(*r.args(runtime='after'), pf)
        name, now = new_archive(d, before)
        restore(ob, d, name, dict(r.a, runtime='after'), pf)
    ob.nontrivial('fault', at, idx)


KINDS = {'run': (run, 180, 800), 'clock': (clock, 120, 800), 'fault': (fault, 120, 500)}
