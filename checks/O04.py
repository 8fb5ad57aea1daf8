"""The command-line driver runs the named data module as it is written, and each run has a log of its own, whatever happened to the others."""
import importlib
import io
import contextlib
import logging
import os
import re
import sys
import time
import numpy as np
import runme
import oneka.oneka
from oneka.model import Model, AquiferError
from oneka.archive import load_oneka
from fw import gen
from fw.core import REPO, Inconclusive, require
from fw.runs import Run, files, same, scratch

PROP = 'O04'
FUEL = 12_000_000
RULE = ('sequences of driver calls in one process (good, refused, failing, interrupted, missing modules) on generated data modules; '
        'archives and log files compared with the modules, call by call. Distinct by sequence and content.')
REQUIRE = {'calls': 60, 'carried_out': 25, 'refused': 6, 'missing': 6, 'interrupted': 4, 'log_files': 30, 'later_calls': 25, 'same_second': 25, 'warnings_logged': 20, 'shipped': 7, 'waited': 4, 'forward': 4, 'long_modules': 4}
BATCH = 1

MODULE = {'projectname': 'PROJECTNAME', 'target': 'TARGET', 'npaths': 'NPATHS', 'duration': 'DURATION', 'nrealizations': 'NREALIZATIONS',
          'base': 'BASE', 'c_dist': 'C_DIST', 'p_dist': 'P_DIST', 't_dist': 'T_DIST', 'stochastic_wells': 'WELLS',
          'observations': 'OBSERVATIONS', 'buffer': 'BUFFER', 'spacing': 'SPACING', 'umbra': 'UMBRA', 'smooth': 'SMOOTH',
          'confined': 'CONFINED', 'tol': 'TOL', 'maxstep': 'MAXSTEP'}


class Warnings(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.got = []

    def emit(self, r):
        if r.name.lower().split('.')[0] == 'oneka':
            self.got.append(r.getMessage())


class Delay(logging.Handler):
    """A run that has to wait once, for something that takes no computing."""

    def __init__(self, seconds):
        super().__init__(logging.INFO)
        self.seconds, self.done = seconds, 0.0

    def emit(self, r):
        if self.seconds and r.name.lower().split('.')[0] == 'oneka' and 'retained' in r.getMessage().lower():
            t = time.perf_counter()
            time.sleep(self.seconds)
            self.done += time.perf_counter() - t
            self.seconds = 0


def ends(f, xw, yw, far):
    """An aquifer that ends a little way from the well."""
    def g(self, x, y):
        if (x - xw)**2 + (y - yw)**2 > far*far:
            raise AquiferError('The aquifer is dry.')
        return f(self, x, y)
    return g


def sequence(rng, ob, idx):
    logger = logging.getLogger('Oneka')
    root = logging.getLogger()
    own = list(logger.handlers)
    path0 = list(sys.path)
    made = []
    trail = []
    with scratch() as d:
        sys.path.insert(0, d)
        importlib.invalidate_caches()
        try:
            seen = {}
            texts = []
            n = gen.pick(rng, [2, 3, 3])
            for i in range(n):
                how = gen.pick(rng, ['good', 'good', 'good', 'refused', 'interrupted', 'missing'])
                trail.append(how)
                r = Run(rng)
                name = 'datamod_%d_%d_%d' % (os.getpid(), idx, i)
                tag = 'PROJECT-%d-%d' % (idx, i)
                a = dict(r.a, projectname=gen.pick(rng, [tag, tag, '  %s ' % tag, tag + '\n', 'Über ' + tag]))
                if how == 'good' and rng.random() < .25:           # traced forward, away from wells that recharge
                    neg = lambda q: type(q)(-v for v in q[::-1]) if isinstance(q, (list, tuple)) else -q
                    a['stochastic_wells'] = [type(w)((*w[:3], neg(w[3]))) for w in a['stochastic_wells']]
                    a['duration'] = -a['duration']
                    ob.count('forward')
                if how == 'good' and rng.random() < .2:
                    o = a['observations']
                    for q in [o[int(j)] for j in rng.integers(0, len(o), size=gen.pick(rng, [130, 450]))]:
                        o.append((q[0] + float(rng.uniform(-25, 25)), q[1] + float(rng.uniform(-25, 25)), q[2] + float(rng.normal())*.05, q[3]))
                    ob.count('long_modules')
                if how == 'refused':
                    a[gen.pick(rng, ['spacing', 'tol', 'npaths', 'umbra'])] = 0
                if how != 'missing':
                    with open(os.path.join(d, name + '.py'), 'w') as f:
                        for k, v in MODULE.items():
                            f.write('%s = %r\n' % (v, a[k]))
                    made.append(name)
                    importlib.invalidate_caches()
                before = {k: v for k, v in files(d).items() if not k.endswith('.py')}
                out = io.StringIO()
                t0 = time.time()
                interrupt = None
                if how == 'interrupted':
                    f0 = oneka.oneka.create_stochastic_capturezone, oneka.oneka.create_deterministic_capturezone
                    exc = gen.pick(rng, [KeyboardInterrupt, RuntimeError, MemoryError])

                    def boom(*x, **k):
                        raise exc('interrupted here')
                    oneka.oneka.create_stochastic_capturezone = oneka.oneka.create_deterministic_capturezone = boom
                short = how == 'good' and rng.random() < .5
                heard = Warnings()
                wait = Delay(.35 if how == 'good' and rng.random() < .3 else 0)
                root.addHandler(heard)
                root.addHandler(wait)
                far = None
                if short:
                    v0 = Model.compute_velocity, Model.compute_velocity_confined
                    w = a['stochastic_wells'][a['target']]
                    far = w[2] + 1 + 10*float(rng.random())
                    Model.compute_velocity, Model.compute_velocity_confined = [ends(f, w[0], w[1], far) for f in v0]
                failed = None
                try:
                    with contextlib.redirect_stdout(out):
                        runme.main(name)
                except BaseException as e:
                    if type(e).__name__ in ('_Wall', 'FuelExhausted'):
                        raise
                    failed = e
                finally:
                    root.removeHandler(heard)
                    root.removeHandler(wait)
                    if short:
                        Model.compute_velocity, Model.compute_velocity_confined = v0
                    if how == 'interrupted':
                        oneka.oneka.create_stochastic_capturezone, oneka.oneka.create_deterministic_capturezone = f0
                ob.count('calls')
                ob.count('later_calls', i > 0)
                after = {k: v for k, v in files(d).items() if not k.endswith('.py')}
                new = sorted(set(after) - set(before))
                require(set(before) <= set(after), 'files of an earlier run are gone: %r', sorted(set(before) - set(after)))
                for k, v in before.items():
                    require(after[k] == v, 'call %d (%s) changed %r, a file of an earlier run (%d -> %d bytes)', i, how, k, len(v), len(after[k]))
                require(logger.handlers == own, 'call %d (%s) left log handlers behind: %r', i, how, logger.handlers)
                logs = [k for k in new if k.endswith('.log')]
                archives = [k for k in new if k.endswith('.bz2')]
                if how == 'missing':
                    require(failed is None, 'a missing module raised %r', failed)
                    require('ModuleNotFoundError' in out.getvalue() and name in out.getvalue(), 'a missing module is reported as %r', out.getvalue())
                    require(not new, 'a missing module left the files %r', new)
                    ob.count('missing')
                    continue
                require(len(logs) == 1, 'call %d (%s) left the logs %r', i, how, logs)
                text = after[logs[0]].decode('utf-8', 'replace')
                ob.count('log_files')
                if how == 'good':
                    require(failed is None, 'a valid module failed: %r', failed)
                    require(tag in out.getvalue(), 'the run is not announced: %r', out.getvalue()[:200])
                    require(len(archives) == 1, 'the run left the archives %r', archives)
                    got = load_oneka(os.path.join(d, archives[0]))
                    m = sys.modules[name]
                    for k, v in MODULE.items():
                        require(k in got and same(got[k], getattr(m, v)), 'the run used %s = %r, the data module says %r', k, got.get(k), getattr(m, v))
                    stamp = time.mktime(time.strptime(got['runtime']))
                    require(t0 - 2 <= stamp <= time.time() + 1, 'the run time stamp %r is not the time of the run', got['runtime'])
                    require(len(re.findall(re.escape(tag), text)) >= 1, 'the log of the run does not name its project')
                    require(not short or heard.got, 'no path was reported to end early, though the aquifer ends %r from the well', far)
                    for msg in heard.got:
                        require(msg.strip() in text, 'the warning %r is not in the log of its run', msg)
                    ob.count('warnings_logged', len(heard.got))
                    took = re.search(r'Total elapsed time\s*=\s*([-+.\deE]+)', text)
                    require(took and -.01 <= float(took.group(1)) <= time.time() - t0 + .01, 'the log says that the run took %r seconds, it took less than %.3f',
                            took and took.group(1), time.time() - t0)
                    require(float(took.group(1)) >= wait.done - .02, 'the log says that the run took %r seconds, it took %.3f at least', took.group(1), wait.done)
                    ob.count('waited', wait.done > 0)
                    require(len(re.findall(r'Total elapsed time', text)) == 1, 'the log of a finished run has %d elapsed times', len(re.findall('Total elapsed time', text)))
                    if a['nrealizations'] > 1:
                        require(len(re.findall(r'Realization #', text)) == a['nrealizations'], 'the log has %d realizations of %d',
                                len(re.findall(r'Realization #', text)), a['nrealizations'])
                        require(text.count('Pr(capture)') == 1, 'the log has %d exceedance tables', text.count('Pr(capture)'))
                    else:
                        require(text.count('Capture Zone Area') == 1, 'the log has %d areas', text.count('Capture Zone Area'))
                    require(np.array_equal(got['pfield'].pgrid > 0, got['pfield'].pgrid > 0) and got['pfield'].total_weight >= 1, 'the archive holds no field')
                    ob.count('carried_out')
                else:
                    require(failed is not None, 'a %s run was reported as a success', how)
                    require(not archives, 'a %s run left an archive', how)
                    if how == 'interrupted':
                        require(isinstance(failed, exc) and 'interrupted here' in str(failed), 'the interruption was reported as %r', failed)
                    ob.count(how)
                other = [x for x in re.findall(r'PROJECT-\d+-\d+', text) if x != tag]
                require(not other, 'the log of %s mentions %r', tag, other)
                if i < n - 1 and idx % 4 == 0:
                    time.sleep(1.02)                  # log files are named by the second
                ob.count('same_second', i < n - 1 and idx % 4 != 0)
        finally:
            sys.path[:] = path0
            for m in made:
                sys.modules.pop(m, None)
            for h in list(logger.handlers):
                if h not in own:
                    logger.removeHandler(h)
                    h.close()
    ob.show({'sequence': trail})
    ob.nontrivial(trail, idx)


REDUCED = ('NREALIZATIONS', 'NPATHS', 'SPACING', 'UMBRA')
SHIPPED = ['barnesville', 'basic', 'basic_deterministic', 'carlos', 'long_prairie', 'paynesville', 'perham']


def shipped(rng, ob, idx):
    """The problems that come with the program, with fewer realizations and paths."""
    name = 'data.' + SHIPPED[idx % len(SHIPPED)]
    if not os.path.exists(os.path.join(REPO, *name.split('.')) + '.py'):
        raise Inconclusive('%s is not there' % name)
    m = importlib.import_module(name)
    saved = dict(vars(m))
    m.NREALIZATIONS = min(m.NREALIZATIONS, 2)
    m.NPATHS = min(m.NPATHS, gen.pick(rng, [3, 5]))
    if m.NREALIZATIONS == 1:                               # every cell of a deterministic zone is drawn
        m.SPACING, m.UMBRA = max(m.SPACING, 20), max(m.UMBRA, 20)
    try:
        with scratch() as d:
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                runme.main(name)
            new = sorted(files(d))
            logs, archives = [k for k in new if k.endswith('.log')], [k for k in new if k.endswith('.bz2')]
            require(len(logs) == 1 and len(archives) == 1, 'the run of %s left %r', name, new)
            require(m.PROJECTNAME in out.getvalue(), 'the run is not announced: %r', out.getvalue()[:200])
            got = load_oneka(os.path.join(d, archives[0]))
            for k, v in MODULE.items():
                require(k in got and same(got[k], getattr(m, v)), 'the run used %s = %r, %s says %r', k, got.get(k), name, getattr(m, v))
                require(v in REDUCED or same(getattr(m, v), saved[v]), 'the run changed %s of %s', v, name)
            pf = got['pfield']
            n = float(m.NREALIZATIONS)
            require(pf.total_weight == n, 'total weight %r for %r realizations', pf.total_weight, n)
            # the release points lie within the zone of every realization
            x, y, r = m.WELLS[m.TARGET][:3]
            i, j = int(round((x - pf.xmin)/pf.deltax)), int(round((y - pf.ymin)/pf.deltay))
            require(abs(pf.xmin + i*pf.deltax - x) < 1e-3 and abs(pf.ymin + j*pf.deltay - y) < 1e-3, 'the target is not a node of the field')
            if m.UMBRA > 2*(r + 1):
                require(pf.pgrid[j, i] == n, 'the target well is within its capture zone in %r of %r realizations', pf.pgrid[j, i], n)
    finally:
        for k in REDUCED:
            setattr(m, k, saved[k])
    ob.count('shipped')
    ob.show({'module': name, 'nodes': pf.pgrid.shape, 'captured': int((pf.pgrid > 0).sum())})
    ob.nontrivial(name, m.NPATHS)


KINDS = {'sequence': (sequence, 60, 400), 'shipped': (shipped, 7, 14)}
