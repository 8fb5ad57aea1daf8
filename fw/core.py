"""
Runtime-monitoring framework: loads the code under test from the working tree,
drives cases in worker processes under a fuel monitor, and turns what the
oracles observed into a verdict, a replay file and an evidence file.

A check module (checks/<ID>.py) defines
    PROP      the property id
    RULE      how cases are made and what makes one non-trivial
    KINDS     {kind: (function, quick count, thorough count)}
    REQUIRE   {counter: minimum for the run to be conclusive}
and each case function f(rng, ob, idx) drives the real code, reports to `ob`
and raises Violation when the oracle refutes the property.
"""
import collections
import concurrent.futures as cf
import contextlib
import hashlib
import importlib
import json
import logging
import os
import resource
import signal
import sys
import tempfile
import time
import traceback
import warnings

for _v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
os.environ['MPLBACKEND'] = 'Agg'
os.environ.setdefault('MPLCONFIGDIR', os.path.join(tempfile.gettempdir(), 'verif-mpl-%d' % os.getuid()))

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

# Always compile the current sources: never read or write bytecode beside them.
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'verif-nopyc-%d' % os.getpid())
if REPO not in sys.path:
    sys.path.insert(0, REPO)

warnings.simplefilter('ignore')

import numpy as np                                                  # noqa: E402
from fw.ref import Stiff                                            # noqa: E402


class Violation(Exception):
    """The oracle refutes the property on the observed execution."""


class Inconclusive(Exception):
    """The monitor could not decide (e.g. the hook was never reached)."""


class Finding(Exception):
    """A violation with a mechanism key, which the known-findings file may list."""

    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


class RanAway(Exception):
    """A long trace to far away: not a defect (drawn flow fields can do that), but nothing to judge either."""


class FuelExhausted(BaseException):
    """The code under test took more loop iterations than any terminating run does."""


# ------------------------------------------------------------------------------
class Fuel:
    """
    Counts the backward/forward jumps executed in the code under test (logical
    steps, not seconds) and aborts a call that exceeds its budget.
    """
    TOOL = 4

    def __init__(self):
        self.left = None
        self.used = 0
        self.exhausted = False
        self.funcs = set()
        self.evals = 0                           # calls of Model.compute_discharge, the unit of tracing work
        self.evals_left = None
        self.places = []                         # every thousandth point a velocity was asked for

    def install(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, 'verif-fuel')
        except ValueError:
            pass
        prefix = os.path.realpath(REPO) + os.sep
        cache = {}

        def ours(code):
            r = cache.get(code)
            if r is None:
                r = os.path.realpath(code.co_filename).startswith(prefix)
                cache[code] = r
            return r

        def on_jump(code, src, dst):
            if not ours(code):
                return mon.DISABLE
            self.used += 1
            if self.left is not None:
                self.left -= 1
                if self.left < 0:
                    self.exhausted = True
                    self.left = 10000            # let handlers and cleanup run
                    raise FuelExhausted('no result within the loop-iteration budget')

        def on_start(code, off):
            if ours(code):
                self.funcs.add((os.path.basename(code.co_filename), code.co_qualname))
                if code.co_name == 'compute_discharge':
                    self.evals += 1
                    if self.evals % 1000 == 0:
                        self.locate(sys._getframe(1))
                    if self.evals_left is not None:
                        self.evals_left -= 1
                        if self.evals_left < 0:
                            self.exhausted = True
                            self.evals_left = 10000
                            raise FuelExhausted('no result within the budget of velocity evaluations')
                    return None
            return mon.DISABLE

        mon.register_callback(self.TOOL, mon.events.JUMP, on_jump)
        mon.register_callback(self.TOOL, mon.events.PY_START, on_start)
        mon.set_events(self.TOOL, mon.events.JUMP | mon.events.PY_START)

    def locate(self, frame):
        try:
            self.places.append((float(frame.f_locals['x']), float(frame.f_locals['y'])))
        except Exception:
            pass

    def ran_away(self):
        """Did the latest trace leave for places far beyond anything the workloads are about?"""
        if len(self.places) < 10:
            return False
        p = np.array(self.places[-400:])
        return bool(np.ptp(p, axis=0).max() > 20e3 and np.all(np.isfinite(p)))

    @contextlib.contextmanager
    def budget(self, n, evals=None):
        self.exhausted = False
        self.places = []
        self.left, self.evals_left = n, evals
        try:
            yield
        finally:
            self.left = self.evals_left = None
        if self.exhausted:
            if self.ran_away():
                raise RanAway()
            raise Violation('the call exceeded %d loop iterations or %r velocity evaluations (it does not terminate)' % (n, evals))


FUEL = Fuel()


# ------------------------------------------------------------------------------
class Observer:
    """What one case observed."""

    def __init__(self):
        self.n = collections.Counter()
        self.sig = None
        self.sample = None

    def count(self, name, k=1):
        self.n[name] += int(k)

    def nontrivial(self, *sig):
        """Call with the observed behaviour; distinct digests are counted."""
        h = hashlib.blake2b(digest_size=8)
        for s in sig:
            if isinstance(s, np.ndarray):
                h.update(np.ascontiguousarray(s).tobytes())
            else:
                h.update(repr(s).encode())
        self.sig = h.hexdigest()

    def show(self, sample):
        if self.sample is None:
            self.sample = sample


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(got, want, tol, what):
    """Scalar comparison with an absolute tolerance; NaN never passes."""
    got = float(got)
    if not abs(got - want) <= tol:
        raise Violation('%s: observed %r, expected %r (tolerance %.3g)' % (what, got, float(want), tol))


def jsonable(x):
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.tolist() if x.size <= 40 else 'array%s' % (x.shape,)
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x][:60]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


# ------------------------------------------------------------------------------
def case_rng(seed, prop, kind, idx):
    d = hashlib.blake2b(('%s/%s/%d/%d' % (prop, kind, seed, idx)).encode(), digest_size=16).digest()
    return _default_rng(np.frombuffer(d, dtype=np.uint32))


_default_rng = np.random.default_rng


def reproducible_default_rng(seed):
    """Generators the code under test leaves unseeded get distinct seeds derived from the case, for replay."""
    _UNSEEDED.update(seed=seed, made=0)
    for i, g in enumerate(_UNSEEDED['kept']):              # made when a module was imported
        g.bit_generator.state = _default_rng([seed, 10**9 + i]).bit_generator.state


_UNSEEDED = {'seed': None, 'made': 0, 'kept': []}


def _reproducible(s=None):
    if s is not None:
        return _default_rng(s)
    u = _UNSEEDED
    u['made'] += 1
    g = _default_rng(None if u['seed'] is None else [u['seed'], u['made']])
    if u['seed'] is None:
        u['kept'].append(g)
    return g


np.random.default_rng = _reproducible


CASE_FUEL = 60_000_000
CASE_EVALS = 1_000_000
CASE_WALL = 240
SCALE = [1]                                  # thorough runs get larger budgets


class _Wall(BaseException):
    pass


def _alarm(*a):
    raise _Wall()


def run_case(mod, seed, kind, idx):
    """Run one case. Returns (status, message, observer, key)."""
    ob = Observer()
    func = mod.KINDS[kind][0]
    rng = case_rng(seed, mod.PROP, kind, idx)
    np.random.seed(int(rng.integers(2**32)))
    reproducible_default_rng(int(rng.integers(2**32)))
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(SCALE[0]*CASE_WALL)
    cwd = os.getcwd()
    try:
        with FUEL.budget(SCALE[0]*getattr(func, 'FUEL', getattr(mod, 'FUEL', CASE_FUEL)), SCALE[0]*getattr(func, 'EVALS', getattr(mod, 'EVALS', CASE_EVALS))):
            func(rng, ob, idx)
        return 'ok', '', ob, None
    except Finding as e:
        return 'finding', str(e), ob, e.key
    except Violation as e:
        return 'violation', str(e), ob, None
    except Inconclusive as e:
        return 'inconclusive', str(e), ob, None
    except RanAway:
        ob.count('ran_away')
        return 'ok', '', ob, None
    except Stiff:
        ob.count('stiff_reference')
        return 'ok', '', ob, None
    except FuelExhausted as e:
        if FUEL.ran_away():
            ob.count('ran_away')
            return 'ok', '', ob, None
        return 'violation', 'does not terminate: %s' % e, ob, None
    except _Wall:
        return 'inconclusive', 'watchdog: case took more than %d s' % (SCALE[0]*CASE_WALL), ob, None
    except BaseException as e:                      # noqa: the code under test misbehaved
        tb = traceback.format_exc(limit=-6)
        last = traceback.extract_tb(e.__traceback__)[-1].filename
        if isinstance(e, MemoryError) and not os.path.realpath(last).startswith(os.path.realpath(REPO) + os.sep):
            ob.count('skipped_for_memory')
            return 'ok', '', ob, None
        if os.path.basename(last) == 'gen.py':
            return 'inconclusive', 'generator failed: %s' % tb, ob, None
        return 'violation', 'unexpected %s: %s\n%s' % (type(e).__name__, e, tb), ob, None
    finally:
        signal.alarm(0)
        FUEL.left = FUEL.evals_left = None
        os.chdir(cwd)
        try:
            plt = sys.modules.get('matplotlib.pyplot')
            if plt is not None:
                plt.close('all')
        except Exception:
            pass


def _worker_init(modname):
    logging.lastResort = logging.NullHandler()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    FUEL.install()
    _worker_init.mod = importlib.import_module(modname)
    with open(os.devnull, 'w') as f:
        os.dup2(f.fileno(), 1)


def _worker(args):
    seed, batch = args
    mod = _worker_init.mod
    out = []
    for kind, idx in batch:
        FUEL.used = FUEL.evals = 0
        t = time.time()
        status, msg, ob, key = run_case(mod, seed, kind, idx)
        ob.n['loop_steps_in_code_under_test'] += FUEL.used
        ob.n['velocity_evaluations'] += FUEL.evals
        out.append((kind, idx, status, msg, dict(ob.n), ob.sig, jsonable(ob.sample), key, time.time() - t))
    return out, sorted(FUEL.funcs)


def load_known():
    """Mechanism keys of the findings listed, not repaired: {(property, key): text}."""
    known = {}
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: '):
                f = line[len('known: '):].strip().split(' ', 2)
                known[(f[0].split('=', 1)[1], f[1].split('=', 1)[1])] = f[2]
    return known


def write_replay(prop, seed, tier, kind, idx, msg):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%d-%d.json' % (prop, kind, seed, idx))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'kind': kind, 'idx': idx, 'seed': seed, 'tier': tier, 'what': msg,
                   'run': '/opt/venv/bin/python run.py --replay ' + path}, f, indent=1)
    return path


def run_check(prop, tier, seed, jobs=None, only=None, deadline=None):
    t0 = time.time()
    modname = 'checks.' + prop
    mod = importlib.import_module(modname)
    cases = []
    for kind, (f, nq, nt) in mod.KINDS.items():
        if only and kind not in only:
            continue
        cases += [(kind, i) for i in range(nq if tier == 'quick' else nt)]
    jobs = jobs or min(8, os.cpu_count() or 1)
    SCALE[0] = 1 if tier == 'quick' else 4
    deadline = deadline or (600 if tier == 'quick' else 6 * 3600)
    # interleave the kinds so that a deadline cuts all of them alike
    cases.sort(key=lambda c: (hashlib.blake2b(repr(c).encode(), digest_size=4).hexdigest()))
    size = max(1, min(getattr(mod, 'BATCH', 8), len(cases) // (jobs * 4) or 1))
    batches = [cases[i:i + size] for i in range(0, len(cases), size)]

    counts = collections.Counter()
    per_kind = collections.Counter()
    sigs, samples, funcs = set(), {}, set()
    violations, findings, incon = [], {}, []
    slow = []

    def take(out, fs):
        funcs.update(map(tuple, fs))
        for kind, idx, status, msg, n, sig, sample, key, dt in out:
            slow.append((dt, kind, idx, n.get('loop_steps_in_code_under_test', 0), n.get('velocity_evaluations', 0)))
            per_kind[kind] += 1
            counts.update(n)
            if sig:
                sigs.add(kind + sig)
            if sample is not None and kind not in samples:
                samples[kind] = {'kind': kind, 'idx': idx, 'case': sample}
            if status == 'violation':
                violations.append((kind, idx, msg))
            elif status == 'finding':
                findings.setdefault(key, (kind, idx, msg))
            elif status == 'inconclusive':
                incon.append((kind, idx, msg))

    with cf.ProcessPoolExecutor(jobs, initializer=_worker_init, initargs=(modname,)) as ex:
        futs = [ex.submit(_worker, (seed, b)) for b in batches]

        def stop():
            for f in futs:
                f.cancel()
            for p in list((ex._processes or {}).values()):
                p.kill()

        try:
            pending, first = set(futs), None
            while pending:
                now = time.time()
                if now - t0 > deadline:
                    raise cf.TimeoutError()
                if first and (len(violations) >= 5 or now - first > 20):
                    break
                ready, pending = cf.wait(pending, timeout=2, return_when=cf.FIRST_COMPLETED)
                for fu in ready:
                    take(*fu.result())
                if violations and not first:
                    first = time.time()
            if pending:
                stop()
        except cf.TimeoutError:
            incon.append(('run', -1, 'deadline reached after %d of %d cases' % (sum(per_kind.values()), len(cases))))
            stop()
        except cf.process.BrokenProcessPool as e:
            incon.append(('run', -1, 'a worker died: %s' % e))

    done = sum(per_kind.values())
    if counts['ran_away'] > 4 + .03*done:
        violations.append(('run', -1, '%d of %d cases led to traces that run away over more than 20 km' % (counts['ran_away'], done)))
    known = load_known()
    rc = 0
    for key, (kind, idx, msg) in sorted(findings.items()):
        if (prop, key) in known:
            print('KNOWN-FINDING: property=%s %s: %s' % (prop, key, known[(prop, key)]))
        else:
            violations.append((kind, idx, msg))
    for n, (kind, idx, msg) in enumerate(sorted(violations)[:3]):
        path = write_replay(prop, seed, tier, kind, idx, msg)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  [%s #%d] %s' % (kind, idx, msg if n < 1 else msg[:200]))
        rc = 1

    short = {k: (counts[k], m) for k, m in getattr(mod, 'REQUIRE', {}).items() if counts[k] < m}
    if rc == 0 and not only and (short or incon or done < len(cases)):
        if short:
            print('INCONCLUSIVE property=%s: monitors observed too little: %r' % (prop, short))
        for kind, idx, msg in incon[:5]:
            print('INCONCLUSIVE property=%s [%s #%d] %s' % (prop, kind, idx, msg))
        rc = 3

    ev = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': done,
            'distinct_nontrivial': len(sigs),
            'rule': mod.RULE,
            'samples': [samples[k] for k in sorted(samples)][:8],
            'executions_per_kind': dict(per_kind),
            'observed': {k: v for k, v in sorted(counts.items())},
            'functions_reached': ['%s:%s' % f for f in sorted(funcs)],
            'inconclusive_cases': len(incon),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []) + [
            'Held on the executions counted here; nothing is claimed about executions not driven.'],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    if not ev['coverage']['samples']:
        ev['coverage']['samples'] = [{'kind': k, 'idx': 0} for k in per_kind][:3]
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, prop + '.json'))
    if os.environ.get('VERIF_SLOW'):
        for s in sorted(slow, reverse=True)[:8]:
            print('   slow %.1fs %s #%d: %d loop steps, %d evaluations' % s)
        print('   max: %d loop steps, %d evaluations' % (max(s[3] for s in slow), max(s[4] for s in slow)))
    print('%s %s seed=%d: %d cases, %d distinct, %d violations, %d inconclusive, %.1f s'
          % (prop, tier, seed, done, len(sigs), len(violations), len(incon), ev['wall_s']))
    return rc
