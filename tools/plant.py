"""
Author planted bugs.  usage: plant.py BUGS.py [--out /verif/seeded] [--only ID,...] [--all-checks] [--jobs N] [--tier T]

BUGS.py defines B: a list of dict(id, prop, file, edits=[(old, new), ...] , needs, breaks, demo).  Each is applied in a
scratch copy; kept under OUT only if it touches original lines, passes the stable tests, and its demo exits 0 clean and
nonzero patched.  Then the property's check (or all) is run against the copy and the outcome printed.
"""
import argparse
import concurrent.futures
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import textwrap

PY = '/opt/venv/bin/python'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''"""Exits 0 when the behaviour is right, 1 when it is broken (run with the repository as working directory)."""
import os
import sys
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.path.insert(0, os.getcwd())
import logging
import math
import tempfile
import warnings
warnings.simplefilter('ignore')
import numpy as np
'''
ENV = dict(os.environ, MPLBACKEND='Agg', MPLCONFIGDIR='/opt/vp/mplconfig', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')


def sh(cmd, cwd, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=dict(ENV, **(env or {})), capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def one(b, out, allchecks, tier, base='/tmp/plant/scratch', checks=True):
    d = os.path.join(base, b['id'])
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True)
    try:
        files = b['file'] if isinstance(b['file'], list) else [b['file']] * len(b['edits'])
        for f, (old, new) in zip(files, b['edits']):
            p = os.path.join(d, f)
            raw = open(p, newline='').read()
            crlf = '\r\n' in raw
            s = raw.replace('\r\n', '\n')
            old, new = old.strip('\n'), new.strip('\n')
            if s.count(old) != 1:
                return b['id'], 'BAD: text found %d times in %s: %r' % (s.count(old), f, old[:60])
            s = s.replace(old, new)
            open(p, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)
        _, patch = sh(['git', 'diff'], d)
        removed = [l for l in sh(['git', 'diff', '-U0'], d)[1].split('\n') if l.startswith('-') and not l.startswith('---')]
        keep = True
        if not removed:
            keep = False
        basefiles = ''.join(sh(['git', 'show', 'f07c897:' + f], d)[1] for f in set(files))
        basel = {l.strip() for l in basefiles.replace('\r', '').split('\n')}
        if not any(l[1:].strip() in basel and l[1:].strip() for l in removed):
            keep = False
        rc, o = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', 'tests'], d, {'PYTHONPATH': d})
        if rc:
            return b['id'], 'BAD: tests fail\n' + o[-1500:]
        w = os.path.join(d + '.demo')
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        open(os.path.join(w, 'demo.py'), 'w').write(HEAD + textwrap.dedent(b['demo']).strip('\n') + '\n')
        open(os.path.join(w, 'demo.sh'), 'w').write('#!/bin/bash\nexec timeout 280 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        rc0, o0 = sh(['bash', os.path.join(w, 'demo.sh')], '/repo')
        rc1, o1 = sh(['bash', os.path.join(w, 'demo.sh')], d)
        if rc0 or not rc1:
            return b['id'], 'BAD: demo %d clean, %d patched\n%s\n%s' % (rc0, rc1, o0[-1200:], o1[-1200:])
        if 'Traceback' in o1 and 'AssertionError' not in o1:
            print('note: demo of', b['id'], 'ended in', o1[-300:])
        dst = os.path.join(out, b['id']) if keep else os.path.join('/tmp/plant/uncounted', b['id'])
        os.makedirs(dst, exist_ok=True)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(os.path.join(w, f), dst)
        open(os.path.join(dst, 'patch.diff'), 'w', newline='').write(patch)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
        shutil.rmtree(w)
        if not checks:
            return b['id'], 'kept'
        ids = [b['prop']] + ([c for c in ALL if c != b['prop']] if allchecks else [])
        res = {}
        for i in ids:
            rc, o = sh([sys.executable if 0 else PY, os.path.join(VERIF, 'run.py'), i, '--tier', tier], VERIF,
                       {'VERIF_REPO': d, 'VERIF_SEED': '1'}, 900)
            hit = 'VIOLATION property=%s' % i in o
            res[i] = (rc, hit, next((l for l in o.split('\n') if 'VIOLATION' in l or 'violation' in l), '')[:150] if rc != 1 or not hit else '')
        own = res[b['prop']]
        msg = 'caught' if own[0] == 1 and own[1] else '*** MISSED rc=%d' % own[0]
        also = [i for i in res if i != b['prop'] and res[i][0] == 1]
        odd = [i for i in res if res[i][0] not in (0, 1)]
        return b['id'], '%s%s by %s%s%s' % ('' if keep else '(not kept: changes no original line) ', msg, b['prop'], '; also ' + ' '.join(also) if also else '', '; ODD ' + ' '.join(odd) if odd else '')
    finally:
        shutil.rmtree(d, ignore_errors=True)


ALL = [json.loads(l)['id'] for l in open(os.path.join(VERIF, 'properties.jsonl'))]

if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('bugs')
    ap.add_argument('--out', default=os.path.join(VERIF, 'seeded'))
    ap.add_argument('--only')
    ap.add_argument('--all-checks', action='store_true')
    ap.add_argument('--no-checks', action='store_true')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--jobs', type=int, default=2)
    a = ap.parse_args()
    spec = importlib.util.spec_from_file_location('bugs', a.bugs)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    todo = [b for b in m.B if not a.only or b['id'] in a.only.split(',')]
    with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
        fs = [ex.submit(one, b, a.out, a.all_checks, a.tier, checks=not a.no_checks) for b in todo]
        for f in concurrent.futures.as_completed(fs):
            try:
                print(*f.result(), flush=True)
            except Exception as e:
                print('ERROR', repr(e)[:500], flush=True)
