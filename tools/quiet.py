"""Run the checks on behaviour-preserving rewrites: all must stay quiet.  usage: quiet.py [--only NAME,...] [--checks ID,...] [--seed N]"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plant import sh, PY, VERIF                                     # noqa: E402
from mutate import CHECKS                                           # noqa: E402
from refactorings import R                                          # noqa: E402


DOWNSTREAM = {'oneka/model.py': 'T05 C02 C03 C04 C05 O03 V02', 'oneka/probabilityfield.py': 'C01 C02 C03 C06 V01 O02',
              'oneka/capturezone.py': 'C02 C03 C05 O03', 'oneka/stochastic.py': 'C02 O01 O02', 'oneka/deterministic.py': 'O02',
              'oneka/utilities.py': 'O01 O02', 'oneka/visualize.py': 'O03 O02'}


def relevant(edits):
    out = []
    for f, _, _ in edits:
        out += CHECKS[f].split() + DOWNSTREAM.get(f, '').split()
    return list(dict.fromkeys(out))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--only')
    ap.add_argument('--checks')
    ap.add_argument('--seed', default='1')
    ap.add_argument('--all', action='store_true', help='all checks instead of those that exercise the files touched')
    a = ap.parse_args()
    every = [c['property'] for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']]
    bad = 0
    for name, edits in R:
        if a.only and name not in a.only.split(','):
            continue
        ids = a.checks.split(',') if a.checks else every if a.all else relevant(edits)
        d = '/tmp/quiet/' + name
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d, symlinks=True)
        try:
            for f, old, new in edits:
                p = os.path.join(d, f)
                raw = open(p, newline='').read()
                s = raw.replace('\r\n', '\n')
                # blank lines do not matter
                found = re.findall(r'[ \t]*\n(?:[ \t]*\n)*'.join(re.escape(t.rstrip()) for t in old.split('\n') if t.strip()), s)
                if len(found) != 1 or s.count(found[0]) != 1:
                    print(name, 'BAD: text found', len(found), 'times in', f, repr(old[:70]), flush=True)
                    raise KeyError
                s = s.replace(found[0], new.strip('\n'))
                open(p, 'w', newline='').write(s.replace('\n', '\r\n') if '\r\n' in raw else s)
            rc, log = sh([PY, '-m', 'pytest', '-q', '-x'], d)
            tests = 'tests ok' if rc == 0 else 'TESTS %s' % log.strip().split('\n')[-1]
            alarms = []
            for i in ids:
                rc, log = sh([PY, 'run.py', i, '--seed', a.seed], VERIF, {'VERIF_REPO': d}, timeout=900)
                if rc:
                    alarms.append(i)
                    print('   %s %s rc=%d\n%s' % (name, i, rc, '\n'.join(log.split('\n')[:4])), flush=True)
            bad += bool(alarms)
            print('%s: %s, %s' % (name, tests, 'ALARMS %s' % alarms if alarms else 'quiet'), flush=True)
        except KeyError:
            bad += 1
        finally:
            shutil.rmtree(d, ignore_errors=True)
    sys.exit(bool(bad))


if __name__ == '__main__':
    main()
