"""
Run the check of its property against every kept planted bug.  usage: regress.py [--jobs N] [--only ID,...] [--out CATCHES.md]

Each patch of seeded/ is applied in a scratch copy of /repo; the outcome per bug is written as a table.  Nothing a check does
depends on this: seeded/ is read here only.
"""
import argparse
import concurrent.futures
import json
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def one(i, copy):
    d = os.path.join(VERIF, 'seeded', i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    w = tempfile.mkdtemp(prefix='regress-')
    try:
        r = os.path.join(w, 'repo')
        shutil.copytree('/repo', r, symlinks=True)
        p = subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=r, capture_output=True, text=True)
        if p.returncode:
            return i, meta, 'does not apply'
        p = subprocess.run(['timeout', '880', PY, os.path.join(copy, 'run.py'), meta['property']], cwd=copy, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=r, VERIF_SEED='1', VERIF_TIER='quick', PYTHONDONTWRITEBYTECODE='1'))
        hit = p.returncode == 1 and 'VIOLATION property=%s' % meta['property'] in p.stdout
        return i, meta, 'caught' if hit else 'MISSED (exit %d)' % p.returncode
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('--jobs', type=int, default=3)
    ap.add_argument('--only')
    ap.add_argument('--out')
    a = ap.parse_args()
    ids = a.only.split(',') if a.only else sorted(os.listdir(os.path.join(VERIF, 'seeded')))
    copy = tempfile.mkdtemp(prefix='regress-verif-')           # evidence and replays go there
    for n in os.listdir(VERIF):
        if n not in ('seeded', '.git', 'evidence', 'replays'):
            s = os.path.join(VERIF, n)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(copy, n))
    rows = []
    try:
        with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
            for f in concurrent.futures.as_completed([ex.submit(one, i, copy) for i in ids]):
                rows.append(f.result())
                if rows[-1][2] != 'caught':
                    print(rows[-1][0], rows[-1][1]['property'], rows[-1][2], flush=True)
    finally:
        shutil.rmtree(copy, ignore_errors=True)
    rows.sort(key=lambda r: (r[1]['property'], r[0]))
    n = sum(r[2] == 'caught' for r in rows)
    print('%d of %d caught by the check of their property' % (n, len(rows)))
    if a.out:
        with open(a.out, 'w') as f:
            f.write('# Which check catches which planted bug\n\n%d of %d are caught by the quick check of their property (seed 1). Written by tools/regress.py.\n\n' % (n, len(rows)))
            f.write('| check | bug | needs | outcome |\n|---|---|---|---|\n')
            for i, m, r in rows:
                f.write('| %s | %s | %s | %s |\n' % (m['property'], i, ' '.join(m['needs'].split()).replace('|', '/'), r))
