"""
usage: run.py ID [--tier quick|thorough] [--seed N] [--kind K]...   run the check of one property
       run.py --replay FILE                                       re-run the case of a replay file
       run.py --all [--tier T]                                    every check of MANIFEST.json
"""
import argparse
import importlib
import json
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('PYTHONHASHSEED', '0')
from fw import core                                                 # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--kind', action='append')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--all', action='store_true')
    a = ap.parse_args()
    if a.replay:
        r = json.load(open(a.replay))
        core.FUEL.install()
        core.SCALE[0] = 1 if r.get('tier') == 'quick' else 4
        mod = importlib.import_module('checks.' + r['property'])
        status, msg, ob, key = core.run_case(mod, r['seed'], r['kind'], r['idx'])
        print(status, msg, dict(ob.n), key or '')
        if status in ('violation', 'finding'):
            print('VIOLATION property=%s replay=%s' % (r['property'], a.replay))
        return {'ok': 0, 'violation': 1, 'finding': 1}.get(status, 3)
    if a.all:
        ids = [c['property'] for c in json.load(open(os.path.join(core.VERIF, 'MANIFEST.json')))['checks']]
        rcs = {i: subprocess.call([sys.executable, __file__, i, '--tier', a.tier, '--seed', str(a.seed)]) for i in ids}
        print({i: r for i, r in rcs.items() if r} or 'all quiet')
        return max(rcs.values())
    return core.run_check(a.id, a.tier, a.seed, a.jobs, a.kind)


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
