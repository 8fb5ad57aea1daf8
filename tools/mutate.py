"""
Systematic small mutations of the original sources: which of those the stable tests accept do the checks catch?
usage: mutate.py FILE... [--out LOG] [--sample N] [--seed S]     (never part of a registered check)
"""
import argparse
import ast
import json
import os
import random
import shutil
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plant import sh, PY, VERIF                                     # noqa: E402

CHECKS = {
    'oneka/model.py': 'M01 M02 M03 M04 M05 F01 F02 F03 F04 F05',
    'oneka/probabilityfield.py': 'P01 P02 P03 P04 P05',
    'oneka/capturezone.py': 'T02 T01 T03 T05 T04 C01 C06',
    'oneka/stochastic.py': 'D01 D02 C03 C04 O03',
    'oneka/deterministic.py': 'C02 C05 O03',
    'oneka/utilities.py': 'U01 U02 O03',
    'oneka/visualize.py': 'V01 V02',
    'oneka/archive.py': 'O02 O04',
    'oneka/oneka.py': 'O01 O03 O04 O02',
    'runme.py': 'O04 O03',
}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['==']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.Pow: ['*'], ast.FloorDiv: ['/']}
SYM = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Add: '+', ast.Sub: '-', ast.Mult: '*',
       ast.Div: '/', ast.Pow: '**', ast.FloorDiv: '//'}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    start = [0]
    for ln in lines:
        start.append(start[-1] + len(ln.encode()) + 1)
    raw = src.encode()

    def at(line, col):
        return start[line - 1] + col
    out = []

    def rep(a, b, new, what, line):
        out.append((line, what, (raw[:a] + new.encode() + raw[b:]).decode()))

    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) >= 1:
            left = n.left
            for op, right in zip(n.ops, n.comparators):
                if type(op) in CMP:
                    a, b = at(left.end_lineno, left.end_col_offset), at(right.lineno, right.col_offset)
                    seg = raw[a:b].decode()
                    sym = SYM[type(op)]
                    if seg.count(sym) == 1 or seg.strip() == sym:
                        for new in CMP[type(op)]:
                            rep(a, b, seg.replace(sym, new, 1), '%s -> %s' % (sym, new), n.lineno)
                left = right
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = at(n.left.end_lineno, n.left.end_col_offset), at(n.right.lineno, n.right.col_offset)
            seg, sym = raw[a:b].decode(), SYM[type(n.op)]
            if sym in seg:
                for new in BIN[type(n.op)]:
                    rep(a, b, seg.replace(sym, new, 1), '%s -> %s' % (sym, new), n.lineno)
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            a, b = at(n.target.end_lineno, n.target.end_col_offset), at(n.value.lineno, n.value.col_offset)
            seg, sym = raw[a:b].decode(), SYM[type(n.op)] + '='
            for new in BIN[type(n.op)]:
                rep(a, b, seg.replace(sym, new + '=', 1), '%s -> %s=' % (sym, new), n.lineno)
            rep(a, b, seg.replace(sym, '=', 1), '%s -> =' % sym, n.lineno)
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            a, b = at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset)
            news = [repr(n.value + 1)] + ([repr(n.value - 1)] if isinstance(n.value, int) and n.value else [repr(n.value*1.01)])
            for new in news:
                rep(a, b, '(%s)' % new if new.startswith('-') else new, '%s -> %s' % (raw[a:b].decode(), new), n.lineno)
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            a, b = at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset)
            rep(a, b, repr(not n.value), '%r -> %r' % (n.value, not n.value), n.lineno)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            a, b = at(n.lineno, n.col_offset), at(n.operand.lineno, n.operand.col_offset)
            rep(a, b, raw[a + (3 if isinstance(n.op, ast.Not) else 1):b].decode(), 'drop unary', n.lineno)
        elif isinstance(n, ast.BoolOp):
            a, b = at(n.values[0].end_lineno, n.values[0].end_col_offset), at(n.values[1].lineno, n.values[1].col_offset)
            seg = raw[a:b].decode()
            w, v = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            if w in seg:
                rep(a, b, seg.replace(w, v, 1), '%s -> %s' % (w, v), n.lineno)
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not n.keywords:
            for i in range(len(n.args) - 1):
                x, y = n.args[i], n.args[i + 1]
                a, b, c, d = at(x.lineno, x.col_offset), at(x.end_lineno, x.end_col_offset), at(y.lineno, y.col_offset), at(y.end_lineno, y.end_col_offset)
                if raw[a:b] != raw[c:d]:
                    rep(a, d, (raw[c:d] + raw[b:c] + raw[a:b]).decode(), 'swap arguments %d, %d' % (i, i + 1), n.lineno)
            f = n.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
            pairs = {'min': 'max', 'max': 'min', 'floor': 'ceil', 'ceil': 'floor', 'cos': 'sin', 'sin': 'cos', 'argmax': 'argmin'}
            if nm in pairs:
                e = at(f.end_lineno, f.end_col_offset)
                rep(e - len(nm), e, pairs[nm], '%s -> %s' % (nm, pairs[nm]), n.lineno)
        elif isinstance(n, ast.Call):
            f = n.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
            pairs = {'min': 'max', 'max': 'min', 'floor': 'ceil', 'ceil': 'floor', 'cos': 'sin', 'sin': 'cos', 'argmax': 'argmin'}
            if nm in pairs:
                e = at(f.end_lineno, f.end_col_offset)
                rep(e - len(nm), e, pairs[nm], '%s -> %s' % (nm, pairs[nm]), n.lineno)
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Break, ast.Continue, ast.Assert)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            a, b = at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset)
            rep(a, b, 'pass', 'delete statement', n.lineno)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('files', nargs='+')
    ap.add_argument('--out', default='/tmp/mutants.log')
    ap.add_argument('--sample', type=int)
    ap.add_argument('--seed', type=int, default=0)
    a = ap.parse_args()
    log = open(a.out, 'a')
    for f in a.files:
        src = open(os.path.join('/repo', f), newline='').read().replace('\r\n', '\n')
        ms = mutants(src)
        if a.sample and len(ms) > a.sample:
            random.Random(a.seed).shuffle(ms)
            ms = sorted(ms[:a.sample])
        d = '/tmp/mut/%d-%s' % (os.getpid(), f.replace('/', '-'))
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d, symlinks=True)
        order = CHECKS[f].split()
        tally = {'tests': 0, 'caught': 0, 'inconclusive': 0, 'SURVIVED': 0}
        for line, what, new in ms:
            open(os.path.join(d, f), 'w').write(new)
            try:
                rc, out = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'], d, timeout=60)
            except Exception:
                rc = 1
            if rc:
                tally['tests'] += 1
                continue
            res, by = 'SURVIVED', ''
            for c in list(order):
                try:
                    rc, out = sh([PY, 'run.py', c], VERIF, {'VERIF_REPO': d}, timeout=700)
                except Exception:
                    rc = 3
                if rc == 1:
                    res, by = 'caught', c
                    order.remove(c)
                    order.insert(0, c)
                    break
                if rc:
                    res, by = 'inconclusive', by + ' ' + c
            tally[res] += 1
            log.write('%s %s:%d %s [%s] %s\n' % (res, f, line, what, by, src.split('\n')[line - 1].strip()))
            log.flush()
        log.write('== %s %s\n' % (f, json.dumps(tally)))
        log.flush()
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main()
