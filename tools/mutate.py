#!/usr/bin/env python3
"""Systematic mutation of /repo/metatab in scratch copies, to measure the checks. Not a check.

    mutate.py list                          count the mutants per file
    mutate.py run OUT.jsonl [FILE...] [--every N] [--offset K] [--jobs J]

Each mutant is a small change to the syntax tree of one function. Mutants that fail the stable tests are dropped. For
the others, all checks run (one shard, quick tier) until one reports a violation.
"""
import argparse
import ast
import concurrent.futures
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MUT_REPO', '/repo')
FILES = ['parser', 'terms', 'doc', 'rowgen', 'util', 'appurl', 'datapackage', 'resolver', 'cli']
STABLE = [x.split('::')[-1] for x in json.load(open('/opt/vp/BASELINE.json'))['stable']]
ORDER = dict(parser='C01 C02 C07 C08 C18 C05', terms='C10 C11 C03 C02 C06 C04 C23', doc='C10 C15 C13 C09 C14 C05 C16 C07',
             rowgen='C05 C22 C04', util='C13 C19 C06 C18', appurl='C20 C05', datapackage='C17', resolver='C08 C07 C05', cli='C19')
ALL = ['C%02d' % i for i in range(1, 40) if os.path.exists(HERE + '/props/c%02d.py' % i)]
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
STR = ('lower', 'strip', 'title', 'upper', 'replace', 'lstrip', 'rstrip')


def mutations(tree):
    """Yields (line, description, function that changes a node of a copy of the tree)"""
    for i, n in enumerate(ast.walk(tree)):
        line = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            yield line, i, 'cmp', lambda m: m.ops.__setitem__(0, CMP[type(m.ops[0])]())
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            yield line, i, 'cond true', lambda m: setattr(m, 'test', ast.BoolOp(ast.Or(), [m.test, ast.Constant(True)]))
            if not isinstance(n, ast.While):
                yield line, i, 'cond false', lambda m: setattr(m, 'test', ast.BoolOp(ast.And(), [m.test, ast.Constant(False)]))
        if isinstance(n, ast.BoolOp):
            yield line, i, 'and/or', lambda m: setattr(m, 'op', ast.And() if isinstance(m.op, ast.Or) else ast.Or())
            for k in range(len(n.values)):
                yield line, i, 'drop operand %d' % k, lambda m, k=k: m.values.pop(k) if len(m.values) > 2 else m.values.__setitem__(
                    k, ast.Constant(isinstance(m.op, ast.And)))
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                yield line, i, 'bool', lambda m: setattr(m, 'value', not m.value)
            elif isinstance(n.value, int):
                yield line, i, 'int', lambda m: setattr(m, 'value', m.value + 1)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in STR:
            yield line, i, 'no .%s()' % n.func.attr, 'CALL'
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('list', 'sorted', 'str', 'slugify', 'set') and n.args:
            yield line, i, 'no %s()' % n.func.id, 'ARG'
        if isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                if n.keywords[k].arg:
                    yield line, i, 'no keyword ' + n.keywords[k].arg, lambda m, k=k: m.keywords.pop(k)
        if isinstance(n, (ast.FunctionDef, ast.If, ast.For, ast.While, ast.With, ast.Try, ast.ExceptHandler)):
            for field in ('body', 'orelse', 'finalbody'):
                for k, s in enumerate(getattr(n, field, None) or []):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Continue, ast.Break, ast.Raise,
                                      ast.Delete)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        yield s.lineno, i, 'drop statement', lambda m, f=field, k=k: getattr(m, f).__setitem__(k, ast.Pass())
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield line, i, 'no not', lambda m: setattr(m, 'op', ast.Not()) or setattr(m, 'operand', ast.UnaryOp(ast.Not(), m.operand))


class Replace(ast.NodeTransformer):
    def __init__(self, node, new):
        self.node, self.new = node, new

    def visit(self, n):
        return self.new if n is self.node else self.generic_visit(n)


def docless(tree):
    return [n for n in ast.walk(tree)]


def mutants(files):
    for f in files:
        path = 'metatab/%s.py' % f
        src = open(os.path.join(REPO, path)).read()
        base = ast.unparse(ast.parse(src))
        tree = ast.parse(src)
        for k, (line, i, what, fn) in enumerate(list(mutations(tree))):
            t = copy.deepcopy(tree)
            n = docless(t)[i]
            if fn == 'CALL':
                t = Replace(n, n.func.value).visit(t)
            elif fn == 'ARG':
                t = Replace(n, n.args[0]).visit(t)
            else:
                fn(n)
            try:
                out = ast.unparse(ast.fix_missing_locations(t))
            except Exception:
                continue
            if out == base:
                continue
            a, b = base.splitlines(), out.splitlines()
            import difflib
            d = [l for l in difflib.unified_diff(a, b, lineterm='', n=0) if l[0] in '+-' and l[:3] not in ('+++', '---')]
            yield dict(id='%s:%d:%d' % (f, line, k), file=path, line=line, what=what, diff=d[:6], src=out)


def run_one(m):
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp/z')
    try:
        repo = d + '/r'
        subprocess.run(['cp', '-a', REPO, repo], check=True)
        open(os.path.join(repo, m['file']), 'w').write(m['src'])
        env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1', HOME=d)
        try:
            t = subprocess.run('/opt/venv/bin/python -m pytest -q -p no:cacheprovider metatab/test/test_parser.py -k "%s" 2>&1 | tail -12'
                               % ' or '.join(STABLE), shell=True, cwd=repo, env=env, capture_output=True, text=True, timeout=120).stdout
        except subprocess.TimeoutExpired:
            return dict(m, result='tests')
        failed = [x for x in t.splitlines() if x.startswith(('FAILED', 'ERROR'))]
        if ' passed' not in t or any(('::' + s) in f for s in STABLE for f in failed) or any(x.startswith('ERROR') for x in failed):
            return dict(m, result='tests')
        first = ORDER[m['file'].split('/')[1][:-3]].split()
        for p in first + [p for p in ALL if p not in first]:
            env = dict(os.environ, VERIF_REPO=repo, VERIF_REPLAYS=d, VERIF_EVIDENCE=d, VERIF_SCALE=os.environ.get('VERIF_SCALE', '0.25'))
            try:
                r = subprocess.run(['python3', HERE + '/run.py', p, '--shards', '1'], env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                return dict(m, result='timeout ' + p)
            if r.returncode == 1 and 'VIOLATION property=' in r.stdout:
                return dict(m, result='caught ' + p)
            if r.returncode != 0:
                return dict(m, result='broken ' + p, out=r.stdout[-800:] + r.stderr[-800:])
        return dict(m, result='SURVIVED')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('out', nargs='?')
    ap.add_argument('files', nargs='*')
    ap.add_argument('--every', type=int, default=1)
    ap.add_argument('--offset', type=int, default=0)
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    if a.cmd == 'list':
        for f in FILES:
            print(f, len(list(mutants([f]))))
        return
    ms = list(mutants(a.files or FILES))[a.offset::a.every]
    done = set()
    if os.path.exists(a.out):
        done = {json.loads(l)['id'] for l in open(a.out)}
    ms = [m for m in ms if m['id'] not in done]
    print(len(ms), 'mutants', flush=True)
    with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex, open(a.out, 'a') as f:
        for r in ex.map(run_one, ms):
            r.pop('src')
            f.write(json.dumps(r) + '\n')
            f.flush()
            if r['result'].startswith(('SURV', 'broken', 'timeout')):
                print(r['id'], r['what'], r['result'], r['diff'], flush=True)


main()
