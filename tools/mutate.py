"""
Development tool: makes small mutants of /repo's Python files in a scratch copy,
keeps those passing the test suite, and runs the checks exercising the file
against each (through VERIF_REPO). Survivors are printed and appended to OUT.

mutate.py OUT FILE[...] [--max N] [--seed S]
"""
import argparse
import ast
import concurrent.futures
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
REPO = '/repo'
PY = '/opt/venv/bin/python'
args_all = False
IGNORED = ['minhash', 'nn_descent', 'ppjoin', 'quickjoin']

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd],
       ast.BitXor: [ast.BitOr], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift], ast.Pow: [ast.Mult]}
NAMES = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'set': 'list', 'floor': 'ceil', 'ceil': 'floor'}


def mutants(source):
    tree = ast.parse(source)
    lines = source.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = source.encode()
    docs = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)) and node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            docs.add(id(node.body[0]))
            docs.add(id(node.body[0].value))

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    out = []

    def sub(n, text, what):
        a, b = span(n)
        new = raw[:a] + text.encode() + raw[b:]
        out.append((n.lineno, what, raw[a:b].decode()[:80].replace('\n', ' '), text[:80], new.decode()))

    def replaced(n, **kw):
        c = ast.copy_location(type(n)(**{f: getattr(n, f) for f in n._fields}), n)
        for k, v in kw.items():
            setattr(c, k, v)
        return '(' + ast.unparse(c) + ')'

    for n in ast.walk(tree):
        if id(n) in docs:
            continue
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                for t in CMP.get(type(op), []):
                    ops = list(n.ops)
                    ops[i] = t()
                    sub(n, replaced(n, ops=ops), 'cmp')
        elif isinstance(n, ast.BoolOp):
            sub(n, replaced(n, op=ast.Or() if isinstance(n.op, ast.And) else ast.And()), 'bool')
            for i in range(len(n.values)):
                rest = n.values[:i] + n.values[i + 1:]
                sub(n, '(' + (ast.unparse(rest[0]) if len(rest) == 1 else replaced(n, values=rest)) + ')', 'drop-operand')
        elif isinstance(n, ast.BinOp):
            for t in BIN.get(type(n.op), []):
                if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                    continue
                sub(n, replaced(n, op=t()), 'arith')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            sub(n, '(' + ast.unparse(n.operand) + ')', 'not')
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                sub(n, str(not n.value), 'const')
            elif isinstance(n.value, int):
                sub(n, str(n.value + 1), 'const')
                if n.value > 0:
                    sub(n, str(n.value - 1), 'const')
            elif isinstance(n.value, float):
                sub(n, repr(n.value * 2 + 0.5), 'const')
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            if not isinstance(n, ast.While):
                sub(n.test, 'True', 'cond')
            sub(n.test, 'False', 'cond')
        elif isinstance(n, ast.Continue):
            sub(n, 'break', 'stmt')
            sub(n, 'pass', 'stmt')
        elif isinstance(n, ast.Break):
            sub(n, 'continue', 'stmt')
            sub(n, 'pass', 'stmt')
        elif isinstance(n, (ast.AugAssign, ast.Expr)):
            sub(n, 'pass', 'drop')
        elif isinstance(n, ast.Assign) and not isinstance(n.value, (ast.Dict, ast.Set)):
            # only where the names exist already
            sub(n, 'pass', 'drop')
        elif isinstance(n, ast.Name) and n.id in NAMES and isinstance(n.ctx, ast.Load):
            sub(n, NAMES[n.id], 'name')
        elif isinstance(n, ast.Attribute) and n.attr in NAMES:
            sub(n, ast.unparse(n.value) + '.' + NAMES[n.attr], 'name')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            s = n.slice
            for f in ('lower', 'upper'):
                if getattr(s, f) is not None:
                    sub(n, ast.unparse(ast.Subscript(value=n.value, slice=ast.Slice(**{k: getattr(s, k) for k in ('lower', 'upper', 'step') if k != f}), ctx=n.ctx)), 'slice')
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            pass
        elif isinstance(n, ast.Call):
            for i in range(len(n.keywords)):
                if n.keywords[i].arg:
                    sub(n, ast.unparse(ast.Call(func=n.func, args=n.args, keywords=n.keywords[:i] + n.keywords[i + 1:])), 'drop-kw')
    return out


def copy_repo(prefix='mut'):
    d = tempfile.mkdtemp(prefix=prefix + '-')
    t = os.path.join(d, 'repo')
    subprocess.run(['cp', '-a', REPO, t], check=True)
    shutil.rmtree(os.path.join(t, '.git'), ignore_errors=True)
    return d, t


def tests_pass(repo):
    args = [PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60'] + ['--ignore=test/clustering/%s_test.py' % x for x in IGNORED] + ['test']
    try:
        p = subprocess.run(args, cwd=repo, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0'), timeout=120)
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 0


def checks_for(path):
    sys.path.insert(0, ROOT)
    sys.path.insert(0, REPO)
    found = []
    for f in sorted(os.listdir(os.path.join(ROOT, 'checks'))):
        if f.startswith('c') and f.endswith('.py'):
            with open(os.path.join(ROOT, 'checks', f)) as h:
                tree = ast.parse(h.read())
            for n in tree.body:
                if isinstance(n, ast.Assign) and n.targets[0].id == 'FILES':
                    files = ast.literal_eval(n.value)
            if any(path == x or path.startswith(x + '/') for x in files):
                found.append(f[:-3].upper())
    # The narrow ones first
    if not args_all and len(found) > 2:
        found = [c for c in found if c not in ('C31', 'C32')]
    found.sort(key=lambda c: (c in ('C31', 'C32', 'C07'), c))
    return found


def run_check(check, repo):
    p = subprocess.run([os.path.join(ROOT, 'run.py'), check], cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=dict(os.environ, VERIF_REPO=repo, VERIF_TIER='quick', VERIF_EVIDENCE=os.path.join(os.path.dirname(repo), 'ev')), timeout=1200)
    return p.returncode, p.stdout


def main():
    a = argparse.ArgumentParser()
    a.add_argument('out')
    a.add_argument('files', nargs='+')
    a.add_argument('--max', type=int, default=10 ** 9)
    a.add_argument('--seed', type=int, default=0)
    a.add_argument('--jobs', type=int, default=3)
    a.add_argument('--all', action='store_true')
    args = a.parse_args()
    global args_all
    args_all = args.all
    todo = []
    for path in args.files:
        with open(os.path.join(REPO, path)) as f:
            source = f.read()
        ms = [m for m in mutants(source)]
        good = []
        for m in ms:
            try:
                compile(m[4], path, 'exec')
                good.append(m)
            except SyntaxError:
                pass
        random.Random(args.seed).shuffle(good)
        todo += [(path, m) for m in good[:args.max]]

    # Tests
    n = 8
    dirs = [copy_repo() for _ in range(n)]
    try:
        def share(i):
            r = []
            d, repo = dirs[i]
            for path, m in todo[i::n]:
                full = os.path.join(repo, path)
                with open(full) as f:
                    saved = f.read()
                with open(full, 'w') as f:
                    f.write(m[4])
                ok = tests_pass(repo)
                with open(full, 'w') as f:
                    f.write(saved)
                if ok:
                    r.append((path, m))
            return r
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            alive = [x for r in ex.map(share, range(n)) for x in r]
        print('%d mutants, %d pass the tests' % (len(todo), len(alive)), flush=True)

        def decide(i):
            survivors = []
            d, repo = dirs[i]
            for path, m in alive[i::args.jobs]:
                full = os.path.join(repo, path)
                with open(full) as f:
                    saved = f.read()
                with open(full, 'w') as f:
                    f.write(m[4])
                caught = None
                for c in checks_for(path):
                    rc, out = run_check(c, repo)
                    if rc == 1 and 'VIOLATION property=' in out:
                        caught = c
                        break
                    if rc != 0:
                        print('ERROR', c, rc, path, m[:4], out[-500:], flush=True)
                with open(full, 'w') as f:
                    f.write(saved)
                line = '%s %s:%d %s | %s -> %s' % (caught or 'SURVIVES', path, m[0], m[1], m[2], m[3])
                with open(args.out, 'a') as f:
                    f.write(line + '\n')
                if not caught:
                    survivors.append(line)
                    print(line, flush=True)
            return survivors
        with concurrent.futures.ThreadPoolExecutor(args.jobs) as ex:
            s = [x for r in ex.map(decide, range(args.jobs)) for x in r]
        print('%d of %d survive' % (len(s), len(alive)))
    finally:
        for d, _ in dirs:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main()
