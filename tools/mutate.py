"""mutate.py list | run [--from K --to K --stride S] : AST mutants of /repo/ta, which checks see them.
Works on copies under /tmp/mut_*, never on /repo."""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
FILES = ['momentum', 'trend', 'volatility', 'volume', 'others', 'utils', 'wrapper']
DESEL = []
if os.path.exists('/tmp/failing.txt'):       # tests that fail on the unchanged tree (see BASELINE.json)
    DESEL = ['--deselect=' + x.strip() for x in open('/tmp/failing.txt')]
CMP = {'Lt': '<=', 'LtE': '<', 'Gt': '>=', 'GtE': '>', 'Eq': '!=', 'NotEq': '=='}
BIN = {'Add': '-', 'Sub': '+', 'Mult': '/', 'Div': '*'}
NAMES = {'max': 'min', 'min': 'max', 'mean': 'median', 'ffill': 'bfill', 'argmax': 'argmin', 'argmin': 'argmax', 'std': 'var',
         'maximum': 'minimum', 'minimum': 'maximum', 'cumsum': 'cumprod'}
ATTR = {'_high': '_low', '_low': '_high', '_close': '_high', '_window': '_window + 1', '_window1': '_window2', '_window2': '_window1',
        '_fillna': '_fillna is False', '_window_slow': '_window_fast', '_window_fast': '_window_slow', '_volume': '_volume + 1',
        '_smooth1': '_smooth2', '_smooth2': '_smooth1'}


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()))
    b = src.encode()
    pos = lambda ln, col: offs[ln - 1] + col  # noqa
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))  # noqa
    txt = lambda n: b[span(n)[0]:span(n)[1]].decode()  # noqa
    out = []

    def add(n, new, why):
        s, e = span(n)
        if b[s:e].decode() != new:
            out.append((n.lineno, s, e, new, why))
    tree = ast.parse(src)
    doc = {id(x.body[0].value) for x in ast.walk(tree) if isinstance(x, (ast.Module, ast.ClassDef, ast.FunctionDef)) and x.body
           and isinstance(x.body[0], ast.Expr) and isinstance(x.body[0].value, ast.Constant)}
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef):
            continue
        for d in fn.args.defaults:
            if isinstance(d, ast.Constant) and isinstance(d.value, (int, float)) and not isinstance(d.value, bool):
                add(d, repr(d.value + 1), 'default')
        for st in fn.body:
            for n in ast.walk(st):
                if id(n) in doc:
                    continue
                if isinstance(n, ast.Constant):
                    if isinstance(n.value, bool):
                        add(n, repr(not n.value), 'bool')
                    elif isinstance(n.value, int):
                        add(n, repr(n.value + 1), 'const+1')
                        if n.value:
                            add(n, repr(n.value - 1), 'const-1')
                    elif isinstance(n.value, float):
                        add(n, repr(n.value * 2 or 1.0), 'float')
                elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]).__name__ in CMP:
                    add(n, f'{txt(n.left)} {CMP[type(n.ops[0]).__name__]} {txt(n.comparators[0])}', 'cmp')
                elif isinstance(n, ast.BinOp) and type(n.op).__name__ in BIN:
                    add(n, f'(({txt(n.left)}) {BIN[type(n.op).__name__]} ({txt(n.right)}))', 'binop')
                elif isinstance(n, ast.Attribute):
                    if n.attr in NAMES:
                        add(n, f'{txt(n.value)}.{NAMES[n.attr]}', 'method')
                    elif n.attr in ATTR and isinstance(n.ctx, ast.Load):
                        add(n, f'({txt(n.value)}.{ATTR[n.attr]})', 'attr')
                elif isinstance(n, ast.Call):
                    for k in n.keywords:
                        if k.arg in ('min_periods', 'value', 'periods', 'adjust', 'ddof', 'window', 'span'):
                            add(k.value, '1', 'kw=1')
                            add(k.value, '0', 'kw=0')
                    if isinstance(n.func, ast.Attribute) and n.func.attr in ('abs', 'copy', 'ffill', 'bfill', 'shift', 'dropna'):
                        add(n, txt(n.func.value), 'drop call')
                elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                    add(n, f'({txt(n.operand)})', 'neg')
                elif isinstance(n, ast.If):
                    add(n.test, 'True', 'if true')
                    add(n.test, 'False', 'if false')
                elif isinstance(n, ast.IfExp):
                    add(n, txt(n.body), 'ifexp')
                    add(n, txt(n.orelse), 'ifexp')
                elif isinstance(n, (ast.Assign, ast.AugAssign)) and n is not fn.body[0]:
                    add(n, 'pass', 'drop stmt')
    seen = set()
    res = []
    for m in out:
        if m[1:4] not in seen:
            seen.add(m[1:4])
            res.append(m)
    return b, res


def every():
    al = []
    for f in FILES:
        b, ms = mutants(f'/repo/ta/{f}.py')
        al += [(f, m) for m in ms]
    return al


def run_one(i, f, m, checks, cases, full):
    d = f'/tmp/mut_{i}'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', 'examples_to_use', 'docs', 'doc'))
    try:
        p = f'{d}/ta/{f}.py'
        b = open(p, 'rb').read()
        new = b[:m[1]] + m[3].encode() + b[m[2]:]
        try:
            compile(new, p, 'exec')
        except SyntaxError:
            return i, 'syntax', []
        open(p, 'wb').write(new)
        r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-o', 'python_files=*.py', 'test/unit'] + DESEL, cwd=d, capture_output=True, timeout=300,
                           env={**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPATH': d})
        if r.returncode:
            return i, 'killed by tests', []
        got = []
        for c in checks:
            r = subprocess.run([PY, 'run.py', c, '--jobs', '1', '--cases', str(cases), '--no-evidence', '--seed', '77'], cwd=HERE,
                               capture_output=True, text=True, env={**os.environ, 'VERIF_REPO': d}, timeout=900)
            if r.returncode == 1:
                got.append(c)
                if not full:
                    break
            elif r.returncode != 0:
                got.append(c + '?' + str(r.returncode))
        return i, 'survives tests', got
    except subprocess.TimeoutExpired:
        return i, 'timeout', []
    finally:
        shutil.rmtree(d, ignore_errors=True)


ORDER = ['P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P21', 'P26', 'P22', 'P12', 'P13', 'P01', 'P24', 'P15', 'P23', 'P16', 'P17',
         'P19', 'P20', 'P18', 'P02', 'P14', 'P25', 'P27', 'P28']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('--n', type=int, default=200)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--cases', type=int, default=500)
    ap.add_argument('--full', action='store_true')
    ap.add_argument('--file')
    ap.add_argument('--out', default='/tmp/mut.jsonl')
    a = ap.parse_args()
    al = every()
    if a.cmd == 'list':
        print(len(al))
        return
    rnd = random.Random(a.seed)
    ids = list(range(len(al)))
    if a.file:
        ids = [i for i in ids if al[i][0] == a.file]
    rnd.shuffle(ids)
    ids = ids[:a.n]
    with ThreadPoolExecutor(8) as ex, open(a.out, 'a') as out:
        futs = [ex.submit(run_one, i, al[i][0], al[i][1], ORDER, a.cases, a.full) for i in ids]
        for fu in futs:
            i, st, got = fu.result()
            f, m = al[i]
            out.write(json.dumps(dict(id=i, file=f, line=m[0], old=open(f'/repo/ta/{f}.py', 'rb').read()[m[1]:m[2]].decode(), new=m[3],
                                      why=m[4], status=st, caught=got)) + '\n')
            out.flush()


main()
