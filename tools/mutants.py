#!/usr/bin/env python3
"""Development aid: random syntactic mutants of one file, and whether the check
of a property reports them.  tools/mutants.py FILE PROPERTY [COUNT] [SEED] [FILTER]"""
import ast
import os
import random
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def candidates(src):
    tree = ast.parse(src)
    out = []

    def seg(n):
        return (n.lineno, n.col_offset, n.end_lineno, n.end_col_offset)

    def add(n, new, fn):
        out.append((seg(n), ast.unparse(new), fn))

    def walk(n, fn):
        if isinstance(n, (ast.FunctionDef,)):
            fn = n.name
            for d in n.args.defaults:
                pass
            for x in n.body:
                walk(x, fn)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if fn is not None:
            if isinstance(n, ast.Raise):
                return
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('print', 'ValueError'):
                return
            if isinstance(n, ast.BinOp):
                alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.MatMult: None, ast.Div: ast.Mult,
                       ast.FloorDiv: ast.Mult}.get(type(n.op))
                if alt:
                    add(n, ast.BinOp(n.left, alt(), n.right), fn)
                if isinstance(n.op, (ast.MatMult, ast.Sub)):
                    add(n, ast.BinOp(n.right, n.op, n.left), fn)
                if isinstance(n.op, (ast.Add, ast.Sub)):
                    add(n, n.left, fn)
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
                add(n, n.operand, fn)
            elif isinstance(n, ast.Constant) and type(n.value) is int:
                add(n, ast.Constant(n.value + 1), fn)
                if n.value > 0:
                    add(n, ast.Constant(n.value - 1), fn)
            elif isinstance(n, ast.Constant) and type(n.value) is float:
                add(n, ast.Constant(n.value * 2 + 0.5), fn)
            elif isinstance(n, ast.Constant) and type(n.value) is bool:
                add(n, ast.Constant(not n.value), fn)
            elif isinstance(n, ast.Attribute) and n.attr == 'T':
                add(n, n.value, fn)
            elif isinstance(n, ast.Compare) and len(n.ops) == 1:
                alt = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq}.get(type(n.ops[0]))
                if alt:
                    add(n, ast.Compare(n.left, [alt()], n.comparators), fn)
            elif isinstance(n, ast.Call):
                if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                    k = random.randrange(len(n.args) - 1)
                    a = list(n.args)
                    a[k], a[k + 1] = a[k + 1], a[k]
                    if ast.dump(a[k]) != ast.dump(a[k + 1]):
                        add(n, ast.Call(n.func, a, n.keywords), fn)
                f = n.func
                nm = f.attr if isinstance(f, ast.Attribute) else None
                alt = {'min': 'max', 'argmin': 'argmax', 'max': 'min', 'argmax': 'argmin', 'reduce_min': 'reduce_max'}.get(nm)
                if alt:
                    add(n, ast.Call(ast.Attribute(f.value, alt, ast.Load()), n.args, n.keywords), fn)
            elif isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) >= 2:
                k = random.randrange(len(n.elts) - 1)
                a = list(n.elts)
                a[k], a[k + 1] = a[k + 1], a[k]
                add(n, ast.Tuple(a, n.ctx), fn)
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                add(n, ast.Pass(), fn)
        for c in ast.iter_child_nodes(n):
            walk(c, fn)
    walk(tree, None)
    return out


def main():
    path, prop = sys.argv[1], sys.argv[2]
    count = int(sys.argv[3]) if len(sys.argv) > 3 else 20
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 0
    filt = sys.argv[5] if len(sys.argv) > 5 else None
    random.seed(seed)
    scratch = '/tmp/mut_%d' % os.getpid()
    shutil.copytree('/repo', scratch, ignore=shutil.ignore_patterns('.git', '*.pyc'))
    try:
        f = os.path.join(scratch, path)
        src = open(f).read()
        c = [x for x in candidates(src) if not filt or filt in x[2]]
        c = [x for x in c if 'speedtest' not in x[2]] if 'speedtest' not in path else c
        random.shuffle(c)
        killed = 0
        n = 0
        lines = src.encode().split(b'\n')
        for (l1, c1, l2, c2), new, fn in c:
            if n >= count:
                break
            ls = list(lines)
            txt = ls[l1 - 1][:c1] + ('(' + new + ')' if new != 'pass' else new).encode() + ls[l2 - 1][c2:]
            ls[l1 - 1:l2] = [txt]
            open(f, 'wb').write(b'\n'.join(ls))
            try:
                ast.parse(b'\n'.join(ls))
            except SyntaxError:
                continue
            n += 1
            env = dict(os.environ, VERIF_REPO=scratch, VERIF_EVID=scratch + '/evid')
            os.makedirs(scratch + '/evid', exist_ok=True)
            r = subprocess.run(['python3', '-B', 'check.py', '--property', prop, '--jobs', os.environ.get('JOBS', '8')], cwd=HERE, env=env,
                               capture_output=True, text=True)
            last = [x for x in r.stdout.split('\n') if 'obligations' in x]
            if r.returncode == 1:
                killed += 1
            else:
                print('SURVIVED rc=%d %s:%d  %s  ->  %s   [%s]' % (
                    r.returncode, fn, l1, b'\n'.join(lines[l1 - 1:l2]).decode().strip()[:110], new[:70], (last or ['?'])[0][:80]))
                sys.stdout.flush()
        print('%s %s: %d of %d reported' % (path, prop, killed, n))
    finally:
        shutil.rmtree(scratch)


main()
