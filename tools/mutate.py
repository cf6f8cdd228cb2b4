"""dev tool: mutate.py OUT N SEED FILES...  -- small mutants of covered lines, and the first check that reports each.

Mutants nobody reports are printed as SURVIVED, to be looked at: equivalent, outside all properties, or a gap."""
import ast
import copy
import os
import random
import shutil
import subprocess
import sys
import time

REPO = '/repo'
POOL = ['C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C10', 'C01']
WORLD = ['C01', 'C06', 'C02', 'C11', 'C13', 'C03', 'C09', 'C08', 'C10', 'C07', 'C12', 'C05', 'C04']
SEEDS = {'pool': '1500', 'world': '240'}


def covered():
    out = {}
    for i in range(1, 14):
        p = '/tmp/cov.C%02d' % i
        if os.path.exists(p):
            for x in open(p):
                a, b = x.rstrip('\n').split('\t')
                out.setdefault(a, set()).add(int(b))
    return out


class Sites(ast.NodeVisitor):
    def __init__(self):
        self.sites = []

    def generic_visit(self, n):
        for f, v in ast.iter_fields(n):
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.stmt):
                        if isinstance(x, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Return, ast.Break, ast.Continue, ast.Delete)) \
                                and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)):
                            self.sites.append((x.lineno, 'delete'))
                        if isinstance(x, (ast.If, ast.While)):
                            self.sites.append((x.lineno, 'negate'))
                            if isinstance(x, ast.If):
                                self.sites.append((x.lineno, 'always'))
                        if isinstance(x, ast.With):
                            self.sites.append((x.lineno, 'unwith'))
                        if isinstance(x, ast.Try):
                            self.sites.append((x.lineno, 'untry'))
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.Compare):
                self.sites.append((x.lineno, 'compare', x.col_offset))
            if isinstance(x, ast.BoolOp):
                self.sites.append((x.lineno, 'bool', x.col_offset))
            if isinstance(x, ast.Constant) and isinstance(x.value, (int, bool)) and not isinstance(n, ast.Expr):
                self.sites.append((x.lineno, 'const', x.col_offset))
            if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Add, ast.Sub)):
                self.sites.append((x.lineno, 'arith', x.col_offset))
            if isinstance(x, ast.Call) and len(x.args) > 1:
                self.sites.append((x.lineno, 'swapargs', x.col_offset))
        super().generic_visit(n)


class Apply(ast.NodeTransformer):
    def __init__(self, site):
        self.site = site
        self.done = False

    def visit(self, n):
        s = self.site
        if not self.done and getattr(n, 'lineno', None) == s[0]:
            k = s[1]
            if isinstance(n, ast.stmt):
                if k == 'delete' and isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Return, ast.Break, ast.Continue, ast.Delete)):
                    self.done = True
                    return ast.copy_location(ast.Pass(), n)
                if k == 'negate' and isinstance(n, (ast.If, ast.While)):
                    self.done = True
                    n.test = ast.UnaryOp(ast.Not(), n.test)
                    return n
                if k == 'always' and isinstance(n, ast.If):
                    self.done = True
                    n.test = ast.Constant(True)
                    return n
                if k == 'unwith' and isinstance(n, ast.With):
                    self.done = True
                    return n.body
                if k == 'untry' and isinstance(n, ast.Try):
                    self.done = True
                    return n.body + n.orelse + n.finalbody
            elif len(s) > 2 and getattr(n, 'col_offset', None) == s[2]:
                if k == 'compare' and isinstance(n, ast.Compare):
                    self.done = True
                    m = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
                         ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
                    n.ops[0] = m[type(n.ops[0])]()
                    return n
                if k == 'bool' and isinstance(n, ast.BoolOp):
                    self.done = True
                    n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
                    return n
                if k == 'const' and isinstance(n, ast.Constant):
                    self.done = True
                    return ast.copy_location(ast.Constant((not n.value) if isinstance(n.value, bool) else n.value + 1), n)
                if k == 'arith' and isinstance(n, ast.BinOp):
                    self.done = True
                    n.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
                    return n
                if k == 'swapargs' and isinstance(n, ast.Call):
                    self.done = True
                    n.args[0], n.args[1] = n.args[1], n.args[0]
                    return n
        return self.generic_visit(n)


def main():
    out, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:]
    cov = covered()
    todo = []
    for f in files:
        src = open(os.path.join(REPO, f)).read()
        v = Sites()
        v.visit(ast.parse(src))
        for s in sorted(set(v.sites)):
            if f.startswith('dbutils') or s[0] in cov.get(f, ()):
                todo.append((f, s))
    random.Random(seed).shuffle(todo)
    todo = todo[:count]
    d = '/tmp/mut_%d' % os.getpid()
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git'))
    for f, s in todo:
        src = open(os.path.join(REPO, f)).read()
        t = ast.parse(src)
        a = Apply(s)
        t = ast.fix_missing_locations(a.visit(t))
        if not a.done:
            continue
        try:
            new = ast.unparse(t)
            compile(new, f, 'exec')
        except Exception:
            continue
        open(os.path.join(d, f), 'w').write(new)
        pool = f.startswith('dbutils')
        t0 = time.time()
        who = None
        for c in (POOL if pool else WORLD):
            n = SEEDS['pool' if c in POOL[:6] else 'world']
            r = subprocess.run(['./check', c, '--seeds', n, '--no-min', '--wall', '100'], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=dict(os.environ, VERIF_REPO=d),
                               capture_output=True, text=True)
            if r.returncode:
                who = '%s exit %d %s' % (c, r.returncode, ' | '.join(x for x in r.stdout.split('\n') if 'violation seed' in x)[:150])
                break
        line = src.split('\n')[s[0] - 1].strip()
        with open(out, 'a') as o:
            o.write('%s %s:%d %s  [%s]  %s (%d s)\n' % ('killed  ' if who else 'SURVIVED', f, s[0], s[1:], line, who or '', time.time() - t0))
        shutil.copy(os.path.join(REPO, f), os.path.join(d, f))
    shutil.rmtree(d)


main()
