#!/usr/bin/env python3
"""Mutation survey: which small changes to the code do no checks notice?

tools/mutate.py OUT.jsonl [--files GLOB..] [--sample N] [--seed S] [--workers W] [--list]

Works on scratch copies only.  Each mutant is one edit; the checks whose workloads reach the edited line
(measured, see VMON_COVER) run against it in turn until one reports a violation.
"""
import argparse
import ast
import fnmatch
import glob
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP_FILES = ('complex/composite.py', 'stencil/experiment.py')
SKIP_FUNCS = ('plot', '__repr__', 'save_', 'from_stl', 'imshow')


def offsets(src):
    out, n = [0], 0
    for line in src.splitlines(keepends=True):
        n += len(line)
        out.append(n)
    return out


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.off = offsets(src)
        self.inside = 0
        self.out = []

    def pos(self, line, col):
        text = self.src[self.off[line - 1]:]
        first = text.split('\n', 1)[0]
        return self.off[line - 1] + len(first.encode()[:col].decode())

    def span(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def text(self, n):
        a, b = self.span(n)
        return self.src[a:b]

    def put(self, n, new, what):
        if self.inside:
            a, b = self.span(n)
            self.out.append((n.lineno, a, b, new, what))

    def visit_FunctionDef(self, n):
        if any(s in n.name for s in SKIP_FUNCS):
            return
        self.inside += 1
        for s in n.body:
            self.visit(s)
        for d in n.args.defaults:
            self.visit(d)
        self.inside -= 1

    def visit_Lambda(self, n):
        self.visit(n.body)

    def visit_If(self, n):
        if isinstance(n.test, ast.Compare) and self.text(n.test).startswith('__name__'):
            return
        self.put(n.test, 'not (%s)' % self.text(n.test), 'negate if')
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.put(n.test, 'not (%s)' % self.text(n.test), 'negate ifexp')
        self.generic_visit(n)

    def visit_Assert(self, n):
        self.put(n, 'pass', 'drop assert')

    def visit_Raise(self, n):
        self.put(n, 'pass', 'drop raise')

    def visit_BinOp(self, n):
        l, r = self.text(n.left), self.text(n.right)
        swaps = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/', '+'], ast.Div: ['*'], ast.Pow: ['*'],
                 ast.Mod: ['*'], ast.FloorDiv: ['*', '/'], ast.MatMult: [], ast.BitOr: ['&'], ast.BitAnd: ['|']}
        for op in swaps.get(type(n.op), []):
            self.put(n, '(%s) %s (%s)' % (l, op, r), 'op %s' % op)
        if isinstance(n.op, (ast.Sub, ast.Div, ast.MatMult, ast.Mult)):
            self.put(n, '(%s) %s (%s)' % (r, {ast.Sub: '-', ast.Div: '/', ast.MatMult: '@', ast.Mult: '*'}[type(n.op)], l), 'swap')
        self.put(n, '(%s)' % l, 'left only')
        self.put(n, '(%s)' % r, 'right only')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.put(n, self.text(n.operand), 'drop unary')
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            sw = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<'],
                  ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in']}
            for op in sw.get(type(n.ops[0]), []):
                self.put(n, '%s %s %s' % (self.text(n.left), op, self.text(n.comparators[0])), 'cmp ' + op)
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = ' and ' if isinstance(n.op, ast.Or) else ' or '
        self.put(n, op.join('(%s)' % self.text(v) for v in n.values), 'boolop')
        self.generic_visit(n)

    def visit_Constant(self, n):
        if n.value is True or n.value is False:
            self.put(n, str(not n.value), 'flip bool')
        elif isinstance(n.value, int):
            for d in (1, -1):
                self.put(n, '(%d)' % (n.value + d), 'int %+d' % d)
        elif isinstance(n.value, float):
            self.put(n, '(%r)' % (n.value * 2 + 0.5), 'float')

    def visit_Attribute(self, n):
        if n.attr == 'T':
            self.put(n, self.text(n.value), 'drop .T')
        self.generic_visit(n)

    def visit_Slice(self, n):
        self.put(n, ':', 'full slice')
        self.generic_visit(n)

    def visit_Call(self, n):
        f = self.text(n.func)
        ren = {'np.min': 'np.max', 'np.max': 'np.min', 'np.argmin': 'np.argmax', 'np.sin': 'np.cos', 'np.cos': 'np.sin',
               'np.zeros': 'np.ones', 'np.ones': 'np.zeros', 'np.zeros_like': 'np.ones_like', 'np.ones_like': 'np.zeros_like',
               'np.minimum': 'np.maximum', 'np.maximum': 'np.minimum', 'np.floor': 'np.ceil', 'np.hstack': 'np.vstack',
               'max': 'min', 'min': 'max', 'np.any': 'np.all', 'np.all': 'np.any', 'np.sum': 'np.mean', 'np.cumsum': 'np.asarray',
               'np.logical_and': 'np.logical_or', 'np.logical_or': 'np.logical_and'}
        if f in ren:
            a, b = self.span(n.func)
            if self.inside:
                self.out.append((n.lineno, a, b, ren[f], 'call ' + ren[f]))
        if isinstance(n.func, ast.Attribute):
            meth = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'sum': 'mean', 'argmin': 'argmax',
                    'argmax': 'argmin', 'mean': 'sum', 'append': None}
            if n.func.attr in meth and meth[n.func.attr] and not f.startswith('np.'):
                a, b = self.span(n.func)
                if self.inside:
                    self.out.append((n.lineno, b - len(n.func.attr), b, meth[n.func.attr], 'meth'))
            if n.func.attr in ('copy', 'transpose', 'flatten', 'tocsr', 'sort', 'astype', 'squeeze') and not f.startswith('np.'):
                self.put(n, self.text(n.func.value), 'drop .%s()' % n.func.attr)
        if len(n.args) >= 1 and f in ('np.abs', 'np.sqrt', 'np.sort', 'np.unique', 'np.flip', 'np.transpose', 'np.swapaxes',
                                      'np.copy', 'np.sign', 'np.moveaxis', 'linalg.normalized', 'np.clip', 'sorted', 'reversed',
                                      'relative_permutations', 'np.linalg.inv', 'abs', 'np.roll', 'normalize_l1', 'sparse_normalize_l1'):
            self.put(n, '(%s)' % self.text(n.args[0]), 'unwrap ' + f)
        if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            self.put(n, '%s(%s, %s)' % (f, self.text(n.args[1]), self.text(n.args[0])), 'swap args')
        for k in n.keywords:
            if k.arg:
                args = [self.text(a) for a in n.args] + [
                    ('%s=%s' % (q.arg, self.text(q.value))) if q.arg else '**' + self.text(q.value) for q in n.keywords if q is not k]
                self.put(n, '%s(%s)' % (f, ', '.join(args)), 'drop kw ' + k.arg)
        self.generic_visit(n)

    def stmts(self, body):
        pass

    def visit_AugAssign(self, n):
        self.put(n, 'pass', 'drop stmt')
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.put(n, 'pass', 'drop stmt')
        self.generic_visit(n)

    def visit_Assign(self, n):
        # a second assignment to the same name: x = f(x)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            name = n.targets[0].id
            if any(isinstance(c, ast.Name) and c.id == name for c in ast.walk(n.value)):
                self.put(n, 'pass', 'drop stmt')
        elif len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            self.put(n, 'pass', 'drop stmt')
        self.generic_visit(n)

    def visit_Return(self, n):
        self.generic_visit(n)

    def visit_For(self, n):
        self.generic_visit(n)


def mutants(repo, globs):
    base = os.path.join(repo, 'pycomplex')
    for root, dirs, files in sorted(os.walk(base)):
        dirs.sort()
        if '/test' in root:
            continue
        for f in sorted(files):
            name = os.path.relpath(os.path.join(root, f), base)
            if not f.endswith('.py') or name in SKIP_FILES or not any(fnmatch.fnmatch(name, g) for g in globs):
                continue
            with open(os.path.join(root, f), newline='') as fh:
                src = fh.read()
            fd = Finder(src)
            fd.visit(ast.parse(src))
            seen = set()
            for line, a, b, new, what in fd.out:
                key = (a, b, new)
                if key in seen or src[a:b] == new:
                    continue
                seen.add(key)
                mut = src[:a] + new + src[b:]
                try:
                    compile(mut, name, 'exec')
                except SyntaxError:
                    continue
                yield dict(file=name, line=line, a=a, b=b, old=src[a:b], new=new, what=what,
                           text=src.splitlines()[line - 1].strip())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--files', nargs='*', default=['*'])
    ap.add_argument('--sample', type=int)
    ap.add_argument('--seed', type=int, default=0)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--cover', default='/tmp/cov')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    reach = {}
    for f in glob.glob(a.cover + '/*.json'):
        for n, l in json.load(open(f)):
            reach.setdefault((n, l), []).append(os.path.basename(f)[:-5])
    anchors = {}
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        d = json.loads(l)
        anchors[d['id']] = d['anchors']['files']
    cost = {}
    for p in anchors:
        try:
            cost[p] = json.load(open(os.path.join(HERE, 'evidence', p + '.json')))['wall_s']
        except OSError:
            cost[p] = 3
    ms = list(mutants(a.repo, a.files))
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d['file'], d['a'], d['b'], d['new']))
    total = len(ms)
    ms = [m for m in ms if (m['file'], m['line']) in reach]
    print(total, 'mutants', len(ms), 'on reached lines')
    if a.list:
        return
    random.Random(a.seed).shuffle(ms)
    if a.sample:
        ms = ms[:a.sample]
    ms = [m for m in ms if (m['file'], m['a'], m['b'], m['new']) not in done]
    lock = threading.Lock()
    free = []
    for w in range(a.workers):
        d = '/tmp/mut/w%d' % w
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.check_call(['cp', '-a', a.repo, d + '/repo'])
        shutil.rmtree(d + '/repo/.git', ignore_errors=True)
        os.makedirs(d + '/out', exist_ok=True)
        os.makedirs(d + '/tmp', exist_ok=True)
        free.append(d)

    def run(m):
        with lock:
            d = free.pop()
        path = os.path.join(d, 'repo/pycomplex', m['file'])
        with open(path, newline='') as fh:
            src = fh.read()
        try:
            with open(path, 'w', newline='') as fh:
                fh.write(src[:m['a']] + m['new'] + src[m['b']:])
            ps = reach[m['file'], m['line']]
            ps = sorted(ps, key=lambda p: (('pycomplex/' + m['file']) not in anchors[p], cost[p]))
            env = dict(os.environ, VMON_REPO=d + '/repo', VMON_OUT=d + '/out', VMON_JOBS='1', TMPDIR=d + '/tmp', VMON_LIMIT='300')
            killed, odd = None, []
            for p in ps:
                try:
                    r = subprocess.run([HERE + '/check', p, 'quick'], env=env, capture_output=True, timeout=400)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 'timeout'
                if rc == 1:
                    killed = p
                    break
                if rc != 0:
                    odd.append((p, rc))
                    if rc == 2 and b'HARNESS' not in r.stdout and b'INCONC' not in r.stdout:
                        break
                if rc == 'timeout':
                    break
            m = dict(m, killed=killed, odd=odd, ran=len(ps))
        finally:
            with open(path, 'w', newline='') as fh:
                fh.write(src)
            with lock:
                free.append(d)
        with lock:
            with open(a.out, 'a') as fh:
                fh.write(json.dumps(m) + '\n')

    with ThreadPoolExecutor(a.workers) as ex:
        list(ex.map(run, ms))
    shutil.rmtree('/tmp/mut', ignore_errors=True)


if __name__ == '__main__':
    main()
