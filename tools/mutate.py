#!/usr/bin/env python3
"""Development tool: systematic mutants of the package, to find what neither
the tests nor the checks notice.

  mutate.py gen   [FILE...]       list the mutants       -> OUT/mutants.json
  mutate.py pipe [FILE...]        run checks and tests on them, random order
  mutate.py left                  those that survive both
OUT is /tmp/mut (or $MUT); nothing is written to /repo.
"""
import ast
import concurrent.futures as cf
import json
import os
import queue
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get('MUT', '/tmp/mut')
PY = '/opt/venv/bin/python'
PKG = '/repo/seismostats'
WORKERS = int(os.environ.get('MUT_WORKERS', '7'))
CHECKS = [
    ('utils/binning.py', 'C01 C02 C03 C30'),
    ('utils/simulate', 'C28 C11'), ('utils/coordinates', 'C29'),
    ('utils/filtering', 'C31'), ('utils/_config', 'C09 C07'),
    ('utils/__init__', 'C32 C17'), ('utils/', 'C18'),
    ('analysis/bvalue/weichert', 'C12 C08'),
    ('analysis/bvalue/kijko', 'C13 C08'),
    ('analysis/bvalue/positive', 'C05 C02 C07 C18'),
    ('analysis/bvalue/more_positive', 'C05 C02 C07 C18'),
    ('analysis/bvalue/', 'C04 C05 C02 C07 C09 C11 C18'),
    ('analysis/avalue', 'C06 C02 C07 C09 C18'),
    ('analysis/b_sig', 'C14 C15 C30 C07 C08'),
    ('analysis/estimate_mc', 'C10 C11 C09 C08 C02 C18'),
    ('analysis/lilliefors', 'C11'), ('analysis/magnitudes', 'C33'),
    ('analysis/declustering', 'C16 C08'),
    ('catalogs/client', 'C23 C24'), ('catalogs/rategrid', 'C26 C27 C32 C17 C08'),
    ('catalogs/templates', 'C20'), ('catalogs/catalog_templates', 'C20'),
    ('catalogs/catalog.py', 'C18 C19 C20 C25 C17 C32 C01 C10 C11 C21 C08 C09'),
    ('io/parser', 'C21 C22 C20'), ('plots/', 'C30 C18 C08 C09'),
]
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0',
           NUMBA_NUM_THREADS='1')


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.splitlines(keepends=True)
        self.off = [0]
        for ln in self.lines:
            self.off.append(self.off[-1] + len(ln.encode()))
        self.b = src.encode()
        self.out = []
        self.func = []

    def span(self, n):
        return (self.off[n.lineno - 1] + n.col_offset,
                self.off[n.end_lineno - 1] + n.end_col_offset)

    def text(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def add(self, n, new, kind):
        a, b = self.span(n)
        self.out.append(dict(a=a, b=b, new=new, kind=kind, line=n.lineno,
                             old=self.b[a:b].decode(),
                             func='.'.join(self.func)))

    def visit_FunctionDef(self, n):
        self.func.append(n.name)
        body = n.body
        if isinstance(body[0], ast.Expr) and \
                isinstance(body[0].value, ast.Constant):
            body = body[1:]
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)
        for d in n.decorator_list:
            self.visit(d)
        for s in body:
            self.visit(s)
        self.func.pop()

    def visit_ClassDef(self, n):
        self.func.append(n.name)
        for s in n.body:
            if not (isinstance(s, ast.Expr)
                    and isinstance(s.value, ast.Constant)):
                self.visit(s)
        self.func.pop()

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            l, r = self.text(n.left), self.text(n.comparators[0])
            alt = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'],
                   ast.Gt: ['>=', '<'], ast.GtE: ['>', '<'],
                   ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'],
                   ast.IsNot: ['is'], ast.In: ['not in'],
                   ast.NotIn: ['in']}[type(n.ops[0])]
            for o in alt:
                self.add(n, '(%s %s %s)' % (l, o, r), 'cmp')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        alt = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'],
               ast.Div: ['*'], ast.Pow: ['*'], ast.Mod: [], ast.FloorDiv: ['/'],
               ast.BitAnd: ['|'], ast.BitOr: ['&']}.get(type(n.op), [])
        if isinstance(n.op, ast.Mod) or isinstance(n.left, ast.JoinedStr):
            alt = []
        l, r = self.text(n.left), self.text(n.right)
        for o in alt:
            self.add(n, '((%s) %s (%s))' % (l, o, r), 'binop')
        if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            self.add(n, '(%s)' % l, 'dropright')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        o = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.add(n, '(' + o.join('(%s)' % self.text(v) for v in n.values)
                 + ')', 'boolop')
        for k in range(len(n.values)):
            rest = [v for j, v in enumerate(n.values) if j != k]
            oo = ' and ' if isinstance(n.op, ast.And) else ' or '
            self.add(n, '(' + oo.join('(%s)' % self.text(v) for v in rest)
                     + ')', 'boolterm')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            self.add(n, '(%s)' % self.text(n.operand), 'unary')
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.add(n, str(not v), 'bool')
        elif isinstance(v, int):
            self.add(n, str(v + 1), 'int')
            if v != 0:
                self.add(n, str(v - 1) if v > 0 else '(%d)' % (v - 1), 'int')
        elif isinstance(v, float):
            self.add(n, repr(v * 1.01 + 1e-3), 'float')
        elif isinstance(v, str) and v and len(v) < 40:
            self.add(n, repr(v + 'X'), 'str')

    def visit_JoinedStr(self, n):
        pass

    def visit_Raise(self, n):
        pass

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Slice):
            self.add(n, self.text(n.value), 'noslice')
        self.generic_visit(n)

    def visit_Call(self, n):
        f = n.func
        name = f.attr if isinstance(f, ast.Attribute) else getattr(
            f, 'id', '')
        if name in ('warn', 'debug', 'info', 'error', 'getLogger', 'cast'):
            return
        args = [self.text(a) for a in n.args]
        kws = [(k.arg + '=' if k.arg else '**') + self.text(k.value)
               for k in n.keywords]
        ft = self.text(f)
        for k in range(len(kws)):
            self.add(n, '%s(%s)' % (ft, ', '.join(
                args + kws[:k] + kws[k + 1:])), 'dropkw')
        if len(args) >= 2:
            for k in range(len(args) - 1):
                a = args[:]
                a[k], a[k + 1] = a[k + 1], a[k]
                self.add(n, '%s(%s)' % (ft, ', '.join(a + kws)), 'swapargs')
            self.add(n, '%s(%s)' % (ft, ', '.join(args[:-1] + kws)),
                     'droparg')
        if isinstance(f, ast.Attribute) and not (
                isinstance(f.value, ast.Name)
                and f.value.id in ('np', 'pd', 'plt', 'os', 'json', 'super')):
            self.add(n, self.text(f.value), 'nomethod')
        elif len(args) == 1:
            self.add(n, '(%s)' % args[0], 'nocall')
        swap = {'min': 'max', 'max': 'min', 'floor': 'ceil', 'any': 'all',
                'all': 'any', 'sum': 'mean', 'mean': 'median', 'zeros': 'ones',
                'ones': 'zeros', 'argsort': 'argsort', 'searchsorted': '',
                'append': 'insert', 'cumsum': 'cumprod', 'log10': 'log',
                'log': 'log10', 'sin': 'cos', 'cos': 'sin', 'sqrt': 'abs',
                'isnan': 'isfinite', 'notna': 'isna', 'isna': 'notna'}
        if swap.get(name) and swap[name] != name:
            self.add(f, ft[:-len(name)] + swap[name], 'func')
        self.generic_visit(n)

    def stmt(self, n):
        self.add(n, 'pass', 'delete')

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call):
            if self.func:
                self.stmt(n)
            self.generic_visit(n)

    def visit_Assign(self, n):
        if self.func:
            self.stmt(n)
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.stmt(n)
        self.generic_visit(n)

    def visit_Return(self, n):
        self.generic_visit(n)

    def visit_Break(self, n):
        self.stmt(n)

    def visit_Continue(self, n):
        self.stmt(n)

    def visit_If(self, n):
        self.add(n.test, 'True', 'if')
        self.add(n.test, 'False', 'if')
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, '(%s)' % self.text(n.body), 'ifexp')
        self.add(n, '(%s)' % self.text(n.orelse), 'ifexp')
        self.generic_visit(n)


def sources():
    for d, dirs, names in os.walk(PKG):
        dirs[:] = sorted(x for x in dirs if x not in ('__pycache__', 'tests'))
        for n in sorted(names):
            if n.endswith('.py'):
                yield os.path.relpath(os.path.join(d, n), PKG)


def gen(only):
    out = []
    for f in sources():
        if only and not any(o in f for o in only):
            continue
        src = open(os.path.join(PKG, f)).read()
        fi = Finder(src)
        fi.visit(ast.parse(src))
        seen = set()
        for m in fi.out:
            new = src.encode()[:m['a']] + m['new'].encode() + \
                src.encode()[m['b']:]
            try:
                t = ast.dump(ast.parse(new))
            except SyntaxError:
                continue
            if t in seen or t == ast.dump(ast.parse(src)):
                continue
            seen.add(t)
            out.append(dict(m, file=f, id='%s:%d:%d' % (f, m['line'],
                                                        len(seen))))
    json.dump(out, open(OUT + '/mutants.json', 'w'))
    n = {}
    for m in out:
        n[m['file']] = n.get(m['file'], 0) + 1
    print(len(out), n)


pool = queue.Queue()


def workers():
    for k in range(WORKERS):
        d = '%s/w%d' % (OUT, k)
        if os.path.exists(d):
            shutil.rmtree(d)
        shutil.copytree('/repo', d + '/repo', symlinks=True)
        shutil.copytree(VERIF, d + '/verif', symlinks=True,
                        ignore=shutil.ignore_patterns('.git', 'seeded',
                                                      'replays'))
        pool.put(d)


class Applied:
    def __init__(self, m):
        self.m = m

    def __enter__(self):
        self.d = pool.get()
        p = self.d + '/repo/seismostats/' + self.m['file']
        self.p = p
        self.s = open(PKG + '/' + self.m['file'], 'rb').read()
        open(p, 'wb').write(self.s[:self.m['a']] + self.m['new'].encode()
                            + self.s[self.m['b']:])
        return self.d

    def __exit__(self, *a):
        open(self.p, 'wb').write(self.s)
        pool.put(self.d)


def run(cmd, cwd, env, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True,
                         start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 'timeout', ''


def one(m):
    """first check briefly, then the tests, then all checks"""
    names = next(c for f, c in CHECKS if m['file'].startswith(f)).split()
    with Applied(m) as d:
        env = dict(ENV, VERIF_REPO=d + '/repo', VERIF_PROCS='1',
                   VERIF_FAIL_FAST='1', VERIF_SEED='1')
        for c in names[:2]:
            rc, o = run([PY, d + '/verif/run.py', c], d, env, 12)
            if rc not in (0, 'timeout'):
                return m['id'], ['quick', c, rc]
        rc, o = run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider',
                     '--timeout=60', '-n', '2'], d + '/repo',
                    dict(ENV, PYTHONPATH=d + '/repo'), 300)
        if rc != 0:
            return m['id'], ['tests', rc]
        log = []
        for c in names:
            rc, o = run([PY, d + '/verif/run.py', c], d,
                        dict(env, VERIF_PROCS='2'), 600)
            log.append((c, rc))
            if rc not in (0, 2):
                return m['id'], ['checks', log]
        return m['id'], ['left', log]


def drive(fn, todo, path):
    done = json.load(open(path)) if os.path.exists(path) else {}
    todo = [m for m in todo if m['id'] not in done]
    print(len(todo), 'to do', flush=True)
    workers()
    t = time.time()
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        for n, f in enumerate(cf.as_completed(
                [ex.submit(fn, m) for m in todo])):
            i, r = f.result()
            done[i] = r
            if n % 20 == 0:
                json.dump(done, open(path, 'w'))
                print(n, round(time.time() - t), flush=True)
    json.dump(done, open(path, 'w'))


def main():
    os.makedirs(OUT, exist_ok=True)
    cmd = sys.argv[1]
    if cmd == 'gen':
        return gen(sys.argv[2:])
    ms = json.load(open(OUT + '/mutants.json'))
    if cmd == 'pipe':
        import random
        random.Random(7).shuffle(ms)
        if len(sys.argv) > 2:
            ms = [m for m in ms if any(m['file'].startswith(a)
                                       for a in sys.argv[2:])]
        return drive(one, ms, OUT + '/pipe.json')
    if cmd == 'left':
        c = json.load(open(OUT + '/pipe.json'))
        for m in ms:
            if c.get(m['id'], [''])[0] == 'left':
                print('%s [%s] %s | %s -> %s' % (
                    m['id'], m['kind'], m['func'],
                    ' '.join(m['old'].split())[:110],
                    ' '.join(m['new'].split())[:110]))


main()
