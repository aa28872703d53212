"""Development helper: mutation campaign

mutate.py list                  write /tmp/mut/mutants.jsonl
mutate.py tests [-j N]          keep those that pass the tests
mutate.py checks [-j N] [n]     run the quick checks against survivors
                                (from a copy of /verif in /tmp/mut/verif)
"""
import warnings
warnings.simplefilter('ignore')
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys

BASE = '/tmp/mut'
PY = '/opt/venv/bin/python'
FILES = ['basic.py', 'handlers.py', 'link.py', 'math.py', 'utils.py',
         'base/base.py', 'base/containers.py', 'base/instance.py',
         'base/union.py', 'extras/singleton.py', 'extras/task.py',
         'extras/uid.py', 'extras/web.py', 'images.py']
ORDER = {
    'basic.py': 'C31 C32 C35 C33 C01 C02 C09 C10 C06 C18 C26 C19 C16 C04 C05 '
                'C03 C07 C30',
    'handlers.py': 'C31 C11 C12 C16 C10 C17', 'link.py': 'C24',
    'math.py': 'C31 C32 C28 C29', 'utils.py': 'C32 C34 C10 C14 C21',
    'base/base.py': 'C33 C31 C35 C10 C16 C08 C17 C18 C19 C14 C15 C20 C11 C26 '
                    'C21 C23',
    'base/containers.py': 'C31 C32 C35 C10 C14 C16 C06 C13 C19 C20 C09 C21',
    'base/instance.py': 'C31 C32 C35 C10 C06 C16 C19 C20 C14 C21 C22',
    'base/union.py': 'C31 C32 C35 C07 C10 C14 C19 C06 C16 C09 C18',
    'extras/singleton.py': 'C27', 'extras/task.py': 'C25',
    'extras/uid.py': 'C31 C32 C22 C23 C21', 'extras/web.py': 'C31 C05 C22',
    'images.py': 'C32 C30',
}
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<',
       ast.Gt: '>=', ast.GtE: '>', ast.Is: 'is not', ast.IsNot: 'is',
       ast.In: 'not in', ast.NotIn: 'in'}
SKIPFN = {'info', 'sphinx', 'sphinx_class', 'sphinx_extra', '__repr__',
          '_doc', 'build_class_doc', 'add_help'}


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.splitlines(True)
        self.starts = [0]
        for x in self.lines:
            self.starts.append(self.starts[-1] + len(x))
        self.out = []
        self.fn = []

    def span(self, n):
        f = lambda l, c: self.starts[l - 1] + len(
            self.lines[l - 1].encode()[:c].decode())
        return f(n.lineno, n.col_offset), f(n.end_lineno, n.end_col_offset)

    def text(self, n):
        a, b = self.span(n)
        return self.src[a:b]

    def rep(self, n, new, op):
        a, b = self.span(n)
        if self.src[a:b] != new:
            self.out.append((n.lineno, a, b, new, op))

    def visit_FunctionDef(self, n):
        if n.name in SKIPFN or 'doc' in n.name and n.name != '__doc__':
            return
        self.fn.append(n.name)
        for d in n.args.defaults:
            self.visit(d)
        self.body(n.body)
        self.fn.pop()

    def body(self, stmts):
        for s in stmts:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if self.fn and isinstance(s, (ast.Expr, ast.AugAssign,
                                          ast.Delete, ast.Raise, ast.Assign)):
                if not (isinstance(s, ast.Assign) and
                        isinstance(s.targets[0], ast.Name)):
                    self.rep(s, 'pass', 'delete')
            if isinstance(s, ast.Return) and s.value is not None and not (
                    isinstance(s.value, ast.Constant) and
                    s.value.value is None):
                self.rep(s, 'return None', 'return-none')
            if isinstance(s, ast.Continue):
                self.rep(s, 'break', 'break')
                self.rep(s, 'pass', 'no-continue')
            if isinstance(s, ast.Break):
                self.rep(s, 'pass', 'no-break')
            self.visit(s)

    def generic_visit(self, n):
        for f, v in ast.iter_fields(n):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                self.body(v)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, ast.AST):
                        self.visit(x)
            elif isinstance(v, ast.AST):
                self.visit(v)

    def visit_Compare(self, n):
        if self.fn and len(n.ops) == 1:
            self.rep(n, '(%s %s %s)' % (
                self.text(n.left), CMP[type(n.ops[0])],
                self.text(n.comparators[0])), 'compare')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        if self.fn:
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            self.rep(n, '(' + op.join('(%s)' % self.text(v)
                                      for v in n.values) + ')', 'and-or')
            op = ' and ' if isinstance(n.op, ast.And) else ' or '
            for i in range(len(n.values)):
                self.rep(n, '(' + op.join(
                    '(%s)' % self.text(v) for j, v in enumerate(n.values)
                    if j != i) + ')', 'drop-operand')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if self.fn and isinstance(n.op, ast.Not):
            self.rep(n, '(%s)' % self.text(n.operand), 'not')
        self.generic_visit(n)

    def visit_If(self, n):
        self.rep(n.test, 'True', 'if-true')
        self.rep(n.test, 'False', 'if-false')
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.rep(n, '(%s)' % self.text(n.body), 'ifexp')
        self.rep(n, '(%s)' % self.text(n.orelse), 'ifexp')
        self.generic_visit(n)

    def visit_Constant(self, n):
        if self.fn and isinstance(n.value, bool):
            self.rep(n, str(not n.value), 'bool')
        elif self.fn and isinstance(n.value, int):
            self.rep(n, str(n.value + 1), 'int')

    def visit_Call(self, n):
        if self.fn:
            f = self.text(n.func)
            if f in ('dict', 'list', 'set', 'tuple', 'copy', 'deepcopy',
                     'str', 'type') and len(n.args) == 1:
                self.rep(n, '(%s)' % self.text(n.args[0]), 'unwrap')
            for k in n.keywords:
                rest = [self.text(a) for a in n.args] + [
                    ('%s=' % q.arg if q.arg else '**') + self.text(q.value)
                    for q in n.keywords if q is not k]
                self.rep(n, '%s(%s)' % (f, ', '.join(rest)), 'drop-kwarg')
            if len(n.args) == 2 and f not in ('isinstance', 'getattr',
                                              'hasattr', 'issubclass',
                                              'super', 'setattr'):
                self.rep(n, '%s(%s)' % (f, ', '.join(
                    [self.text(n.args[1]), self.text(n.args[0])] + [
                        ('%s=' % q.arg if q.arg else '**') +
                        self.text(q.value) for q in n.keywords])), 'swap')
            if f == 'getattr' and len(n.args) == 3:
                pass
        self.generic_visit(n)

    def visit_ExceptHandler(self, n):
        if isinstance(n.type, ast.Tuple) and len(n.type.elts) > 1:
            for i in range(len(n.type.elts)):
                self.rep(n.type, '(%s,)' % ', '.join(
                    self.text(v) for j, v in enumerate(n.type.elts)
                    if j != i), 'except')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if self.fn and not isinstance(n.left, ast.Constant):
            ops = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+'}
            if type(n.op) in ops:
                self.rep(n, '(%s %s %s)' % (self.text(n.left),
                                            ops[type(n.op)],
                                            self.text(n.right)), 'binop')
        self.generic_visit(n)

    def visit_Raise(self, n):
        pass

    def visit_JoinedStr(self, n):
        pass


def listing():
    out = []
    for f in FILES:
        src = open(BASE + '/repo/properties/' + f).read()
        v = Finder(src)
        v.visit(ast.parse(src))
        seen = set()
        for line, a, b, new, op in v.out:
            if (a, b, new) in seen:
                continue
            seen.add((a, b, new))
            try:
                ast.parse(src[:a] + new + src[b:])
            except SyntaxError:
                continue
            out.append(dict(id=len(out), file=f, line=line, a=a, b=b, new=new,
                            old=src[a:b], op=op))
    with open(BASE + '/mutants.jsonl', 'w') as fh:
        for m in out:
            fh.write(json.dumps(m) + '\n')
    print(len(out))


def load(path):
    if not os.path.exists(path):
        return []
    return [json.loads(x) for x in open(path)]


def setup(m, tag):
    d = '%s/w-%s-%d' % (BASE, tag, m['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for x in ('properties', 'tests', 'setup.py'):
        if os.path.isdir(BASE + '/repo/' + x):
            shutil.copytree(BASE + '/repo/' + x, d + '/' + x,
                            ignore=shutil.ignore_patterns('__pycache__'))
        elif os.path.exists(BASE + '/repo/' + x):
            shutil.copy(BASE + '/repo/' + x, d)
    p = d + '/properties/' + m['file']
    s = open(p).read()
    assert s[m['a']:m['b']] == m['old']
    with open(p, 'w') as fh:
        fh.write(s[:m['a']] + m['new'] + s[m['b']:])
    return d


def run_tests(m):
    d = setup(m, 't')
    try:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=d,
                   PYTHONHASHSEED='0')
        try:
            r = subprocess.run(
                [PY, '-m', 'pytest', 'tests', '-q', '-x', '-p',
                 'no:cacheprovider', '--timeout=60'], cwd=d, env=env,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=90)
            ok = r.returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return dict(m, survives=ok)


def run_checks(m):
    d = setup(m, 'c')
    allc = ['C%02d' % i for i in range(1, 36)
            if os.path.exists('%s/verif/harness/c%02d.py' % (BASE, i))]
    first = ORDER[m['file']].split()
    order = [c for c in first if c in allc]
    vd = '%s/v-%d' % (BASE, m['id'])
    shutil.rmtree(vd, ignore_errors=True)
    shutil.copytree(BASE + '/verif', vd)
    caught, odd = None, []
    try:
        for c in order:
            try:
                r = subprocess.run(
                    [sys.executable, 'check.py', c, '--jobs', '2', '--repo',
                     d, '--budget', '100'], cwd=vd, stdout=subprocess.PIPE,
                    stderr=subprocess.STDOUT, text=True, timeout=300)
            except subprocess.TimeoutExpired:
                odd.append(c + ':timeout')
                continue
            if 'VIOLATION property=' in r.stdout:
                caught = c
                break
            if r.returncode:
                odd.append('%s:%d' % (c, r.returncode))
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(vd, ignore_errors=True)
    return dict(m, caught=caught, odd=odd)


def run_screen(m):
    """Replay kept path models (SYMX_KEEP of the checks) on the mutant"""
    d = setup(m, 's')
    try:
        r = subprocess.run(
            ['python3', BASE + '/screen.py', d,
             ','.join(ORDER[m['file']].split())],
            env=dict(os.environ, OPENBLAS_NUM_THREADS='1'),
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = json.loads(r.stdout.strip().splitlines()[-1])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return dict(m, screen=out)


def campaign(todo, fn, out, jobs):
    done = {m['id'] for m in load(out)}
    todo = [m for m in todo if m['id'] not in done]
    with cf.ThreadPoolExecutor(jobs) as ex, open(out, 'a') as fh:
        for fut in cf.as_completed([ex.submit(fn, m) for m in todo]):
            try:
                fh.write(json.dumps(fut.result()) + '\n')
            except Exception as err:
                print(repr(err))
            fh.flush()


def main():
    cmd = sys.argv[1]
    jobs = int(sys.argv[sys.argv.index('-j') + 1]) if '-j' in sys.argv else 4
    if cmd == 'list':
        listing()
    elif cmd == 'tests':
        campaign(load(BASE + '/mutants.jsonl'), run_tests,
                 BASE + '/tested.jsonl', jobs)
    elif cmd == 'screen':
        campaign([m for m in load(BASE + '/tested.jsonl') if m['survives']],
                 run_screen, BASE + '/screened.jsonl', jobs)
    else:
        todo = [m for m in load(BASE + '/screened.jsonl') if not m['screen']]
        if '-f' in sys.argv:
            fs = sys.argv[sys.argv.index('-f') + 1].split(',')
            todo = [m for m in todo if m['file'] in fs]
        random.Random(1).shuffle(todo)
        campaign(todo, run_checks, BASE + '/checked.jsonl', jobs)


main()
