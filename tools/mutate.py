#!/usr/bin/env python3
"""Development aid: mutation testing of the checks.

  mutate.py list OUT.json                all mutants that the repository's tests let pass
  mutate.py run IN.json OUT N SEED [W]   runs the checks on a sample of N of them, W at a time

Works in scratch copies under /tmp/mut; never touches /repo."""
import ast, json, os, random, re, shutil, subprocess, sys
from multiprocessing.pool import ThreadPool
from queue import Queue

FILES = ['words.py', 'gcodes.py', 'machine.py', 'transform.py', 'utils.py', 'block.py', 'line.py', 'comment.py',
         'dialects/linuxcnc.py', 'dialects/mapping.py', 'dialects/__init__.py', 'dialects/utils.py', 'dialects/reprap.py']
ORDER = {
    'words.py': 'C26 C02 C22 C27 C29 C01 C15',
    'gcodes.py': 'C05 C03 C27 C06 C16 C12 C20 C30 C31 C28 C29 C08 C21 C14 C07 C04 C22 C18',
    'machine.py': 'C07 C15 C10 C09 C11 C12 C13 C14 C16 C08 C30',
    'transform.py': 'C18 C17 C19 C23',
    'utils.py': 'C28 C21',
    'block.py': 'C03 C04 C29 C12 C13 C22',
    'line.py': 'C29 C01 C22', 'comment.py': 'C01 C29 C22',
}
ALL = ['C%02d' % k for k in range(1, 32)]
SRC = 'src/pygcode/'
PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Mutants(object):
    def __init__(self, text):
        self.text = text
        self.lines = text.split('\n')
        self.at = [0]
        for l in self.lines:
            self.at.append(self.at[-1] + len(l) + 1)
        self.out = []

    def pos(self, n, end=False):
        (l, c) = (n.end_lineno, n.end_col_offset) if end else (n.lineno, n.col_offset)
        return self.at[l - 1] + len(self.lines[l - 1].encode()[:c].decode())

    def src(self, n):
        return self.text[self.pos(n):self.pos(n, True)]

    def put(self, n, new, why):
        self.span(self.pos(n), self.pos(n, True), new, why, n.lineno)

    def span(self, a, b, new, why, line):
        if self.text[a:b] != new:
            self.out.append({'a': a, 'b': b, 'new': new, 'why': why, 'line': line, 'old': self.text[a:b]})

    def between(self, x, y, old, new, why):
        (a, b) = (self.pos(x, True), self.pos(y))
        seg = self.text[a:b]
        k = seg.find(old)
        if k >= 0 and '#' not in seg:
            self.span(a + k, a + k + len(old), new, why, x.lineno)

    def run(self):
        tree = ast.parse(self.text)
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr):
                docs.add(n.body[0])
        skip = set()
        for n in ast.walk(tree):
            if n in docs or isinstance(n, (ast.JoinedStr, ast.Import, ast.ImportFrom, ast.Raise)) or \
                    (isinstance(n, ast.FunctionDef) and n.name in ('__repr__', '_gcode_class_infostr')) or \
                    (isinstance(n, ast.Assert)):
                for m in ast.walk(n):
                    if m is not n or n in docs:
                        skip.add(m)
                if isinstance(n, ast.Assert):
                    for m in ast.walk(n.test):
                        skip.discard(m)
        SWAP = {ast.Lt: ('<', '<='), ast.LtE: ('<=', '<'), ast.Gt: ('>', '>='), ast.GtE: ('>=', '>'), ast.Eq: ('==', '!='),
                ast.NotEq: ('!=', '=='), ast.In: ('in', 'not in'), ast.NotIn: ('not in', 'in'), ast.Is: ('is', 'is not'),
                ast.IsNot: ('is not', 'is')}
        OPS = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'), ast.Mod: ('%', '*')}
        for n in ast.walk(tree):
            if n in skip or n in docs:
                continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                (o, w) = SWAP[type(n.ops[0])]
                self.between(n.left, n.comparators[0], o, w, 'compare')
                if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                    self.between(n.left, n.comparators[0], o, {'<': '>', '>': '<'}[o[0]], 'compare')
            elif isinstance(n, ast.BinOp) and type(n.op) in OPS and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
                (o, w) = OPS[type(n.op)]
                self.between(n.left, n.right, o, w, 'operator')
            elif isinstance(n, ast.BoolOp):
                (o, w) = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
                self.between(n.values[0], n.values[1], o, w, 'bool')
                for (k, v) in enumerate(n.values):
                    self.put(v, 'True' if isinstance(n.op, ast.And) else 'False', 'bool-term')
            elif isinstance(n, ast.UnaryOp):
                self.put(n, self.src(n.operand), 'unary')
            elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
                self.put(n.test, 'False', 'cond')
                if not isinstance(n, ast.While):
                    self.put(n.test, 'True', 'cond')
            elif isinstance(n, ast.Constant):
                if isinstance(n.value, bool):
                    self.put(n, repr(not n.value), 'const')
                elif isinstance(n.value, int):
                    self.put(n, repr(n.value + 1), 'const')
                    if n.value > 0:
                        self.put(n, repr(n.value - 1), 'const')
                elif isinstance(n.value, float):
                    self.put(n, repr(n.value * 1.5 + .5), 'const')
                elif isinstance(n.value, str) and len(n.value) < 30 and n.value:
                    if n.value.isupper():
                        self.put(n, repr(n.value[:-1]), 'const')
                        self.put(n, repr(n.value[1:]), 'const')
                    else:
                        self.put(n, repr(n.value[:-1]), 'const')
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and len(n.args) == 1 and not n.keywords and \
                    n.func.id in ('copy', 'deepcopy', 'sorted', 'abs', 'list', 'set', 'int', 'float', 'str', 'reversed', 'tuple'):
                self.put(n, '(%s)' % self.src(n.args[0]) if n.func.id != 'sorted' else 'list(%s)' % self.src(n.args[0]), 'call')
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('min', 'max'):
                self.put(n.func, {'min': 'max', 'max': 'min'}[n.func.id], 'minmax')
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('sin', 'cos', 'any', 'all', 'ceil', 'floor'):
                self.put(n.func, {'sin': 'cos', 'cos': 'sin', 'any': 'all', 'all': 'any', 'ceil': 'int', 'floor': 'ceil'}[n.func.id], 'fn')
            elif isinstance(n, (ast.Set, ast.List, ast.Tuple)) and len(n.elts) > 1 and isinstance(getattr(n, 'ctx', ast.Load()), ast.Load):
                for k in (0, len(n.elts) - 1):
                    es = [self.src(e) for (m, e) in enumerate(n.elts) if m != k]
                    s = ', '.join(es)
                    self.put(n, '{%s}' % s if isinstance(n, ast.Set) else '[%s]' % s if isinstance(n, ast.List) else '(%s,)' % s, 'element')
            elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Return, ast.Continue, ast.Break)):
                s = self.src(n)
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                    continue
                if isinstance(n, ast.Return) and n.value is None:
                    continue
                self.put(n, 'pass', 'delete')
            elif isinstance(n, ast.Raise):
                self.put(n, 'pass', 'delete')
            elif isinstance(n, ast.Slice):
                pass
            elif isinstance(n, ast.keyword) and n.arg and isinstance(n.value, ast.Name):
                pass
        return self.out


def apply(text, m):
    return text[:m['a']] + m['new'] + text[m['b']:]


def workers(n):
    q = Queue()
    for k in range(n):
        d = '/tmp/mut/w%d' % k
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
        v = d + '/verif'
        os.mkdir(v)
        for x in ('spec', 'harness', 'known_findings.txt'):
            subprocess.check_call(['cp', '-a', os.path.join(HERE, x), v])
        q.put(d)
    return q


def sh(cmd, cwd, env, timeout):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/tmp/mut/none', **env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        (o, _) = p.communicate(timeout=timeout)
        return (p.returncode, o.decode('utf-8', 'replace'))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return (-9, 'timeout')


def with_mutant(q, m, f):
    d = q.get()
    p = d + '/repo/' + SRC + m['file']
    text = open(p).read()
    try:
        open(p, 'w').write(apply(text, m))
        return f(d)
    finally:
        open(p, 'w').write(text)
        q.put(d)


def list_(out, only=None):
    q = workers(8)
    ms = []
    for f in FILES:
        p = '/repo/' + SRC + f
        if not os.path.exists(p) or (only and f not in only):
            continue
        text = open(p).read()
        for m in Mutants(text).run():
            m['file'] = f
            try:
                compile(apply(text, m), f, 'exec')
            except SyntaxError:
                continue
            ms.append(m)
    print(len(ms), 'mutants')

    def one(m):
        def go(d):
            (rc, o) = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], d + '/repo',
                         {'PYTHONPATH': d + '/repo/src', 'PYTHONHASHSEED': '0'}, 60)
            return rc == 0
        return with_mutant(q, m, go)
    keep = []
    for (m, ok) in zip(ms, ThreadPool(8).imap(one, ms)):
        if ok:
            keep.append(m)
    json.dump(keep, open(out, 'w'), indent=0)
    print(len(keep), 'pass the tests')


def run(inp, out, n, seed, w=3):
    ms = json.load(open(inp))
    random.Random(seed).shuffle(ms)
    ms = ms[:n]
    q = workers(w)
    os.makedirs(out, exist_ok=True)

    def one(m):
        def go(d):
            first = ORDER.get(m['file'], 'C02 C22 C05').split()
            rest = [c for c in ALL if c not in first]
            for c in (first + rest if os.environ.get('ALLCHECKS') else first):
                (rc, o) = sh([PY, 'harness/run.py', c, '--tier', 'quick'], d + '/verif',
                             {'VERIF_REPO': d + '/repo', 'PYTHONPATH': d + '/repo/src', 'VERIF_SEED': '1'}, 400)
                if rc == 1 and 'VIOLATION property=' + c in o:
                    return (c, '\n'.join(o.splitlines()[:6])[:1500])
                if rc != 0:
                    return ('%s rc %s' % (c, rc), o[-1500:])
            return (None, '')
        try:
            return with_mutant(q, m, go)
        except Exception as e:
            return ('error', str(e))
    with open(os.path.join(out, 'log'), 'a') as log:
        for (m, (c, o)) in ThreadPool(w).imap_unordered(lambda m: (m, one(m)), ms):
            log.write('%s\t%s:%d\t%s\t%r -> %r\n' % (c, m['file'], m['line'], m['why'], m['old'][:100], m['new'][:100]))
            if c is None or 'rc' in c:
                log.write('    ' + o.replace('\n', '\n    ')[-600:] + '\n')
            log.flush()


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        list_(sys.argv[2], sys.argv[3:])
    else:
        run(sys.argv[2], sys.argv[3], int(sys.argv[4]), sys.argv[5], int(sys.argv[6]) if len(sys.argv) > 6 else 3)
