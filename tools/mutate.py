"""Mechanical mutants of the library against the checks.

  python3 tools/mutate.py FILE [FILE..] [--every K] [--offset I] [--max N] [--list]
A mutant that no check of its file reports is run against the test-suite; the ones that survive both
are printed (for inspection by hand: equivalent, outside the properties, or a gap)."""
import argparse
import ast
import copy
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
PROPS = {
    'stream2py/stream_buffer.py': 'C02 C01 C03 C04 C21 C20 C23 C31 C19 C10 C08',
    'stream2py/buffer_reader.py': 'C31 C13 C14 C15 C16 C12 C28 C27 C17 C18 C23 C22 C19 C11 C08 C10',
    'stream2py/source_reader.py': 'C31 C30 C29 C19 C23 C21',
    'stream2py/stream_source.py': 'C31 C22 C29 C21',
    'stream2py/simply.py': 'C31 C24 C23 C30',
    'stream2py/util.py': 'C31 C26',
    'stream2py/sources/http.py': 'C31 C25 C30',
    'stream2py/utility/sorted_collection.py': 'C31 C07 C06 C32',
    'stream2py/utility/sorted_deque.py': 'C31 C07 C05 C06 C32 C11 C28 C27',
    'stream2py/utility/locked_sorted_deque.py': 'C31 C09 C05 C08 C10',
    'stream2py/utility/reader_writer_lock.py': 'C09',
    'pack.py': 'C31 C33',
}
CMP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In]}


def sites(tree):
    """(label, function that changes a copy of the tree given the path to the node)"""
    out = []

    def visit(node, path, fn):
        for name, val in ast.iter_fields(node):
            if isinstance(val, list):
                for i, x in enumerate(val):
                    if isinstance(x, ast.AST):
                        handle(x, path + [(name, i)], fn)
            elif isinstance(val, ast.AST):
                handle(val, path + [(name, None)], fn)

    def add(path, label, fn, change):
        out.append((fn, label, path, change))

    def handle(n, path, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = (fn + '.' if fn else '') + n.name
            if 'Test' in fn or fn in ('Writer', 'Reader') or n.name.startswith('test'):
                return
        at = 'line %d' % getattr(n, 'lineno', 0)
        if fn:
            src = ast.unparse(n).split('\n')[0][:70] if isinstance(n, (ast.stmt, ast.expr)) else ''
            if isinstance(n, ast.Compare):
                for i, op in enumerate(n.ops):
                    for o in CMP.get(type(op), ()):
                        add(path, '%s compare %s -> %s' % (at, src, o.__name__), fn,
                            lambda x, i=i, o=o: (x.ops.__setitem__(i, o()), x)[1])
            if isinstance(n, ast.BoolOp):
                for i in range(len(n.values)):
                    add(path, '%s %s drops operand %d' % (at, src, i), fn,
                        lambda x, i=i: x.values[1 - i] if len(x.values) == 2 else
                        (x.values.pop(i), x)[1])
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                add(path, '%s %s loses not' % (at, src), fn, lambda x: x.operand)
            if isinstance(n, ast.Constant) and path[-1][0] != 'docstring':
                v = n.value
                alt = {True: False, False: True}.get(v) if isinstance(v, bool) else \
                    v + 1 if isinstance(v, int) else 0 if v is None else None
                if alt is not None:
                    add(path, '%s constant %r -> %r' % (at, v, alt), fn,
                        lambda x, alt=alt: ast.copy_location(ast.Constant(alt), x))
            if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise)) and not (
                    isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                add(path, '%s deletes %s' % (at, src), fn,
                    lambda x: ast.copy_location(ast.Pass(), x))
            if isinstance(n, ast.Return) and n.value is not None:
                add(path, '%s %s returns None' % (at, src), fn,
                    lambda x: ast.copy_location(ast.Return(None), x))
            if isinstance(n, ast.If):
                add(path, '%s if %s: never' % (at, ast.unparse(n.test)[:60]), fn,
                    lambda x: (setattr(x, 'test', ast.Constant(False)), x)[1])
                add(path, '%s if %s: always' % (at, ast.unparse(n.test)[:60]), fn,
                    lambda x: (setattr(x, 'test', ast.Constant(True)), x)[1])
            if isinstance(n, ast.Call):
                for i in range(len(n.keywords)):
                    if n.keywords[i].arg:
                        add(path, '%s %s loses %s=' % (at, src, n.keywords[i].arg), fn,
                            lambda x, i=i: (x.keywords.pop(i), x)[1])
                if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                    add(path, '%s %s swaps arguments' % (at, src), fn,
                        lambda x: (x.args.reverse(), x)[1])
            if isinstance(n, ast.With):
                add(path, '%s %s without the context' % (at, src), fn,
                    lambda x: ast.copy_location(ast.If(
                        ast.Constant(True), [ast.Assign([i.optional_vars], i.context_expr, lineno=1)
                                             for i in x.items if i.optional_vars] + x.body, []), x))
            if isinstance(n, ast.Try):
                if n.finalbody:
                    add(path, '%s finally only without error' % at, fn,
                        lambda x: ast.copy_location(ast.If(
                            ast.Constant(True), [ast.Try(x.body, x.handlers, x.orelse, [])]
                            if x.handlers else x.body, []), x)
                        if False else (lambda y: y)(ast.copy_location(ast.If(
                            ast.Constant(True), ([ast.Try(x.body, x.handlers, x.orelse, [])]
                                                 if x.handlers else list(x.body)) + x.finalbody,
                            []), x)))
                for i, h in enumerate(n.handlers):
                    add(path, '%s loses except %s' % (
                        at, ast.unparse(h.type) if h.type else ''), fn,
                        lambda x, i=i: (setattr(x.handlers[i], 'type',
                                                ast.Name('ZeroDivisionError', ast.Load())), x)[1])
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
                add(path, '%s %s other sign' % (at, src), fn,
                    lambda x: (setattr(x, 'op', ast.Sub() if isinstance(x.op, ast.Add)
                                       else ast.Add()), x)[1])
        visit(n, path, fn)
    visit(tree, [], '')
    return out


def apply(tree, path, change):
    t = copy.deepcopy(tree)
    p = t
    for name, i in path[:-1]:
        p = getattr(p, name) if i is None else getattr(p, name)[i]
    name, i = path[-1]
    old = getattr(p, name) if i is None else getattr(p, name)[i]
    new = change(old)
    if i is None:
        setattr(p, name, new)
    else:
        getattr(p, name)[i] = new
    return ast.unparse(ast.fix_missing_locations(t))


def inside(d, cmd):
    import shlex
    return subprocess.run('unshare -Urm bash -c %s' % shlex.quote(
        'mount --bind %s/repo /repo && cd /repo && %s' % (d, cmd)), shell=True,
        capture_output=True, text=True)


def one(job):
    fn, where, label, text, props = job
    import json
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    try:
        subprocess.run('cp -a /repo %s/repo; mkdir %s/v; cp -a %s/sa %s/known_findings.txt %s/v/' % (
            d, d, V, V, d), shell=True, check=True)
        open(os.path.join(d, 'repo', fn), 'w').write(text)
        odd = []
        for p in props:
            try:
                c = subprocess.run([sys.executable, '-m', 'sa.run', p, '--repo', d + '/repo'],
                                   cwd=d + '/v', capture_output=True, text=True, timeout=600)
                rc = c.returncode
                txt = c.stdout
            except subprocess.TimeoutExpired:
                rc, txt = 9, ''
            if rc == 1:
                return 'caught %s' % p, where, label
            if rc:
                odd.append('%s=%d' % (p, rc))
        t = inside(d, 'bash /opt/vp/build.sh >/dev/null; bash /opt/vp/test.sh %s/o.json' % d)
        try:
            base = json.load(open('/opt/vp/BASELINE.json'))['stable']
            o = json.load(open(d + '/o.json'))
            if [x for x in base if x not in o['passed']]:
                return 'tests only %s' % ' '.join(odd), where, label
        except OSError:
            return 'tests broken %s' % ' '.join(odd), where, label
        return 'SURVIVES %s' % ' '.join(odd), where, label
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('files', nargs='+')
    ap.add_argument('--every', type=int, default=1)
    ap.add_argument('--offset', type=int, default=0)
    ap.add_argument('--max', type=int, default=10000)
    ap.add_argument('--jobs', type=int, default=2)
    ap.add_argument('--func')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    jobs = []
    for fn in a.files:
        src = open(os.path.join(R, fn)).read()
        tree = ast.parse(src)
        base = ast.unparse(tree)
        seen = {base}
        mine = []
        for f, label, path, change in sites(tree):
            if a.func and a.func not in f:
                continue
            try:
                t = apply(tree, path, change)
                compile(t, fn, 'exec')
            except Exception:
                continue
            if t in seen:
                continue
            seen.add(t)
            mine.append((fn, '%s %s' % (fn, f), label, t, PROPS[fn].split()))
        jobs += mine[a.offset::a.every][:a.max]
    print(len(jobs), 'mutants', flush=True)
    if a.list:
        for j in jobs:
            print(j[1], j[2])
        return
    with ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(one, jobs):
            print(*r, sep=' | ', flush=True)


if __name__ == '__main__':
    main()
