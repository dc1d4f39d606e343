"""Behaviour-preserving edits: every check has to stay quiet on them.

specs (refactorings/*.py) call refac(id, file, {'Class.method' or 'function': new source, ...},
more=[(old, new), ...])
  python3 tools/refac.py test [ID..]          build + tests in scratch copies
  python3 tools/refac.py run [-p C01,C02] [ID..]   the checks on scratch copies
"""
import ast, glob, json, os, shutil, subprocess, sys, tempfile, textwrap, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from mkseed import inside, sh
R = '/repo'
SPECS = {}


def replace(src, path, new):
    tree = ast.parse(src)
    node, body = None, tree.body
    for part in path.split('.'):
        prop = None
        if part.endswith('@setter'):
            part, prop = part[:-7], 'setter'
        cands = [n for n in body if getattr(n, 'name', None) == part]
        assert cands, path
        node = cands[-1]
        body = node.body
    lines = src.split('\n')
    first = min([node.lineno] + [d.lineno for d in node.decorator_list])
    new = textwrap.indent(textwrap.dedent(new).strip('\n'), ' ' * node.col_offset)
    return '\n'.join(lines[:first - 1] + [new] + lines[node.end_lineno:])


def refac(id, file, defs=None, more=()):
    src = open(os.path.join(R, file)).read()
    for path, new in (defs or {}).items():
        src = replace(src, path, new)
    for old, new in more:
        assert src.count(old) == 1, (id, src.count(old), old)
        src = src.replace(old, new)
    compile(src, file, 'exec')
    SPECS.setdefault(id, {})[file] = src


def load():
    for f in sorted(glob.glob(V + '/refactorings/*.py')):
        exec(compile(open(f).read(), f, 'exec'), {'refac': refac})


def copy(id, d):
    sh('cp -a /repo/. %s/repo' % d)
    for f, src in SPECS[id].items():
        open(os.path.join(d, 'repo', f), 'w').write(src)


def test(id):
    d = tempfile.mkdtemp(prefix='refac.', dir='/tmp')
    try:
        copy(id, d)
        inside(d, 'bash /opt/vp/build.sh')
        inside(d, 'bash /opt/vp/test.sh %s/o.json' % d)
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        o = json.load(open(d + '/o.json'))
        bad = [x for x in base if x not in o['passed']]
        return id + (' TESTS FAIL %s' % bad[:4] if bad else ' ok')
    finally:
        shutil.rmtree(d)


def run(id, props):
    d = tempfile.mkdtemp(prefix='refac.', dir='/tmp')
    try:
        copy(id, d)
        sh('mkdir %s/v && cp -a %s/sa %s/v/ ; cp -a %s/known_findings.txt %s/v/' % (d, V, d, V, d))

        def one(p):
            t = time.time()
            c = sh('cd %s/v && timeout 900 python3 -m sa.run %s --repo %s/repo' % (d, p, d))
            return p, c, time.time() - t
        bad = []
        with ThreadPoolExecutor(4) as ex:
            for p, c, t in ex.map(one, props):
                if c.returncode or t > 200:
                    out = [l.strip() for l in c.stdout.splitlines()[:4]] or [c.stderr[-300:]]
                    bad.append('  %s rc=%d %.0fs %s' % (p, c.returncode, t, ' / '.join(out)[:600]))
        print(id, 'quiet' if not bad else 'ALARMS', flush=True)
        for b in bad:
            print(b, flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    load()
    args = sys.argv[2:]
    props = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
    if args[:1] == ['-p']:
        props, args = args[1].split(','), args[2:]
    ids = args or sorted(SPECS)
    if sys.argv[1] == 'test':
        with ThreadPoolExecutor(12) as ex:
            for r in ex.map(test, ids):
                print(r, flush=True)
    else:
        for i in ids:
            run(i, props)
