"""Authoring and checking of planted bugs.

spec files (python, kept outside git) call seed(id, property, file, edits, demo, needs, breaks)
  python3 tools/mkseed.py make SPEC.py     writes seeded/<id>/
  python3 tools/mkseed.py check [ID..]     builds, tests and runs the demo in scratch copies
"""
import difflib, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
SEEDS = os.path.join(V, 'seeded')


def seed(id, prop, file, edits, demo, needs, breaks):
    files = file if isinstance(file, dict) else {file: edits}
    diff = ''
    for fn, eds in files.items():
        src = open(os.path.join(R, fn)).read()
        new = src
        for old, rep in eds:
            assert new.count(old) == 1, (id, fn, new.count(old), old)
            new = new.replace(old, rep)
        compile(new, fn, 'exec')
        diff += ''.join(difflib.unified_diff(src.splitlines(True), new.splitlines(True),
                                             'a/' + fn, 'b/' + fn))
        orig = {i for i, l in enumerate(subprocess.run(
            ['git', '-C', R, 'blame', '-s', fn], capture_output=True, text=True)
            .stdout.splitlines(), 1) if l.startswith('^')}
        sm = difflib.SequenceMatcher(None, src.splitlines(), new.splitlines(), autojunk=False)
        removed = [i + 1 for t, a, b, _, _ in sm.get_opcodes() if t in ('replace', 'delete')
                   for i in range(a, b)]
        if not [i for i in removed if i in orig]:
            print('!!', id, fn, 'removes no original line')
        if [i for i in removed if i not in orig]:
            print('!!', id, fn, 'removes own lines', [i for i in removed if i not in orig])
    d = os.path.join(SEEDS, id)
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(demo.strip('\n') + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd /repo\n'
                                    'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
                                    'exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
              open(d + '/meta.json', 'w'), indent=1)
    print('wrote', id)


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def inside(d, cmd):
    """runs cmd with the scratch copy shown as /repo (private mount namespace)"""
    import shlex
    return sh('unshare -Urm bash -c %s' % shlex.quote(
        'mount --bind %s/repo /repo && cd /repo && %s' % (d, cmd)))


def check(id):
    d = tempfile.mkdtemp(prefix='seed.%s.' % id, dir='/tmp')
    try:
        r = d + '/repo'
        sh("cp -a /repo/. %s/repo" % d)
        demo = 'bash %s/%s/demo.sh' % (SEEDS, id)
        a = inside(d, demo)
        p = sh('git -C %s apply %s/%s/patch.diff' % (r, SEEDS, id))
        if p.returncode:
            return id, 'DOES NOT APPLY ' + p.stderr
        b = inside(d, 'bash /opt/vp/build.sh')
        if b.returncode:
            return id, 'BUILD ' + b.stdout[-300:]
        c = inside(d, demo)
        if a.returncode or not c.returncode:
            return id, 'DEMO clean=%d patched=%d %s %s' % (
                a.returncode, c.returncode, (a.stdout + a.stderr)[-500:], (c.stdout + c.stderr)[-300:])
        t = inside(d, 'bash /opt/vp/test.sh %s/o.json' % d)
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        o = json.load(open(d + '/o.json'))
        bad = [x for x in base if x not in o['passed']]
        if bad:
            return id, 'TESTS FAIL %s' % bad[:4]
        return id, 'ok (%s)' % ((c.stderr or c.stdout).strip().splitlines() or ['?'])[-1][:100]
    finally:
        shutil.rmtree(d)


def catch(id):
    """does the check of its property catch it?"""
    d = tempfile.mkdtemp(prefix='catch.%s.' % id, dir='/tmp')
    try:
        sh('cp -a /repo/. %s/repo' % d)
        p = sh('git -C %s/repo apply %s/%s/patch.diff' % (d, SEEDS, id))
        if p.returncode:
            return id, '-', 'DOES NOT APPLY'
        prop = json.load(open('%s/%s/meta.json' % (SEEDS, id)))['property']
        sh('mkdir %s/v && cp -a %s/sa %s/v/ ; cp -a %s/known_findings.txt %s/v/' % (d, V, d, V, d))
        c = sh('cd %s/v && python3 -m sa.run %s --repo %s/repo' % (d, prop, d))
        return id, prop, 'rc=%d %s' % (c.returncode, ' / '.join(
            l.strip() for l in c.stdout.splitlines()[1:3])[:230] or c.stderr[-300:])
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        for f in sys.argv[2:]:
            exec(compile(open(f).read(), f, 'exec'), {'seed': seed})
    elif sys.argv[1] in ('check', 'catch'):
        ids = sys.argv[2:] or sorted(os.listdir(SEEDS))
        f, n = (check, 12) if sys.argv[1] == 'check' else (catch, 2)
        with ThreadPoolExecutor(n) as ex:
            for r in ex.map(f, ids):
                print(*r, flush=True)
