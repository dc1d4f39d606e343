"""Entry point of the checks:  python3 -m sa.run C07 [--tier quick|thorough] [--repo /repo]

exit 0: every obligation of the property is proved for the current source
exit 1: a violation was found (line VIOLATION property=<id> replay=<report>)
exit 2: no answer (the analysis could not follow the code)"""
import argparse
import ast
import json
import multiprocessing
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def scenario_file(name):
    return os.path.join(HERE, 'scen', name + '.py')


def scenario_jobs(name, tier):
    """proof functions of a scenario file, in order"""
    with open(scenario_file(name), encoding='utf-8') as f:
        tree = ast.parse(f.read())
    out = []
    for n in tree.body:
        if isinstance(n, ast.FunctionDef) and (
                n.name.startswith('prove_') or tier == 'thorough' and n.name.startswith('deep_')):
            out.append(n.name)
    return out, tree


def wanted_sites(tree, fname):
    """the obligations a proof function states itself (and through the helpers of its module)"""
    funcs = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}
    out, todo, seen = set(), [fname], set()
    while todo:
        f = todo.pop()
        if f in seen or f not in funcs:
            continue
        seen.add(f)
        for n in ast.walk(funcs[f]):
            if isinstance(n, ast.Call):
                g = n.func
                if isinstance(g, ast.Attribute) and isinstance(g.value, ast.Name) and \
                        g.value.id == 'sa' and g.attr in ('check', 'reach'):
                    a = n.args[-1]
                    if isinstance(a, ast.Constant) and isinstance(a.value, str):
                        out.add(a.value)
            if isinstance(n, ast.Name):
                todo.append(n.id)
    return out


def run_job(job):
    """one proof function: with loop invariants (for any number of rounds); where that leaves
    something open, with every loop unrolled a few rounds, which loses nothing to widening"""
    t0 = time.time()
    out = analyse(job)
    if out.get('error') or any(not f['widened'] for f in out['failures']):
        return out
    if not (out['failures'] or out['tainted'] or out['undecided']):
        return out
    out['open'] = ['%s (at %s)' % (f['message'], f['where']) for f in out['failures']] + [
        '%s (at %s): %s' % (f['message'], f['where'], '; '.join(f['taints']))
        for f in out['tainted']] + ['%s (at %s)' % u[:2] for u in out['undecided']]
    left = 720 - (time.time() - t0)
    for n in (1, 2, 3):
        b = analyse(job[:3] + (max(10, min(left, 150)),), n)
        left -= b['seconds']
        done = not b.get('error') and not b['undecided'] and not b['tainted']
        if b.get('error') or b['failures'] or not done:
            break
        out['unrolled'] = n
        if not b['stats']['bounded']:
            out.pop('open')  # nothing was cut: this is every path
            break
    if not b.get('error') and b['failures']:
        for k in ('failures', 'tainted', 'undecided'):
            out[k] = b[k]
    elif 'unrolled' in out:
        out['widened_failures'], out['failures'] = out['failures'], []
        out['tainted'], out['undecided'] = [], []
    elif b.get('error'):
        out['error'] = b['error']
    elif not out['failures']:
        out['tainted'], out['undecided'] = b['tainted'], b['undecided']
    out['sites'] = sorted(set(out['sites']) | set(b.get('sites', ())))
    out['seconds'] = round(time.time() - t0, 2)
    return out


def analyse(job, unroll=None):
    scen, fname, repo, max_time = job
    t0 = time.time()
    sys.setrecursionlimit(12000)
    out = {'scenario': scen, 'function': fname}
    try:
        from .program import Program, AnalysisError
        from .explore import Explorer
        from . import monitors
        from .interp import PyRaise
        prog = Program(repo)
        prog.explorer = Explorer(prog)
        prog.explorer.unroll = unroll
        prog.note_func = prog.seen
        try:
            m = prog.load('scen.' + scen)
            mons = m.vars.get('MONITORS', ())
            for n in mons:
                monitors.install(prog, n)
            prog.funcs_seen.clear()

            def body(I):
                f = m.vars[fname]
                I.call(f)
            r = prog.explorer.explore(body, max_paths=400000, max_time=max_time)
        except AnalysisError as e:
            out['error'] = str(e)
            return out
        out.update(
            paths=r.paths, obligations=r.obligations, events=r.events,
            failures=list(r.failures.values()), tainted=list(r.tainted.values()),
            undecided=r.undecided[:10], taints=sorted(r.taints)[:20], sites=sorted(prog.sites),
            stats=dict(prog.explorer.stats),
            functions=sorted({'%s:%s %s' % (os.path.relpath(f.module.path, repo), f.node.lineno,
                                            f.name) for f in prog.funcs_seen
                              if f.module.path and f.module.path.startswith(prog.repo)}))
    except Exception:
        out['error'] = traceback.format_exc()
    finally:
        out['seconds'] = round(time.time() - t0, 2)
    return out


def pool_map(jobs):
    n = min(len(jobs), os.cpu_count() or 1)
    if n <= 1:
        return [run_job(j) for j in jobs]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(n, maxtasksperchild=1) as p:
        return p.map(run_job, jobs, chunksize=1)


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p, encoding='utf-8'):
            l = l.strip()
            if l.startswith('known: property='):
                f = l[len('known: property='):].split(None, 1)
                out.append((f[0], f[1]))
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    from .checks import CHECKS
    chk = CHECKS[a.prop]
    t0 = time.time()
    results = []
    if chk.get('scenarios'):
        jobs, want = [], {}
        for s in chk['scenarios']:
            fs, tree = scenario_jobs(s, a.tier)
            for f in fs:
                if a.only and a.only not in f:
                    continue
                jobs.append((s, f, a.repo, chk.get('max_time', 400)))
                want[(s, f)] = wanted_sites(tree, f)
        results = pool_map(jobs)
        reached = set().union(*[set(r.get('sites', ())) for r in results]) if results else set()
        for r in results:
            r['missing'] = sorted(want[(r['scenario'], r['function'])] - reached)
            if not r.get('obligations') and not r.get('error'):
                r['missing'].append('(any obligation at all)')
    extra = None
    if chk.get('run'):
        extra = chk['run'](a.repo, a.tier)
        results += extra if isinstance(extra, list) else [extra]
    return report(a, chk, results, time.time() - t0)


def report(a, chk, results, secs):
    prop = a.prop
    failures, undecided, bounded = [], [], []
    for r in results:
        lab = '%s.%s' % (r.get('scenario'), r.get('function'))
        for o in r.get('open', ()) if 'unrolled' in r else ():
            bounded.append('%s, only with at most %d rounds of each loop: %s' % (
                lab, r['unrolled'], o))
        bounded += r.get('bounded', ())
        for f in r.get('failures', ()):
            failures.append(dict(f, scenario=lab))
        if r.get('error'):
            undecided.append('%s: %s' % (lab, r['error']))
        for u in r.get('undecided', ()):
            undecided.append('%s: %s (at %s)' % (lab, u[0], u[1]))
        for f in r.get('tainted', ()):
            undecided.append('%s: cannot decide "%s" at %s: %s' % (
                lab, f['message'], f['where'], '; '.join(f['taints'])))
        if not r.get('failures') and not r.get('error') and not r.get('undecided'):
            for s in r.get('missing', ()):
                undecided.append('%s: the obligation "%s" was never reached' % (lab, s))
    known = [(p, k) for p, k in known_findings() if p == prop]
    shown, new = [], []
    for f in failures:
        key = '%s @ %s' % (f['message'], f['where'])
        if any(k in key for _, k in known):
            shown.append(key)
        else:
            new.append(f)
    os.makedirs(os.path.join(VERIF, 'evidence', 'reports'), exist_ok=True)
    rep = os.path.join(VERIF, 'evidence', 'reports', prop + '.json')
    with open(rep, 'w') as f:
        json.dump({'property': prop, 'violations': new, 'undecided': undecided,
                   'results': results}, f, indent=1, default=str)
    from .evidence import write
    verdict = 1 if new else 2 if undecided else 0
    write(VERIF, a, chk, results, new, undecided, bounded, verdict, secs)
    for k in shown:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    obl = sum(r.get('obligations', 0) for r in results)
    print('%s: %d proof functions, %d abstract paths, %d obligations, %d functions analysed, %.1f s'
          % (prop, len(results), sum(r.get('paths', 0) for r in results), obl,
             len(set().union(*[set(r.get('functions', ())) for r in results]) if results else ()),
             secs))
    if a.v:
        for r in results:
            print('  %s.%s: %s paths, %s obligations, %s s %s' % (
                r.get('scenario'), r.get('function'), r.get('paths'), r.get('obligations'),
                r.get('seconds'), r.get('taints') or ''))
    for f in new[:12]:
        print('  %s: %s' % (f['scenario'], f['message']))
        print('     at %s' % f['where'])
        for b in f.get('backtrace', ())[-6:]:
            print('        %s' % b)
        for x in f.get('path', ())[-14:]:
            print('        | %s' % x)
    for u in bounded[:12]:
        print('  %s' % u[:400])
    for u in undecided[:12]:
        print('  no answer: %s' % (u if len(u) < 3000 else u[-3000:]))
    if new:
        print('VIOLATION property=%s replay=%s' % (prop, rep))
    return verdict


if __name__ == '__main__':
    sys.exit(main())
