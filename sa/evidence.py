"""Writes /verif/evidence/<id>.json from what a run really did."""
import json
import os


def write(verif, a, chk, results, new, undecided, bounded, verdict, secs):
    funcs = sorted(set().union(*[set(r.get('functions', ())) for r in results]) if results else ())
    taints = sorted(set().union(*[set(r.get('taints', ())) for r in results]) if results else ())
    obl = sum(r.get('obligations', 0) for r in results)
    sites = sorted(set().union(*[set(r.get('sites', ())) for r in results]) if results else ())
    cov = {
        'explanation': chk['rule'] + ' The source files below were parsed from %s in this run and '
        'interpreted abstractly; no code of the repository was executed.' % a.repo,
        'obligations': obl,
        'discharged': obl if verdict == 0 else max(0, obl - len(new) - len(undecided)),
        'abstract_paths': sum(r.get('paths', 0) for r in results),
        'loop_head_states': sum(r.get('stats', {}).get('stored', 0) for r in results),
        'paths_ended_by_inclusion': sum(r.get('stats', {}).get('covered', 0) for r in results),
        'widenings': sum(r.get('stats', {}).get('widened', 0) for r in results),
        'proof_functions': ['%s.%s: %s paths, %s obligations, %s s' % (
            r.get('scenario'), r.get('function'), r.get('paths'), r.get('obligations'),
            r.get('seconds')) for r in results],
        'obligation_texts': sites,
        'functions_analysed': funcs,
        'sites_analysed': sorted(set().union(*[set(r.get('analysed', ())) for r in results])
                                 if results else ())[:400],
        'verdict': {0: 'holds', 1: 'violated', 2: 'no answer'}[verdict],
        'violations': ['%s at %s' % (f['message'], f['where']) for f in new][:20],
        'undecided': [u[:500] for u in undecided][:20],
        'decided_only_for_bounded_loops': [u[:500] for u in bounded][:40],
        'trusted_base': ['/verif/sa (abstract interpreter, linear-inequality domain)',
                         '/verif/sa/stubs (models of the standard library)'],
        'exhaustive': False,
    }
    ev = {
        'property': a.prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
        'assumptions': list(chk.get('assumptions', ())) + ['not modelled, assumed without effect '
                                                          'on the property: ' + t for t in taints],
        'wall_s': round(secs, 2), 'violations': len(new),
    }
    os.makedirs(os.path.join(verif, 'evidence'), exist_ok=True)
    with open(os.path.join(verif, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
