"""Writes MANIFEST.json from the registry of checks (sa/checks.py)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.checks import CHECKS

NA = {
    'C34': 'How long a stop takes is a quantity of real time: it depends on the sleep interval and '
           'on how long the user\'s read blocks, which no argument on the source can bound.',
    'C35': 'Starvation freedom depends on the fairness of the operating system\'s scheduler and '
           'lock hand-over and on arrival rates; no static argument about this code settles it.',
    'C36': 'Asymptotic cost is that of the interpreter\'s containers (deque indexing is linear in '
           'the middle); a cost bound is not something these analyses express.',
    'C37': 'Values of string and number formatting helpers over all inputs: they rest on the '
           'library\'s string operations, whose values the abstract domain does not represent.',
}
props = {}
for l in open(os.path.join(HERE, 'properties.jsonl')):
    d = json.loads(l)
    props[d['id']] = d
checks = []
for pid in sorted(props):
    if pid in CHECKS:
        c = CHECKS[pid]
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 -m sa.run %s --tier quick' % pid,
            'thorough_cmd': 'python3 -m sa.run %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': c.get('technique', 'abstract interpretation of the source '
                               '(path-sensitive, linear-inequality and typestate domains, '
                               'loop invariants by widening)'),
            'level': 'other',
            'level_note': c.get('level_note') or (
                'Static analysis of the current source: sound for the modelled language subset '
                'under the stated assumptions (%s); the standard library is represented by models '
                'in sa/stubs, the user callables by arbitrary results and errors.' % (
                    ' '.join(c['assumptions']) or 'none beyond the models')),
        })
na = [{'property': p, 'reason': NA.get(p, 'no check yet')} for p in sorted(props) if p not in CHECKS]
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
