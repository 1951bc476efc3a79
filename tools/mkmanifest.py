"""Writes MANIFEST.json from the harness modules present and tools/status.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, 'tools', 'levels.json')))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'harness', i.lower() + '.py')):
        checks.append({
            'property': i,
            'quick_cmd': 'python3-vt check.py %s --tier quick' % i,
            'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
            'technique': 'symbolic execution of the real Python source, assertions decided by z3, counterexamples replayed on the real code',
            'level': 'model_checking',
            'level_note': NOTES.get(i, 'Bounded: holds for every value of the symbolic inputs within the bounds in the evidence file; '
                                       'numbers are exact reals, so binary rounding is outside the claim.'),
        })
    else:
        na.append({'property': i, 'reason': NOTES.get('na:' + i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks rewrite the current source in memory (symx/loader.py). '
              'setup needs nothing; python3-vt (z3) and /opt/venv/bin/python are used as installed.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
