#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'tools'))
import checks
props = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': [], 'not_applicable': []}
T = ('TLA+ specification checked with TLC; behaviours generated by TLC from the specification are replayed into the implementation '
     'and compared with what the specification says')
for p in props:
    if p in checks.CHECKS:
        c = checks.CHECKS[p]
        m['checks'].append({'property': p, 'quick_cmd': 'python3 run.py %s --tier quick' % p, 'thorough_cmd': 'python3 run.py %s --tier thorough' % p,
                            'evidence_file': 'evidence/%s.json' % p, 'technique': c.get('technique', T), 'level': 'model_checking',
                            'level_note': c.get('note', 'bounded: the specification is explored within the constants listed in the evidence, and the implementation on the generated behaviours')})
    else:
        m['not_applicable'].append({'property': p, 'reason': 'no check yet'})
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
