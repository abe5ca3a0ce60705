#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has a harness, the rest under not_applicable."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
src = ''.join(open(os.path.join(V, 'engine/harness/src/props', f)).read() for f in sorted(os.listdir(os.path.join(V, 'engine/harness/src/props'))))
have = set(re.findall(r'"(C\d\d)"', src))
NOTE = ('Bounded symbolic execution of the real source over real arithmetic: within the stated scenario bounds every path is explored and each assertion decided by z3 for all inputs of its path; '
        'f32 rounding is outside, and counterexamples count only when they replay on the real crate. Bounds and what is left out: DESIGN.md and the evidence file.')
m = {'version': 1, 'setup_cmd': 'python3 run/build.py', 'checks': [], 'not_applicable': []}
for p in props:
    if p['id'] in have:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 run/check.py %s quick' % p['id'], 'thorough_cmd': 'python3 run/check.py %s thorough' % p['id'],
            'technique': 'symbolic execution of the crate source (scalar replaced by a symbolic one) with z3 deciding paths and assertions', 'level': 'model_checking', 'level_note': NOTE})
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': 'no harness for it has been built yet'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
