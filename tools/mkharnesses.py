#!/usr/bin/env python3
"""Writes HARNESSES.md, the list of all harnesses with what they vary and their bounds (needs a build: run/build.py)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = subprocess.run([os.path.join(V, 'build/t_sym/release/harness_sym'), 'list'], stdout=subprocess.PIPE, text=True, check=True).stdout
hs = [l.split('\t') for l in out.splitlines()]
with open(os.path.join(V, 'HARNESSES.md'), 'w') as f:
    f.write('# Harnesses (generated by tools/mkharnesses.py)\n')
    for l in open(os.path.join(V, 'properties.jsonl')):
        p = json.loads(l)
        f.write('\n## %s %s\n' % (p['id'], p['title']))
        for prop, name, tier, about, bounds in hs:
            if prop == p['id']: f.write('* `%s`%s: %s. Bounds: %s.\n' % (name, ' (thorough)' if tier == 'thorough' else '', about, bounds))
print(len(hs), 'harnesses')
