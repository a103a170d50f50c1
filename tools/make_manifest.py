#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
claimed = set()
d = os.path.join(V, 'symx', 'props')
for f in os.listdir(d):
    if f.endswith('.py'):
        claimed |= set(re.findall(r"Check\('(C\d\d)'", open(os.path.join(d, f)).read()))
NOTE = ('Bounded: all values of the symbolic inputs (condition outcomes, graphs, counts, histories) within the bounds '
        'printed in the evidence are decided by z3 over the real code, executed symbolically from /repo/src. Trusts z3, '
        'CPython, the stand-ins for built-in set/int/float/numpy where injected, and the reference semantics in symx/. '
        'Larger graphs and longer histories are outside.')
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': [
        {'property': p['id'], 'quick_cmd': f'./check {p["id"]} quick', 'thorough_cmd': f'./check {p["id"]} thorough',
         'evidence_file': f'evidence/{p["id"]}.json',
         'technique': 'bounded symbolic execution of the real code, assertions decided by an SMT solver (z3)',
         'level': 'model_checking', 'level_note': NOTE}
        for p in props if p['id'] in claimed],
    'not_applicable': [{'property': p['id'], 'reason': 'no check yet'} for p in props if p['id'] not in claimed],
    'notes': 'No hooks in /repo: the checks import /repo/src directly. See DESIGN.md.',
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not')
