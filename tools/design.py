"""Writes the generated part of DESIGN.md: per property its harnesses, what they assert and their bounds, and the last measured cost.
python3 tools/design.py"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, '/repo']
from harness_map import MODULES
from harness.api import REG
for m in sorted({m for v in MODULES.values() for m in v}):
    importlib.import_module('harness.' + m)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
cost = json.load(open(os.path.join(V, 'tools', 'cost.json')))
out = []
for p in props:
    i = p['id']
    c = cost.get(i)
    out.append('\n### %s %s\n' % (i, p['title']))
    if c:
        out.append('Quick tier, last measured: %d tasks, %d paths, %d obligations, %d solver queries, %.0f s of solver time, %.0f s in all.\n' % tuple(c))
    hs = {}
    for h in REG:
        if h.prop == i:
            hs.setdefault(h.name, []).append(h)
    for n, l in hs.items():
        h = l[0]
        deep = sum(len(x.cases) for x in l if x.tier == 'thorough')
        doc = ' '.join((h.fn.__doc__ or '').split())
        out.append('* `%s`%s — %d cases%s. Bounds: %s' % (n, ': ' + doc if doc else '', sum(len(x.cases) for x in l if x.tier != 'thorough'),
                                                              ' (+%d thorough)' % deep if deep else '', h.bounds or 'see the property'))
d = open(os.path.join(V, 'DESIGN.md')).read()
a, b = '<!-- generated by tools/design.py -->', '<!-- end of generated part -->'
head, rest = d.split(a)
tail = rest.split(b)[1]
open(os.path.join(V, 'DESIGN.md'), 'w').write(head + a + '\n' + '\n'.join(out) + '\n' + b + tail)
