"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py).

A property is claimed (gets a check) when harness_map.MODULES lists it; otherwise it goes to not_applicable with the
reason given here."""
import json
import os
import sys

D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, D)
from harness_map import MODULES  # noqa: E402

P = []
NOTE = {}
NA = {}


def p(id, title, statement, over, text, why, files, mech, observe, note, na=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe}})
    NOTE[id] = note
    NA[id] = na


exec(open(os.path.join(D, 'tools', 'props_data.py')).read())

TECH = 'symbolic execution of the real Python code, obligations decided by z3'

if __name__ == '__main__':
    ids = [x['id'] for x in P]
    assert len(set(ids)) == len(ids)
    P.sort(key=lambda x: x['id'])
    with open(os.path.join(D, 'properties.jsonl'), 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            assert x['statement'].count('. ') <= 2, x['id']
            f.write(json.dumps(x) + '\n')
    man = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
    for x in P:
        i = x['id']
        if i in MODULES:
            man['checks'].append({
                'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                'technique': TECH, 'level': 'model_checking',
                'level_note': NOTE[i]})
        else:
            man['not_applicable'].append({'property': i, 'reason': NA[i] or 'no check built yet'})
    with open(os.path.join(D, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(P), 'properties,', len(man['checks']), 'checks')
