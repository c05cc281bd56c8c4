#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, level_note=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    P.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
               'why_tests_cant': why, 'anchors': a}, technique, level_note))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech)
    NA.append({'property': id, 'reason': reason})


exec(open(os.path.join(V, 'tools', 'table.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p, _, _ in sorted(P, key=lambda x: x[0]['id']):
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
checks = []
for p, t, n in sorted(P, key=lambda x: x[0]['id']):
    if t is None:
        continue
    i = p['id']
    checks.append({'property': i, 'quick_cmd': './check %s --tier quick' % i, 'thorough_cmd': './check %s --tier thorough' % i,
                   'technique': t, 'level': 'other', 'level_note': n})
json.dump({'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': checks, 'not_applicable': NA},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(NA), 'not applicable')
