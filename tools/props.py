#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: `python3 tools/props.py` rewrites both."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, state=None):
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append((d, technique, note))


def na(id, reason):
    NA.append({'property': id, 'reason': reason})


exec(open(os.path.join(V, 'tools/props_list.py')).read())

with open(V + '/properties.jsonl', 'w') as f:
    for d, _, _ in P:
        f.write(json.dumps(d) + '\n')
naids = {n['property'] for n in NA}
checks = []
for d, tech, note in P:
    if d['id'] in naids:
        continue
    assert tech and note, d['id']
    assert os.path.exists('%s/checks/%s.py' % (V, d['id'].lower())), d['id']
    checks.append({'property': d['id'], 'quick_cmd': 'python3 checks/run.py %s' % d['id'],
                   'thorough_cmd': 'python3 checks/run.py %s --tier=thorough' % d['id'],
                   'technique': tech, 'level': 'other', 'level_note': note})
json.dump({'version': 1, 'setup_cmd': 'python3 checks/setup.py', 'checks': checks, 'not_applicable': NA,
           'notes': 'Static analysis of LLVM IR and generated C++ obtained from the current tree; see DESIGN.md.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties,', len(checks), 'checks,', len(NA), 'not applicable')
