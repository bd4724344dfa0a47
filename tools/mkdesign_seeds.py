#!/usr/bin/env python3
"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
i = s.index('| seeded id |')
rows = ['| seeded id | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), m.get('caught', m['property'])))
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n')
