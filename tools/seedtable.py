#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (development only)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{s}/meta.json'))
    rows.append((m['property'], s, m['needs']))
rows.sort()
t = '| property | bug | what it needs |\n|---|---|---|\n' + ''.join('| %s | `%s` | %s |\n' % r for r in rows)
p = V + '/DESIGN.md'
d = open(p).read()
i = d.index('| property | bug | what it needs |')
m = re.match(r'(\|[^\n]*\n)+', d[i:])
d = d[:i] + t + d[i + m.end():]
open(p, 'w').write(d)
