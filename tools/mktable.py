#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    rows.append('| %s | %s | %s |' % (i, m['property'], m['needs']))
s = open(V + '/DESIGN.md').read()
a = s.index('| bug | caught by | needs |\n|---|---|---|\n') + len('| bug | caught by | needs |\n|---|---|---|\n')
b = a
while s[b] == '|':
    b = s.index('\n', b) + 1 if '\n' in s[b:] else len(s)
    if b >= len(s):
        break
open(V + '/DESIGN.md', 'w').write(s[:a] + '\n'.join(rows) + '\n' + s[b:])
