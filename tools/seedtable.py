#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for n in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % n))
    rows.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'], m['what_it_breaks']))
p = V + '/DESIGN.md'
s = open(p).read()
a = s.index('| change | property |')
b = s.index('\n\n', a)
open(p, 'w').write(s[:a] + '| change | property | needs | what it breaks |\n|---|---|---|---|\n' + '\n'.join(rows) + s[b:])
