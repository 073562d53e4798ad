#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    c = lambda s: ' '.join(s.split()).replace('|', '\\|')
    rows.append((m['property'], os.path.basename(os.path.dirname(d)), c(m['what_it_breaks']), c(m['needs']), m.get('caught_by', m['property'])))
rows.sort()
t = '| property | bug | what it breaks | needs | caught by |\n|---|---|---|---|---|\n' + ''.join('| %s | %s | %s | %s | %s |\n' % r for r in rows)
p = V + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- bugs -->\n', '<!-- /bugs -->\n'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + t + s[j:])
