#!/usr/bin/env python3
"""Fills the table of seeded changes in DESIGN.md from seeded/*/meta.json."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | what it breaks | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(root + '/tools/seeded_results.json'))
for d in sorted(glob.glob(root + '/seeded/*/')):
    i = os.path.basename(d[:-1])
    m = json.load(open(d + 'meta.json'))
    rows.append("| %s | %s | %s | %s |" % (i, m['what_it_breaks'].replace('|', '\\|'), m['needs'].replace('|', '\\|'), res.get(i, 'not run yet')))
p = root + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- seeded -->\n', '<!-- /seeded -->'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
