#!/usr/bin/env python3
"""Adds rows for new planted bugs to the table of DESIGN.md."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + '/DESIGN.md'
s = open(p).read()
a, rest = s.split('<!-- table -->\n', 1)
old, b = rest.split('<!-- end -->', 1)
rows = [l for l in old.splitlines() if l.strip()]
have = {l.split('|')[1].strip() for l in rows}
for d in glob.glob(V + '/seeded/*/'):
    i = os.path.basename(d[:-1])
    m = json.load(open(d + 'meta.json'))
    if i not in have:
        rows.append('| %s | %s | %s |' % (i, m['needs'], m['property']))
rows = rows[:2] + sorted(rows[2:])
open(p, 'w').write(a + '<!-- table -->\n' + '\n'.join(rows) + '\n\n<!-- end -->' + b)
