#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
S = '/verif/seeded/'
rows = []
for i in sorted(os.listdir(S)):
    m = json.load(open(S + i + '/meta.json'))
    rows.append((m['property'], i, m['needs'].replace('|', '/').replace('\n', ' ')))
rows.sort()
t = open('/verif/DESIGN.md').read().split('<!-- matrix -->')[0]
t += '<!-- matrix -->\n| check | planted bug | needs |\n|---|---|---|\n' + ''.join(f'| {p} | {i} | {n} |\n' for p, i, n in rows)
open('/verif/DESIGN.md', 'w').write(t)
print(len(rows))
