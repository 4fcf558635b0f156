#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(open(H + '/tools/missed-first.txt').read().split()) if os.path.exists(H + '/tools/missed-first.txt') else set()
rows = ['| planted bug | caught by | needs |', '|---|---|---|']
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(H + '/seeded/%s/meta.json' % d))
    rows.append('| %s%s | %s | %s |' % (d, '*' if d in missed else '', m['property'], m['needs'].replace('|', '/')))
s = open(H + '/DESIGN.md').read()
i = s.index('@TABLE@') if '@TABLE@' in s else s.index('| planted bug |')
open(H + '/DESIGN.md', 'w').write(s[:i] + '\n'.join(rows) + '\n')
