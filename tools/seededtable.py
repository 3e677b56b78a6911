#!/usr/bin/env python3
"""development: rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json and a list of misses (arguments)"""
import json
import os
import sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
miss = set(sys.argv[1:])
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
head = s.split('## Planted changes')[0].replace('SEEDED_TABLE\n', '').rstrip() + '\n\n'
rows = []
for d in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', d, 'meta.json')))
    rows.append((m['property'], d, m['what_it_breaks'].replace('|', '/'), 'missed' if d in miss else m['property']))
rows.sort()
t = '## Planted changes\n\n%d changes kept under `seeded/`; each builds, passes the existing tests and breaks one property.\nThe last column names the quick check that reports it (VERIF_SEED=1).\n\n| property | change | what it breaks | caught by |\n|---|---|---|---|\n' % len(rows)
t += ''.join('| %s | %s | %s | %s |\n' % r for r in rows)
open(p, 'w').write(head + t)
