#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in glob.glob(root + '/seeded/*/'):
    m = json.load(open(d + 'meta.json'))
    rows.append((m['property'], os.path.basename(d[:-1]), m['needs']))
rows.sort()
t = "<!-- table: tools/catchtable.py -->\n| bug | check | needs |\n|---|---|---|\n"
t += ''.join(f"| {b} | {p} | {n} |\n" for p, b, n in rows) + "<!-- end -->"
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- table.*?<!-- end -->', lambda m: t, s, flags=re.S)
s = re.sub(r'\nall \d+\. Several', f'\nall {len(rows)}. Several', s)
open(p, 'w').write(s)
