#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (no check reads it)."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows.append(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
s = open(V + '/DESIGN.md').read()
a, b = '<!-- bugs -->\n', '<!-- /bugs -->'
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + '| bug | caught by | needs | breaks |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n' + s[j:]
open(V + '/DESIGN.md', 'w').write(s)
