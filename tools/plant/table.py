#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = []
for d in sorted(glob.glob(V + '/seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    rows.append(f"* `{os.path.basename(d[:-1])}` ({m['property']}): {m['what_it_breaks']} *Needs* {m['needs']}.")
s = open(V + '/DESIGN.md').read()
t = "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->"
if '@@PLANTS@@' in s:
    s = s.replace('@@PLANTS@@', t)
else:
    s = re.sub(r'<!-- planted -->.*<!-- /planted -->', lambda _: t, s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
