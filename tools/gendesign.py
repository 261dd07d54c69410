#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/ (kept between markers)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | needs |', '|---|---|---|']
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append(f"| {d}: {m['what_it_breaks']} | {m['property']} quick | {m['needs']} |")
t = open(root + '/DESIGN.md').read()
block = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
if '@@SEEDS@@' in t:
    t = t.replace('@@SEEDS@@', block)
else:
    t = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: block, t, flags=re.S)
open(root + '/DESIGN.md', 'w').write(t)
