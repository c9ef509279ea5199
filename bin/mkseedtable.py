#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md (below its marker) from seeded/*/meta.json and bin/seedlib/detected.json.
import json, glob, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
det = json.load(open(R + '/bin/seedlib/detected.json'))
rows = []
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m, i = json.load(open(f)), os.path.basename(os.path.dirname(f))
    rows.append(f"| {i} | {m['needs'].strip().rstrip('.')} | {det.get(i, m['property'])} |")
M = '<!-- seeds: written by bin/mkseedtable.py -->'
d = open(R + '/DESIGN.md').read().split(M)[0]
open(R + '/DESIGN.md', 'w').write(d + M + '\n\n| Planted bug | What it needs to show | Caught by |\n|---|---|---|\n' + '\n'.join(rows) + '\n')
