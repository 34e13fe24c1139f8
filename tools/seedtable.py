#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | needs | breaks | caught by |', '|----|----|----|----|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['needs'], m['what_it_breaks'], m['property']))
p = V + '/DESIGN.md'; s = open(p).read(); t = '\n'.join(rows)
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub(r'\| bug \| needs.*?\n\n', lambda _: t + '\n\n', s, flags=re.S)
open(p, 'w').write(s)
