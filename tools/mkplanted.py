#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '| planted bug | caught by | needs |\n'
s = open(os.path.join(V, 'DESIGN.md')).read().split(MARK)[0].rstrip() + '\n\n' + MARK + '|---|---|---|\n'
also = json.load(open(os.path.join(V, 'tools', 'caught.json')))
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json'))); n = os.path.basename(d)
    s += '| %s | %s | %s |\n' % (n, also.get(n, m['property']), ' '.join(m['needs'].split()).replace('|', '/'))
open(os.path.join(V, 'DESIGN.md'), 'w').write(s)
