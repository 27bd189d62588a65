#!/usr/bin/env python3
"""Fills the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json
and tools/caught.json (id -> checks seen to catch it)."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
t = open(V + '/DESIGN.md').read()
mark = '<!-- planted bugs, by tools/gen_design.py -->\n'
t = t[:t.index(mark) + len(mark)]
t += '| bug | what it breaks | what it needs | caught by |\n|---|---|---|---|\n'
n = 0
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = f.split('/')[-2]
    m = json.load(open(f))
    c = caught.get(i, [m['property']])
    n += 1
    t += '| %s | %s | %s | %s |\n' % (i, m['what_it_breaks'].replace('|', '\\|'), m['needs'].replace('|', '\\|'), ', '.join(c) if c else 'none')
t += '\n%d planted bugs.\n' % n
open(V + '/DESIGN.md', 'w').write(t)
