#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from planted import BUGS
from missed import MISSED
p = os.path.dirname(HERE) + '/DESIGN.md'
t = open(p).read()
mark = '<!-- planted -->\n'
assert mark in t
rows = ['| bug | caught by | what it breaks | first missed; added |', '|-|-|-|-|']
for b in BUGS:
    rows.append('| %s | %s | %s; needs %s | %s |' % (b['id'], b['property'], b['breaks'], b['needs'], MISSED.get(b['id'].split('_')[0], '')))
open(p, 'w').write(t[:t.index(mark)] + mark + '\n'.join(rows) + '\n')
