#!/usr/bin/env python3
"""Rewrites the table of seeded bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, 'DESIGN.md')
mark = '## Seeded bugs (seeded/)'
head, _, rest = open(p).read().partition(mark)
intro = rest.split('\n\n')[1]
rows = ['| bug | caught by | needs | breaks |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (f.split('/')[-2], m['property'], m['needs'], m['what_it_breaks']))
title = rest.split('\n')[0]
open(p, 'w').write(head + mark + title + '\n\n' + intro + '\n\n' + '\n'.join(rows) + '\n')
