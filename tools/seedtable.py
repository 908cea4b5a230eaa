#!/usr/bin/env python3
"""Authoring tool: writes the table of planted bugs into DESIGN.md."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | caught by | needs |', '| --- | --- | --- |']
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)),
                                      m['property'], m['needs']))
p = os.path.join(V, 'DESIGN.md')
t = open(p).read()
a, b = t.index('<!-- seeds -->'), t.index('<!-- /seeds -->')
open(p, 'w').write(t[:a] + '<!-- seeds -->\n' + '\n'.join(rows) + '\n' + t[b:])
