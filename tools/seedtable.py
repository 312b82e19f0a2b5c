#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/."""
import json, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = here + '/DESIGN.md'
s = open(p).read()
i = s.index('<!-- planted -->')
rows = ['<!-- planted -->', '', '| change | what it needs in order to show | caught by (quick) |', '|---|---|---|']
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    d = json.load(open(f))
    name = os.path.basename(os.path.dirname(f))
    rows.append(f"| {name}: {d['what_it_breaks']} | {d['needs']} | {d.get('caught_by', d['property'])} |")
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n')
