#!/usr/bin/env python3
"""python3 tools/table.py LOG...: puts the table of planted bugs at the end of DESIGN.md, from the output of tools/seed.py."""
import sys, os, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
last = {}
for f in sys.argv[1:]:
    for l in open(f, errors='replace'):
        m = re.match(r'(C\d\d-[\w-]+) \| hits: ([\w ,]*)\|', l)
        if m: last[m.group(1)] = m.group(2).strip()
d = open(V + '/DESIGN.md').read()
mark = '\n### Planted bugs and the checks that catch them\n'
old = {m.group(1): m.group(3).strip() for m in re.finditer(r'^\| (C\d\d-[\w-]+) \| (.*) \| ([\w ,]*) \|$', d, re.M)}
d = d.split(mark)[0].rstrip('\n') + '\n'
rows = []
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % i))
    rows.append('| %s | %s (%s) | %s |' % (i, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), last.get(i, old.get(i, 'not run')) or 'missed'))
open(V + '/DESIGN.md', 'w').write(d + mark + '| bug | what it breaks (needs) | caught by |\n|---|---|---|\n' + '\n'.join(rows) + '\n')
