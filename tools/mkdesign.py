#!/usr/bin/env python3
"""Refreshes the table of planted bugs in DESIGN.md (between the markers)."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = ['| planted bug | caught by | needs |', '|---|---|---|']
missed = json.load(open(os.path.join(root, 'tools', 'missed.json'))) if os.path.exists(os.path.join(root, 'tools', 'missed.json')) else {}
for d in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s |' % (d, missed.get(d, m['property']), m['needs'].replace('|', '/').replace('\n', ' ')))
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
t = '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->'
s = s.replace('SEEDEDTABLE', t)
s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
