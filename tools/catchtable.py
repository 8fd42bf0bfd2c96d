#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and the results of catch.py."""
import json, os, re
V = '/verif'
res = json.load(open('/tmp/sd/catch.json'))
rows = ['| planted bug | property | what it needs | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
    r = res.get(i)
    by = '(not run)' if r is None else 'missed'
    if r and r['caught']:
        k = re.search(r'replays/(C\d+)-([a-z0-9_]+)-', r['line'])
        by = '%s `%s`' % (k.group(1), k.group(2)) if k else 'caught'
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), by))
p = V + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- catch table -->\n', '<!-- end of catch table -->\n'
s = s[:s.index(a) + len(a)] + '\n'.join(rows) + '\n' + s[s.index(b):]
open(p, 'w').write(s)
