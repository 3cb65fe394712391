#!/usr/bin/env python3
# rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
strengthened = { 'c33-full-line': 'SD header lines of up to 80 characters were added to the generator' }
extra = os.path.join(root, 'tools', 'strengthened.json')
if os.path.exists(extra): strengthened.update(json.load(open(extra)))
rows = ['| bug | breaks | caught by |', '|---|---|---|']
for d in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', d, 'meta.json')))
    rows.append('| %s%s | %s | %s%s |' % (d, '*' if d in strengthened else '', m['what_it_breaks'].replace('|', '/'), m['property'], ('; ' + strengthened[d]) if d in strengthened else ''))
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
i = s.index('## 5. Planted bugs')
head, rest = s[:i], s[i:]
j = rest.find('| bug |') if '| bug |' in rest else rest.index('TABLE')
k = rest.find('\n\n', j)
rest = rest[:j] + '\n'.join(rows) + (rest[k:] if k >= 0 else '\n')
open(p, 'w').write(head + rest)
