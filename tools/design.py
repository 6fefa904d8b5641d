#!/usr/bin/env python3
"""Fill the tables of DESIGN.md from properties.jsonl, checks.json, known-findings.txt and seeded/."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = json.load(open(V + '/checks.json'))['checks']
how = json.load(open(V + '/tools/how.json'))
def between(t, name, body):
    return re.sub(r'@@%s@@|<!--%s-->.*?<!--/%s-->' % ((name,) * 3),
                  lambda m: '<!--%s-->\n%s\n<!--/%s-->' % (name, body, name), t, flags=re.S)
t = open(V + '/DESIGN.md').read()
rows = '\n'.join('* **%s %s.** *Explored:* %s *Oracle:* %s *Bounds:* %s' % (p['id'], p['title'], how[p['id']][0], how[p['id']][1], checks[p['id']]['bounds']) for p in props)
t = between(t, 'PROPS', rows)
known = '\n'.join('* ' + l[len('known: property='):].strip().replace(' :: ', ': ') for l in open(V + '/known-findings.txt') if l.startswith('known:'))
t = between(t, 'KNOWN', known)
res = {}
if os.path.exists(V + '/tools/seeded.json'):
    res = json.load(open(V + '/tools/seeded.json'))
s = ['| bug | property | needs | quick check |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    s.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), res.get(d, 'caught')))
t = between(t, 'SEEDED', '\n'.join(s))
open(V + '/DESIGN.md', 'w').write(t)
