#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md (the prose), the specs, the properties, the findings and the planted bugs."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
from specs import SPECS
from design_data import HOW, CATCHES
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
cost = json.load(open(V + '/tools/costs.json'))
def per_property():
    o = []
    for p in props:
        i = p['id']; s = SPECS[i]
        hs = sorted({j.split()[0] for j in s['quick'] + s['thorough']})
        o.append('### %s %s\n\n%s\n\n* **Decided by** %s: %s\n* **Bounds**: %s.\n* **Outside**: %s.\n* **Cost**: quick %d runs, about %d s on 8 cores%s.\n' % (
            i, p['title'], p['statement'], ', '.join('`%s`' % h for h in hs), HOW[i], s['bounds'], s['outside'], len(s['quick']), cost['quick'].get(i, 0), ('; thorough %d more, about %d s' % (len(s['thorough']), cost['thorough'][i])) if i in cost['thorough'] else '; thorough %d more runs' % len(s['thorough'])))
    return '\n'.join(o)
def findings():
    k, f = [], []
    for l in open(V + '/known_findings.txt'):
        m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l)
        if m: k.append('* %s (`%s`): %s.' % m.groups())
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
        if m: f.append(m.groups())
    by = {}
    for p, c, t in f: by.setdefault((c, t), []).append(p)
    return '\n'.join(k), '\n'.join('* `%s` (%s) %s.' % (c, ', '.join(ps), t) for (c, t), ps in by.items())
def planted():
    o = ['| planted bug | property | needs | caught by (quick) |', '|---|---|---|---|']
    for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
        m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
        o.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'], CATCHES.get(n, m['property'])))
    return '\n'.join(o)
t = open(V + '/tools/design.md').read()
k, f = findings()
for a, b in dict(PROPERTIES=per_property(), KNOWN=k, FIXED=f, PLANTED=planted()).items(): t = t.replace('@%s@' % a, b)
open(V + '/DESIGN.md', 'w').write(t)
