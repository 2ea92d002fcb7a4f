#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design.md, the properties (tools/meta.py), the bounds stated in the checks, the findings and the planted bugs."""
import ast
import glob
import json
import os
import sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from meta import P, NA  # noqa

text = open(os.path.join(H, 'tools', 'design.md')).read()
head, how, tail = text.split('<!-- cut -->\n')
HOW = {}
for part in how.split('\n## ')[1:]:
    k, _, v = part.partition('\n')
    HOW[k.strip()] = v.strip()
out = [head, '## The properties, one by one\n']
for p in P:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    out.append(HOW[i] + '\n')
    if i in NA:
        out.append('Not applicable: %s\n' % NA[i])
        continue
    c = {}
    for n in ast.parse(open(os.path.join(H, 'checks', i.lower() + '.py')).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('BOUNDS', 'OUTSIDE', 'ASSUMPTIONS'):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    out.append('- Bounds: %s.' % c['BOUNDS'])
    out.append('- Outside: %s.' % c['OUTSIDE'])
    if c.get('ASSUMPTIONS'):
        out.append('- Assumed: %s.' % '; '.join(c['ASSUMPTIONS']))
    out.append('- Code: %s.\n' % ', '.join('`%s`' % f for f in p['files']))
K = json.load(open(os.path.join(H, 'KNOWN_FINDINGS.json')))
out.append('## Genuine defects\n\nFound by the checks (or while writing them) and reproduced on the real code. Recorded, not repaired:\n')
out += ['- %s (%s): %s' % (f['property'], f['key'], f['what']) for f in K['findings']]
out.append('\nRepaired by a "fix:" commit in /repo:\n')
for f in K['fixed']:
    w = f.replace('fixed: property=', '').split(' ', 2)
    out.append('- %s (%s): %s' % (w[0], w[1], w[2]))
tail, _, rest = tail.partition('<!-- table -->\n')
out.append('\n' + tail)
first = {}
for l in rest.split('<!-- end -->')[0].strip().split('\n'):
    k, _, v = l.partition(': ')
    first[k.strip('- ')] = v
out.append('| change | property | needs | breaks | caught by |\n|---|---|---|---|---|')
for f in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
    d, n = json.load(open(f)), f.split('/')[-2]
    out.append('| %s | %s | %s | %s | %s |' % (n, d['property'], d['needs'], d['what_it_breaks'], first.get(n, d['property'])))
out.append(rest.split('<!-- end -->\n')[1])
open(os.path.join(H, 'DESIGN.md'), 'w').write('\n'.join(out))
