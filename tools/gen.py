#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/meta.py (committed files; run after editing the metadata)."""
import json
import os
import sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from meta import P, NA, HOOKS  # noqa

props, checks, na = [], [], []
for p in P:
    props.append(dict(
        id=p['id'], title=p['title'], statement=p['statement'],
        quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
        anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                     state=[dict(name=n, meaning=m) for n, m in p.get('state', [])],
                     observe_at=[p['observe']], hook_needed=None)))
    if p['id'] in NA:
        na.append(dict(property=p['id'], reason=NA[p['id']]))
    elif os.path.exists(os.path.join(H, 'checks', p['id'].lower() + '.py')):
        checks.append(dict(
            property=p['id'], quick_cmd='./run_check.py %s --tier quick' % p['id'], thorough_cmd='./run_check.py %s --tier thorough' % p['id'],
            technique='symbolic execution of the current Python source over exact reals, obligations decided by z3 for all inputs within '
                      'the bounds, counterexamples replayed on the real code',
            level='other', level_note=p['note']))
    else:
        na.append(dict(property=p['id'], reason='no check has been built yet'))
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='Every check re-reads, transforms and symbolically executes the functions of /repo it names on every run; see DESIGN.md.')
if HOOKS:
    m['hooks'] = HOOKS
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
import jsonschema  # noqa
S = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in props:
    jsonschema.validate(p, S)
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(props), 'properties,', len(checks), 'checks,', len(na), 'not applicable')
