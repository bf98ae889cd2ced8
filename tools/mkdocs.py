#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INP = ['inputs', 'configurations']
def F(*fs): return ['src/sclite/' + f for f in fs]
P = []
def prop(id, title, statement, quant, why, files, mech, over=INP, observe=(), level='proof', note='', technique='', na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None),
                  _level=level, _note=note, _tech=technique, _na=na))

exec(open(os.path.join(V, 'tools', 'proptable.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
checks = []; na = []
for p in P:
    if p['_na']: na.append(dict(property=p['id'], reason=p['_na'])); continue
    c = 'python3 check.py %s --tier ' % p['id']
    checks.append(dict(property=p['id'], quick_cmd=c + 'quick', thorough_cmd=c + 'thorough', evidence_file='evidence/%s.json' % p['id'],
                       technique=p['_tech'], level=p['_level'], level_note=p['_note']))
json.dump(dict(version=1, setup_cmd='python3 -m compileall -q lib props units check.py', checks=checks, not_applicable=na,
               notes='Every check re-extracts the functions under contract from /repo and rebuilds the real programs from /repo in a scratch directory; no hooks in /repo are needed.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
