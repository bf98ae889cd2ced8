#!/usr/bin/env python3
"""DESIGN.md = doc/head.md + per property plan (properties, units, bounds) + doc/tail.md"""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = json.load(open(V + '/MANIFEST.json'))
plan = json.load(open(V + '/doc/plan.json'))
chk = {c.get('property') or c.get('id'): c for c in man['checks']}
out = [open(V + '/doc/head.md').read().rstrip() + '\n']
for p in sorted(props, key=lambda p: p['id']):
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i in plan: out.append(plan[i] + '\n')
    if i not in chk: continue
    try: m = importlib.import_module('props.' + i)
    except ImportError: continue
    rows = []
    for e in m.UNITS:
        mod, _, names = e.partition(':'); u = importlib.import_module('units.' + mod)
        for d in u.UNITS:
            if not names or d['name'] in names.split(','): rows.append((mod, d))
    if rows:
        out.append('Contract units: ' + ', '.join('`%s`' % d['name'] for _, d in rows) + '.\n')
    else: out.append('No contract unit; the bounded part decides (level `exploration`).\n')
    out.append('Bounded part: %s. Bound: %s.\n' % (m.RULE.rstrip('.'), m.BOUND))
out.append(open(V + '/doc/tail.md').read().rstrip() + '\n')
out.append('\n## Inventory of the contract units\n\nEvery unit is cut out of the named file of /repo on every run. "Assumptions" are what the unit takes as given.\n')
seen = set()
for f in sorted(os.listdir(V + '/units')):
    if not f.endswith('.py') or f.startswith('_'): continue
    mod = importlib.import_module('units.' + f[:-3]); out.append('\n**units/%s** %s\n' % (f, (mod.__doc__ or '').strip()))
    for d in mod.UNITS:
        a = d.get('assumptions') or []
        out.append('- `%s` (%s: %s)%s' % (d['name'], d['source'].replace('src/', ''), ', '.join(d['functions']), (' - ' + '; '.join(a)) if a else ''))
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
