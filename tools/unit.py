#!/usr/bin/env python3
"""unit.py <module> [unit-name ...]: run proof units of units/<module>.py and print every obligation that is not discharged"""
import sys, os, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from lib import prover
v = '-v' in sys.argv; av = [a for a in sys.argv[1:] if a != '-v']
m = importlib.import_module('units.' + av[0])
for d in m.UNITS:
    if len(av) > 1 and d['name'] not in av[1:]: continue
    u = prover.Unit(d)
    r = prover.run(u, '/tmp/unit/' + u.name)
    print('%-30s %-9s %d obligations, %d reach, %.1fs %s' % (u.name, r['status'], len(r['obligations']), len(r['reach']), r['wall'], r['note'][:1500] if r['status'] != 'proved' else ''))
    bad = [o for o in r['obligations'] if v or o['status'] == 'FAILURE']
    if not bad: bad = [o for o in r['obligations'] if o['status'] != 'SUCCESS']
    for o in bad[:14 if not v else 999]:
        print('    ', o['status'], o['name'], o['desc'][:150])
    for o in r['reach']:
        if o['status'] == 'SUCCESS': print('    UNREACHABLE', o['desc'])
        elif v: print('     reach', o['desc'])
