#!/usr/bin/env python3
"""fixrec.py <property>: record every "fix:" commit of /repo that known_findings.json does not list yet"""
import json, subprocess, sys
p = '/verif/known_findings.json'; k = json.load(open(p)); have = {x.get('commit') for x in k}
for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '--reverse'], capture_output=True, text=True).stdout.split('\n'):
    h, _, s = l.partition(' ')
    if s.startswith('fix: ') and h not in have:
        k.append(dict(property=sys.argv[1], status='fixed', commit=h, what=s[5:])); print(h, s)
json.dump(k, open(p, 'w'), indent=1)
