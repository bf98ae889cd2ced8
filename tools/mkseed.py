#!/usr/bin/env python3
"""mkseed.py <id> <property> <file> <<< JSON {old,new,needs,breaks,demo}: writes seeded/<id>"""
import sys, json, os, subprocess, tempfile, shutil
def mk(id, prop, edits, needs, breaks, demo, files=None):
    d = '/verif/seeded/' + id; os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(); 
    subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
    try:
        for f, old, new, *rest in edits:
            p = w + '/r/' + f; s = open(p, encoding='latin-1').read()
            assert rest or s.count(old) == 1, (f, old, s.count(old))
            open(p, 'w', encoding='latin-1').write(s.replace(old, new) if not rest else s[:rest[0](s)] + s[rest[0](s):].replace(old, new, 1))
        diff = subprocess.run(['git', '-C', w + '/r', 'diff'], capture_output=True, check=True).stdout
    finally:
        shutil.rmtree(w)
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.sh', 'w').write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    for n, t in (files or {}).items(): open(d + '/' + n, 'w').write(t)
