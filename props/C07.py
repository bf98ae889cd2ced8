import os, re
from lib import scmodel as M, gen
from props.C03 import gen_set
UNITS = []
RULE = 'random scored sets (trn with options, stm/ctm with times, confidences, labels) are saved with -o sgml and reloaded with -P; every report, and the re-saved file, must be byte-identical to the one produced directly; nontrivial = the set contains errors'
BOUND = 'up to 12 speakers; words over a printable alphabet without the double quote and the sub-word separator'

def compare(ctx, sclite, d, args, outs, data, key, nontrivial=True):
    os.makedirs(d + '/o', exist_ok=True); os.makedirs(d + '/p', exist_ok=True)
    ctx.run([sclite] + args + ['-O', 'o', '-n', 'x', '-f', '0', '-o'] + outs + ['sgml'], cwd=d)
    sg = open(d + '/o/x.sgml', encoding='latin-1').read()
    ctx.run([sclite, '-P', '-O', 'p', '-n', 'x', '-f', '0', '-o'] + outs + ['sgml'], cwd=d, stdin=sg)
    A, B = sorted(os.listdir(d + '/o')), sorted(os.listdir(d + '/p'))
    if A != B: ctx.fail('reports produced after reloading differ: %s vs %s' % (A, B), **data)
    for f in A:
        a = open(d + '/o/' + f, encoding='latin-1').read(); b = open(d + '/p/' + f, encoding='latin-1').read()
        if a != b:
            la, lb = a.split('\n'), b.split('\n')
            k = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
            ctx.fail('report %s changes when the saved alignment is reloaded: %r became %r' % (f, la[k:k + 1], lb[k:k + 1]), **data)
    ctx.case(key, nontrivial=nontrivial)
    ctx.count('reports compared', len(A))
    return sg

SPECIAL = ["a,b", "c:d", "e'f", "x<y", "p>q", "a=b", "[n]", "100%", "a&b", "back\\slash", "#", "~", "w|v", "q?", "plus+", "1,2:3"]

def files(d): return {k: open(d + '/' + k, encoding='latin-1').read() for k in os.listdir(d) if os.path.isfile(d + '/' + k)}

def bounded(ctx):
    rng = ctx.rng
    sclite = ctx.build.sclite_prog('sclite')
    for rnd in range(ctx.scale(80, 800)):
        flags = [[], ['-F'], ['-D'], ['-s'], ['-w', 'unity'], ['-F', '-D', '-s']][rnd % 6]
        us = gen_set(rng, rng.choice([1, 2, 4, 9]), rng.choice([1, 4, 15]), flags)
        d = ctx.dir()
        sp = rng.random() < 0.5
        with open(d + '/r.trn', 'w') as fr, open(d + '/h.trn', 'w') as fh:
            for i, (n, r, h) in enumerate(us):
                if sp:
                    ins = lambda t: ' '.join(rng.choice(SPECIAL) if rng.random() < .3 and w not in '{}/@' else w for w in t.split())
                    if '{' not in r: r = ins(r)
                    h = ins(h)
                if rng.random() < .02: r = (r + ' ' + 'L' * rng.randint(80, 300)).strip(); h += ' ' + 'L' * rng.randint(80, 300)
                fr.write('%s (%s_%d)\n' % (r, n, i)); fh.write('%s (%s_%d)\n' % (h, n, i))
        outs = ['sum', 'rsum', 'pralign', 'dtl', 'spk', 'snt']
        data = dict(flags=flags, files=files(d))
        compare(ctx, sclite, d, ['-r', 'r.trn', 'trn', '-h', 'h.trn', 'trn', '-i', 'spu_id'] + flags, outs, data, (rnd, tuple(us)), any(r != h for _, r, h in us))
        if rnd < 2: ctx.sample(dict(flags=flags, utterances=us[:4]))
    # time-marked input with confidences and subset labels
    for rnd in range(ctx.scale(40, 400)):
        d = ctx.dir()
        conf = rng.random() < .6; lab = rng.random() < .6
        voc = ['a', 'b', 'cc', 'dd', 'e-', "o'k", '(uh)']
        with open(d + '/r.stm', 'w') as fr, open(d + '/h.ctm', 'w') as fh:
            if lab:
                fr.write(';; LABEL "O" "Overall" "Overall"\n;; LABEL "M" "Male" "Male speakers"\n;; LABEL "F" "Female" "Female \\\\ speakers"\n;; CATEGORY "0" "" ""\n;; CATEGORY "1" "Sex" "by sex"\n')
            for fn in ['f1', 'f2'][:rng.randint(1, 2)]:
                for ch in ['A', 'B'][:rng.randint(1, 2)]:
                    t = 0.0
                    for s in range(rng.randint(1, 6)):
                        n = rng.randint(0, 6); dur = 1.0 + n * 0.5
                        txt = gen.alt_text(rng, voc, n, .1)
                        fr.write('%s %s spk%s%d %.2f %.2f %s%s\n' % (fn, ch, ch, rng.randint(0, 2), t, t + dur, ('<O,%s> ' % rng.choice('MF')) if lab else '', txt))
                        for k in range(n):
                            if rng.random() < .8:
                                fh.write('%s %s %.2f %.2f %s%s\n' % (fn, ch, t + k * .5 + .1, rng.choice([.1, .3, .37]), rng.choice(voc + txt.split()[:1]) .replace('{', 'a'), ' %.4f' % rng.uniform(.01, .99) if conf else ''))
                        t += dur
                    fh.write('%s %s %.2f %.2f %s%s\n' % (fn, ch, t - .3, .1, 'end', ' 0.5000' if conf else ''))
        data = dict(files=files(d))
        flags = rng.choice([[], ['-F'], ['-D'], ['-s'], ['-F', '-D']])
        outs = ['sum', 'rsum', 'pralign', 'prf', 'dtl', 'spk', 'snt'] + (['lur'] if lab else [])
        sg = compare(ctx, sclite, d, ['-r', 'r.stm', 'stm', '-h', 'h.ctm', 'ctm'] + flags, outs, data, ('stm', rnd), True)
        if rnd < 1: ctx.sample(sg[:700])
