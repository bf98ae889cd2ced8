import re, os
from . import asclib as A
RULE = 'operation sequences (set, get, is-calculated; 1-6 dimensions, block sizes 1-4096 KB, memory limits from 1 KB up so that blocks are compressed and decompressed again and again) on the real CompressedLevenshteinMatrix and ArrayLevenshteinMatrix (address sanitizer): both must answer every query like a plain map from coordinates to the last value written; and whole asclite runs with -force-memory-compression under different block sizes and limits must print the same report as without; nontrivial = some cell is read back after other cells of the matrix were written'
BOUND = 'matrices up to 200,000 cells and 4,000 operations; recordings up to 4 speakers / 60 words'
UNITS = []

def script(rng, dims, kb, gb, nops, hot):
    """(operations, expected answers)"""
    cells = {}; L = []; exp = []; pool = [tuple(rng.randrange(d) for d in dims) for _ in range(hot)]
    for _ in range(nops):
        c = rng.choice(pool) if rng.random() < .7 else tuple(rng.randrange(d) for d in dims)
        k = rng.random()
        if k < .5: v = rng.choice([0, 1, rng.randint(0, 2000), 2**31 - 1, rng.randint(0, 10**6)]); cells[c] = v; L.append('s %s %d' % (' '.join(map(str, c)), v))
        elif k < .8: L.append('g ' + ' '.join(map(str, c))); exp.append(cells.get(c, -1))
        else: L.append('i ' + ' '.join(map(str, c))); exp.append(int(c in cells))
    exp.append(len(cells))
    return '%d %s %s %d\n%s\n%s\n' % (len(dims), kb, gb, nops, ' '.join(map(str, dims)), '\n'.join(L)), exp

def matrix(ctx, drv, rng, dims, kb, gb, nops, hot=40):
    txt, exp = script(rng, dims, kb, gb, nops, hot)
    for kind in ('c ', 'a '):
        r = ctx.run([drv], stdin=kind + txt, timeout=120)
        got = [int(x) for x in r.stdout.split()]
        if got != exp:
            k = next((i for i in range(min(len(got), len(exp))) if got[i] != exp[i]), min(len(got), len(exp)))
            ctx.fail('%s matrix %s, blocks of %s KB, limit %s GB: answer %d is %s, the last value written is %s' % ('compressed' if kind == 'c ' else 'plain', dims, kb, gb, k, got[k:k + 1], exp[k:k + 1]), stdin=kind + txt[:20000])
    ctx.case((dims, kb, gb, nops, txt[:200]), len(set(exp)) > 2); ctx.count('operations', 2 * nops)

def whole(ctx, prog, rng, kind):
    segs, words = A.gen(rng, kind); d = ctx.dir(); A.write(d, segs, words)
    f = lambda s: re.sub('creation_date="[^"]*"', '', s)
    ref = f(A.run(ctx, prog, d, []))
    big = 0
    for g in A.groups(segs):
        p = 1 + len(words)
        for k in {x['spk'] for x in g[4]}: p *= 2 + sum(sum(map(len, a)) for x in g[4] if x['spk'] == k for a in x['alts'])
        big = max(big, 4 * p)
    # a limit a little below the size of the largest graph: blocks are compressed, but few at a time
    tight = () if big > 150000 else ((rng.choice(['1', '2', '4']), '%.8f' % (max(1000, big * rng.choice([.6, .8, .95])) / 2**30)),)
    for kb, gb in tight + ((rng.choice(['16', '64', '256']), '2'),):
        out = f(A.run(ctx, prog, d, ['-force-memory-compression', '-memory-compression', kb, '-memory-limit', gb]))
        if out != ref: ctx.fail('asclite reports differently with compression (blocks of %s KB, limit %s GB)' % (kb, gb), files=ctx._files(d), without=ref[-4000:], compressed=out[-4000:])
    ctx.case((segs, words), len(words) > 2 and '<PATH' in ref); ctx.count('recordings')
    ctx.sample('%d segments, %d words: same report with and without compression' % (len(segs), len(words)))

def bounded(ctx):
    rng = ctx.rng; here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    prog = ctx.build.asclite(True); drv = ctx.build.asclite_driver(os.path.join(here, 'native/levmat.cpp'), 'levmat', True)
    for dims in ([2] * 9, [1, 2] * 5, [3, 2, 2, 2, 2, 2, 2], [512], [2, 300]): matrix(ctx, drv, rng, dims, '1', '0.000001', 60)     # blocks too small to compress
    for _ in range(ctx.scale(120, 1200)):
        n = rng.randint(1, 6); dims = [1] * n
        while True:
            i = rng.randrange(n); dims[i] = rng.choice([1, 2, 3, 5, 7, 11, 12, 13, 16, 17, 31, 60, 61, 128, 400])
            p = 1
            for x in dims: p *= x
            if p > 200000: dims[i] = 1; break
            if rng.random() < .2: break
        tight = rng.random() < .6
        matrix(ctx, drv, rng, dims, rng.choice(['1', '1', '2', '4', '16', '64', '4096']), rng.choice(['0.000001', '0.000003', '0.00001', '0.0001']) if tight else '2', rng.randint(5, 60) if tight else rng.randint(100, 2000))
    kinds = [dict(maxspk=3, maxseg=4, maxw=6, vocab=list('abcd'), alt=.2), dict(maxspk=4, maxseg=2, maxw=4, vocab=list('abcd')), dict(maxspk=1, maxseg=2, maxw=60, vocab=list('abcdefgh'))]
    for _ in range(ctx.scale(40, 400)): whole(ctx, prog, rng, rng.choice(kinds))
