import re
from . import asclib as A
from .C13 import KINDS, options, same
RULE = 'random recordings through the real asclite (address sanitizer), with UEM windows (all, part or none of the recording) and without UEM: in the sgml report every hypothesis word inside the evaluated windows is listed exactly once, with its times - in an alignment of its group of reference segments, or as an insertion of the inter segment gap - and no other word; every reference segment inside the windows has its alignment exactly once; the raw and the percent summary (rsum, sum) hold, for every speaker and in the total, exactly the sentence, word, correct, substituted, deleted, inserted and error counts of those alignments; nontrivial = some word lies in a gap or outside the windows and some inside'
BOUND = '1-3 speakers, 1-2 files and channels, up to 100 words'
UNITS = []

def rows(out):
    """speaker -> numbers of the row (sentences, words, corr, sub, del, ins, err, s.err) of one summary table"""
    R = {}
    for l in out.split('\n'):
        if not l.startswith('|') or l.startswith('|-') or l.startswith('|='): continue
        c = [x.strip() for x in l.strip('|').split('|')]
        if len(c) < 3: continue
        v = c[1].split() + c[2].split()
        if len(v) == 8 and v[0][0].isdigit(): R[c[0]] = v
    return R

def windows(rng, segs, words):
    """evaluated windows per channel: borders only in the gaps between groups"""
    gs = A.groups(segs); W = []
    for key in sorted({(s['file'], s['chan']) for s in segs}):
        g = [x for x in gs if (x[0], x[1]) == key]
        k = rng.random()
        if k < .5: W.append(key + (0, 10**6)); continue
        i = 0; e = 0
        while i < len(g):
            j = rng.randint(i, len(g) - 1); up = lambda lo, hi: min(hi, (rng.randint(lo, hi) + 9) // 10 * 10)
            lo = max(e, g[i - 1][3] if i else 0)
            if e and lo + 20 > g[i][2]: i += 1; continue
            a = up(lo + (10 if e else 0), g[i][2]); e = up(g[j][3], max(g[j][3], (g[j + 1][2] if j + 1 < len(g) else g[j][3] + 2000) - 20))
            W.append(key + (a, e)); i = j + 1
            if i < len(g) and rng.random() < .4: i += 1
    return W

def one(ctx, prog, rng):
    segs, words = A.gen(rng, rng.choice(KINDS)); o, opts = options(rng); d = ctx.dir()
    uem = windows(rng, segs, words) if rng.random() < .7 else None
    if uem is not None:
        words = [w for w in words if not any((w['file'], w['chan'], (2 * w['t'] + w['d']) // 2) == (x[0], x[1], x[3]) for x in uem)]       # not exactly on the end of a window
        inside = lambda f, c, a, b: any((f, c) == w[:2] and w[2] <= a and b <= w[3] for w in uem)
        segs2 = [s for s in segs if inside(s['file'], s['chan'], s['t1'], s['t2'])]
        words2 = [w for w in words if inside(w['file'], w['chan'], (2 * w['t'] + w['d']) // 2, (2 * w['t'] + w['d']) // 2)]
        opts = opts + ['-uem', 'x.uem', 'both']
    else: segs2, words2 = segs, words
    if not segs2 or not words2: return
    A.write(d, segs, words, uem)
    out = A.run(ctx, prog, d, opts, ('sgml',))
    bad = lambda m: ctx.fail('asclite: ' + m, opts=opts, files=ctx._files(d), output=out[-6000:])
    try: P = A.parse(out)
    except Exception as e: bad('unreadable report: %s' % e)
    gs = A.groups(segs2); todo = list(segs2); tally = {}; listed = []
    gid = lambda f, c, t: next((i for i, g in enumerate(gs) if (g[0], g[1]) == (f, c) and g[2] <= t < g[3]), None)
    for spk, at, toks in P:
        t1, t2 = (round(float(at[k]) * 1000) for k in ('R_T1', 'R_T2'))
        if spk == 'inter_segment_gap': grp = None
        else:
            s = [x for x in todo if (x['spk'], x['file'], x['chan'], x['t1'], x['t2']) == (spk, at['file'], at['channel'], t1, t2)]
            if not s: bad('no such reference segment in the evaluated windows, or listed twice: %s %s/%s %d-%d' % (spk, at['file'], at['channel'], t1, t2))
            todo.remove(s[0]); grp = gid(at['file'], at['channel'], t1)
        T = tally.setdefault(spk, [0] * 8); T[0] += 1
        n = {k: sum(l == k for l, _, _, _ in toks) for k in 'CSDI'}
        T[1] += n['C'] + n['S'] + n['D']          # an optional word paired with nothing counts as a correct word
        if int(at['word_cnt']) != len(toks): bad('word_cnt is %s, the path has %d entries' % (at['word_cnt'], len(toks)))
        for i, k in enumerate('CSDI'): T[2 + i] += n[k]
        e = n['S'] + n['D'] + n['I']; T[6] += e; T[7] += e > 0
        for l, r, h, t in toks:
            if h is None: continue
            if grp is None and (r is not None or l != ('C' if A.clean(h, o, 'hyp')[1] else 'I')): bad('a word of the inter segment gap is %s, ref %r' % (l, r))
            listed.append((at['file'], at['channel'], t, h.lower().strip('()'), grp))
    if any(x['alts'] for x in todo): bad('reference segments without alignment: %s' % [(x['file'], x['chan'], x['spk'], x['t1'], x['t2']) for x in todo if x['alts']])
    # without a UEM file the recording ends where the last segment or word ends
    exp = []; gap = 0
    for w in words2:
        m = (2 * w['t'] + w['d']) // 2; g = gid(w['file'], w['chan'], m)
        exp.append((w['file'], w['chan'], '%.3f+%.3f' % (w['t'] / 1000., (w['t'] + w['d']) / 1000.), w['w'].lower().strip('()'), g)); gap += g is None
    if sorted(map(str, exp)) != sorted(map(str, listed)):
        lost = sorted(set(exp) - set(listed), key=str); more = sorted(set(listed) - set(exp), key=str)
        if uem is None and not more and all(x[4] is None for x in lost) and len(exp) - len(lost) == len(listed) and all(sum((w['file'], w['chan']) == x[:2] for w in words) % 2 == 0 for x in lost):
            ctx.finding('asclite-isg-parity', 'words of a gap are not scored: %s' % lost, opts=opts, files=ctx._files(d)); ctx.count('runs with the known finding')
        else: bad('words not scored in their place: %s; words scored elsewhere or twice: %s' % (lost, more or 'duplicates'))
    tot = [sum(t[i] for t in tally.values()) for i in range(8)]
    raw = A.run(ctx, prog, d, opts, ('rsum',)); R = rows(raw)
    pct = A.run(ctx, prog, d, opts, ('sum',)); S = rows(pct)
    for name, T in list(tally.items()) + [('Sum', tot)]:
        got = R.get(name)
        if got != [str(x) for x in T]: ctx.fail('asclite rsum: row %s is %s, the alignments say %s' % (name, got, T), opts=opts, files=ctx._files(d), raw=raw, output=out[-4000:])
        got = S.get('Sum/Avg' if name == 'Sum' else name)
        if name == 'Sum' and not T[1]: continue          # percentages of nothing
        if T[1]: want = [str(T[0]), str(T[1])] + ['%.1f' % (100. * x / T[1]) for x in T[2:7]]
        else: want = [str(T[0]), '0'] + ['%d*' % x for x in T[2:7]]
        want.append('%.1f' % (100. * T[7] / T[0]))
        near = lambda a, b: a == b or ('*' not in a + b and '.' in a and '.' in b and abs(float(a) - float(b)) < .1001 and abs(abs(10 * float(a) % 1) - 0) < 1e-6)
        if got is None or len(got) != 8 or got[:2] != want[:2] or not all(near(a, b) for a, b in zip(got, want)): ctx.fail('asclite sum: row %s is %s, the alignments say %s' % (name, got, want), opts=opts, files=ctx._files(d), pct=pct, output=out[-4000:])
    ctx.case((segs, words, opts, uem), gap > 0 and len(words2) > gap); ctx.count('words', len(words2)); ctx.count('words in gaps', gap); ctx.count('with UEM', uem is not None)
    ctx.sample('%d segments, %d words (%d in gaps), %s: each scored once' % (len(segs2), len(words2), gap, ' '.join(opts)))

def bounded(ctx):
    prog = ctx.build.asclite(True); rng = ctx.rng
    for _ in range(ctx.scale(350, 3500)): one(ctx, prog, rng)
