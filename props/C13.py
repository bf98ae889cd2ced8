from . import asclib as A
RULE = 'random recordings (1-3 overlapping speakers, alternations with empty alternatives, optionally deletable words, word fragments, both cases, several files and channels, words outside every reference segment) are aligned by the real asclite (address sanitizer); in every group of overlapping segments the total cost of the printed alignments (substitution 4, insertion/deletion 3, optional word 2) must equal the minimum over all choices of alternatives and all interleavings of the speakers, computed by an independent shortest path search; each label must be the one the two words deserve under -s, -F and -D; the reference side of each path must read one of the alternatives of its segment and the hypothesis side the words of the group in order; nontrivial = the minimum cost is positive and some word matches'
BOUND = '1-3 speakers, up to 60 words per group (12 with three speakers), 1-2 files and channels'
UNITS = []

KINDS = [dict(maxspk=1, maxseg=3, maxw=4, vocab=list('abcd')),
         dict(maxspk=1, maxseg=2, maxw=30, vocab=list('abcdefgh'), alt=.15, opt=.1),
         dict(maxspk=2, maxseg=2, maxw=3, vocab=list('abc'), empty=1),
         dict(maxspk=2, maxseg=3, maxw=6, vocab=list('abcde'), opt=.2),
         dict(maxspk=3, maxseg=2, maxw=2, vocab=list('abc'), alt=.3),
         dict(maxspk=3, maxseg=2, maxw=4, vocab=list('ab'), opt=.2),
         dict(maxspk=2, maxseg=3, maxw=3, vocab=['ab', 'abc', 'b', 'bc', 'ca'], alt=.2, opt=.2, frag=.3, upper=.2)]

def options(rng):
    o = {}
    if rng.random() < .4: o['s'] = 1
    if rng.random() < .4: o['F'] = 1
    if rng.random() < .7: o['D'] = rng.choice(['ref', 'hyp', 'both', 'none'])
    return o, (['-s'] if 's' in o else []) + (['-F'] if 'F' in o else []) + (['-D', o['D']] if 'D' in o else [])

def label(r, h, o):
    if r is None: return 'C' if A.clean(h, o, 'hyp')[1] else 'I'
    if h is None: return 'C' if A.clean(r, o, 'ref')[1] else 'D'
    return 'C' if A.match(r, h, o) else 'S'

def same(a, b, o, side):
    """the printed word is the written one (case may be folded, parentheses of an optional word dropped)"""
    return A.clean(a, dict(o, F=0, D='both'), side)[0].lower() == A.clean(b, dict(o, F=0, D='both'), side)[0].lower()

def reads(words, alts, o):
    """the printed reference words read one choice of alternatives"""
    pos = {0}
    for a in alts:
        pos = {p + len(x) for p in pos for x in a if len(words) >= p + len(x) and all(same(w, y, o, 'ref') for w, y in zip(words[p:p + len(x)], x))}
    return len(words) in pos

def one(ctx, prog, rng):
    segs, words = A.gen(rng, rng.choice(KINDS)); o, opts = options(rng)
    d = ctx.dir(); uem = [(f, c, 0, 10**6) for f, c in sorted({(s['file'], s['chan']) for s in segs})]
    A.write(d, segs, words, uem, comments=rng.random() < .2)
    out = A.run(ctx, prog, d, opts + ['-uem', 'x.uem', 'both'])
    bad = lambda m: ctx.fail('asclite: ' + m, opts=opts, files=ctx._files(d), output=out[-6000:])
    try: P = A.parse(out)
    except Exception as e: bad('unreadable report: %s' % e)
    tot = hits = 0
    for g in A.groups(segs):
        hy = [w for w in words if w['file'] == g[0] and w['chan'] == g[1] and g[2] <= (2 * w['t'] + w['d']) // 2 < g[3]]
        ps = [p for p in P if p[0] != 'inter_segment_gap' and p[1]['file'] == g[0] and p[1]['channel'] == g[1] and g[2] <= round(float(p[1]['R_T1']) * 1000) < g[3]]
        where = 'group %s/%s %d-%d ms: ' % tuple(g[:4])
        cost = 0; seen = []; todo = list(g[4])
        for spk, at, toks in ps:
            t1, t2 = (round(float(at[k]) * 1000) for k in ('R_T1', 'R_T2'))
            s = [x for x in todo if (x['spk'], x['t1'], x['t2']) == (spk, t1, t2)]
            if not s: bad(where + 'no segment %s %d-%d' % (spk, t1, t2))
            todo.remove(s[0])
            if not reads([r for _, r, _, _ in toks if r is not None], s[0]['alts'], o): bad(where + 'the reference words of %s %d-%d are not those of the segment' % (spk, t1, t2))
            for l, r, h, t in toks:
                if r is None: cost += A.ins_cost(h, o, 'hyp')
                elif h is None: cost += A.ins_cost(r, o, 'ref')
                else: cost += 0 if A.match(r, h, o) else 4
                if l != label(r, h, o): bad(where + 'ref %r hyp %r is labelled %s, not %s' % (r, h, l, label(r, h, o)))
                if h is not None: seen.append((t, h))
                hits += l == 'C' and h is not None
        if any(x['alts'] for x in todo): bad(where + 'no alignment for the segments %s' % [(x['spk'], x['t1'], x['t2']) for x in todo if x['alts']])
        seen.sort(key=lambda x: float(x[0].split('+')[0]))
        if len(seen) != len(hy) or not all(same(h, w['w'], o, 'hyp') for (t, h), w in zip(seen, hy)): bad(where + 'hypothesis words %s aligned, the group has %s' % ([h for _, h in seen], [w['w'] for w in hy]))
        spk = sorted({s['spk'] for s in g[4]})
        refs = [sum([s['alts'] for s in sorted(g[4], key=lambda s: s['t1']) if s['spk'] == k], []) for k in spk]
        m = A.min_cost(refs, [w['w'] for w in hy], o); tot += m
        ctx.count('groups'); ctx.count('groups with %d speakers' % len(spk))
        if m != cost: bad(where + 'alignment of cost %s, the minimum is %s' % (cost, m))
    ctx.case((segs, words, opts), tot > 0 and hits > 0)
    if tot and hits: ctx.sample('%d segments, %d words, options %s: cost %d is minimal' % (len(segs), len(words), ' '.join(opts) or '-', tot))

def bounded(ctx):
    prog = ctx.build.asclite(True); rng = ctx.rng
    for _ in range(ctx.scale(600, 6000)): one(ctx, prog, rng)
