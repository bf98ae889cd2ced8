"""Executable contract of sclite's alignment shared by C01 (minimum cost), C02 (content) and C04 (labels)."""
from lib import scmodel as M, gen

def batches(ctx, what):
    """yield (flags, case_sensitive, frag, optdel, utterances)"""
    rng = ctx.rng
    V3 = ['a', 'b', 'c']
    def plain(n, vocab, lmax, palt):
        us = []
        for _ in range(n):
            r = gen.alt_text(rng, vocab, rng.randint(0, lmax), palt)
            if rng.random() < 0.5 and '{' not in r:
                h = ' '.join(gen.mutate(rng, r.split(), vocab))
            else:
                h = gen.alt_text(rng, vocab, rng.randint(0, lmax), palt * 0.5 if rng.random() < 0.6 else 0)
            us.append((r, h))
        return us
    k = ctx.scale(1, 8)
    # exhaustive: all pairs over {a,b} up to length 4 (3-letter in thorough)
    import itertools
    L = ctx.scale(3, 4)
    seqs = [' '.join(s) for n in range(L + 1) for s in itertools.product('ab', repeat=n)]
    ex = [(x, y) for x in seqs for y in seqs]
    for i in range(0, len(ex), 600): yield ('exhaustive', [], False, False, False, ex[i:i + 600])
    for _ in range(2 * k): yield ('plain', [], False, False, False, plain(250, V3, 8, 0.0))
    for _ in range(3 * k): yield ('alt', [], False, False, False, plain(250, V3 + ['d'], 6, 0.3))
    FV = ['cat', 'ca-', '-at', 'c-', 'dog', 'do-', '-g', '-', 'catalog', 'cat-', '-cat', 'a', 'og', 'dogma', '--']
    for _ in range(2 * k): yield ('frag', ['-F'], False, True, False, plain(200, FV, 6, 0.15))
    OV = ['uh', '(uh)', 'um', '(um)', 'a', '(a)', 'b', '(b-)', 'ba', 'bab']
    for _ in range(2 * k): yield ('optdel', ['-D'], False, False, True, plain(200, OV, 6, 0.15))
    for _ in range(1 * k): yield ('fragopt', ['-D', '-F'], False, True, True, plain(200, OV + FV[:8], 6, 0.15))
    CV = ['Cat', 'cat', 'CAT', 'dog', 'DOG', 'x', 'X']
    yield ('case', ['-s'], True, False, False, plain(200 * k, CV, 6, 0.1))
    yield ('nocase', [], False, False, False, plain(200 * k, CV, 6, 0.1))
    yield ('fragcase', ['-s', '-F'], True, True, False, plain(150 * k, ['Ca-', 'ca-', 'Cat', 'cat', '-aT', '-at', 'caT'], 5, 0.1))
    # options must not leak: fragments/parentheses without the flags are ordinary words
    yield ('noflags', [], False, False, False, plain(200 * k, FV[:8] + ['(uh)', '(a)', 'uh'], 6, 0.1))
    # long lines, more arcs than any initial allocation, buffers past 1000 characters
    us = []
    for _ in range(ctx.scale(6, 30)):
        n = rng.choice([40, 70, 150, 260])
        voc = ['w%d%s' % (i, 'x' * rng.choice([0, 3, 30])) for i in range(12)]
        r = [rng.choice(voc) for _ in range(n)]
        us.append((' '.join(r), ' '.join(gen.mutate(rng, r, voc))))
    yield ('long', [], False, False, False, us)
    # very different lengths one after the other: no dimension of any table may be assumed from an earlier utterance
    for _ in range(ctx.scale(4, 20)):
        us = []
        for _ in range(8):
            n, m = rng.choice([(600, 3), (3, 600), (110, 2), (2, 110), (200, 200), (1, 1), (0, 300), (300, 0), (104, 106), (99, 101), (130, 3)])
            voc = ['v%d' % i for i in range(40)]
            r = [rng.choice(voc) for _ in range(max(n, m))]
            pick = lambda k: [r[i] for i in sorted(rng.sample(range(len(r)), k))]
            us.append((' '.join(pick(n)), ' '.join(pick(m))))
        yield ('asym', [], False, False, False, us)

def evalchar(a, b, od):
    pass

def check(ctx, which):
    plain_ = ctx.build.sclite_prog('sclite'); asan = ctx.build.sclite_prog('sclite', san=True)
    for name, flags, cs, fr, od, utts in batches(ctx, which):
        sclite = asan if name in ('long', 'asym', 'alt', 'fragopt') else plain_
        out, d = M.run_trn(ctx, sclite, utts, flags)
        P = M.paths_by_index(out, len(utts), ctx, d)
        for i, (r, h) in enumerate(utts):
            at, seg = P[i]
            rr, hh = (r, h) if cs else (r.lower(), h.lower())
            mk = lambda w: M.W(w, od, fr)
            R = [s for s in M.expansions(rr)]; H = [s for s in M.expansions(hh)]
            data = dict(batch=name, flags=flags, ref=r, hyp=h, path=[list(x) for x in seg])
            ctx.case((name, r, h), nontrivial=(rr != hh and bool(r) and bool(h)))
            if name == 'alt' and len(ctx.samples) < 4 and seg: ctx.sample(data)
            # sides of the path; an optionally deletable word dropped from the other side shows as correct with an empty partner
            pr = [x[1] for x in seg if x[1] not in (None, '')]; ph = [x[2] for x in seg if x[2] not in (None, '')]
            if which == 'content':
                st = lambda w: w[:-1] if len(w) > 1 and w.endswith('*') else w
                if not any([st(w) for w in M.nonull(e)] == pr for e in R):
                    ctx.fail('reference side of the alignment is not the reference transcript', **data)
                if not any([st(w) for w in M.nonull(e)] == ph for e in H):
                    ctx.fail('hypothesis side of the alignment is not the hypothesis transcript', **data)
                if int(at['word_cnt']) != len(seg):
                    ctx.fail('word_cnt differs from the number of aligned pairs', **data)
            for e, a, b, _ in seg:
                wa = mk(a) if a else None; wb = mk(b) if b else None
                if which == 'labels':
                    if wa is None and wb is None: ctx.fail('aligned pair with both sides empty', **data)
                    if wa is not None and wb is not None: want = 'C' if M.words_match(wa, wb) else 'S'
                    elif wb is None: want = 'C' if wa.od else 'D'
                    else: want = 'C' if wb.od else 'I'
                    if e != want: ctx.fail('pair (%s,%s) labelled %s, matching rules say %s' % (a, b, e, want), **data)
            if which == 'cost':
                if len(R) * len(H) > 400: continue
                best = min(M.min_cost([mk(w) for w in x], [mk(w) for w in y]) for x in R for y in H)
                got = sum(M.cost(mk(a) if a else None, mk(b) if b else None) for e, a, b, _ in seg)
                if abs(got - round(best)) > 0.2 or best - got > 0.3:
                    ctx.fail('alignment costs %.3f, a cheaper or different one of cost %.3f exists' % (got, best), **data)
