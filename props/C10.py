import os, re, math, itertools
from lib import scmodel as M
UNITS = ['stats']
RULE = 'random sets of 2 to 12 systems scored on the same reference; for every pair of systems the McNemar, sign, Wilcoxon and matched pairs statistics are recomputed from the saved alignments (exact binomial probabilities, average ranks, sentence segments) and compared with the unified report and with the verbose report of each test; utterances and speakers of the systems come in different orders; nontrivial = the two systems differ'
BOUND = 'up to 70 speakers, 150 utterances, 12 systems (the unified report stops with an error message above that); references without alternations; probabilities above 20 differing items are compared within 0.015 of the exact binomial value (the program documents a normal approximation); the better system is compared where mean, counts and rank sums agree on it'

def phi(z): return 0.5 * (1 + math.erf(z / math.sqrt(2)))
def binom2(k, n): return 2.0 * sum(math.comb(n, i) for i in range(k + 1)) / 2.0 ** n

def load(sg):
    """speaker -> {id: [evals]} in file order"""
    out = {}
    for blk in re.split(r'(?=<SPEAKER )', sg)[1:]:
        spk = re.match(r'<SPEAKER id="([^"]*)"', blk).group(1)
        out[spk] = {at['id']: [(s[0], s[1]) for s in seg] for at, seg in M.parse_sgml(blk)}
    return out

def segments(p1, p2):
    """error counts (system 1, system 2) of the segments of one utterance: errors are in one segment unless two or more
    words in a row, with no insertion between them, are correct in both alignments"""
    def slots(p):          # per reference word: (insertions before it, correct); then insertions at the end
        out, ins = [], 0
        for e, r in p:
            if e == 'I': ins += 1
            else: out.append((ins, e == 'C')); ins = 0
        return out, ins
    a, ea = slots(p1); b, eb = slots(p2)
    assert len(a) == len(b)
    items = []             # ('e', e1, e2) or ('g',)
    for (i1, c1), (i2, c2) in zip(a, b):
        if i1 or i2: items.append((i1, i2))
        items.append(None if c1 and c2 else (0 if c1 else 1, 0 if c2 else 1))
    if ea or eb: items.append((ea, eb))
    segs, cur, good = [], None, 0
    for it in items:
        if it is None:
            good += 1
            if good == 2 and cur is not None: segs.append(cur); cur = None
        else:
            good = 0
            cur = (it[0] + (cur[0] if cur else 0), it[1] + (cur[1] if cur else 0))
    if cur is not None: segs.append(cur)
    return segs

def prob(k, n): return 1.0 if n == 0 else min(1.0, binom2(k, n))

def mcn(x, y):
    t = [[0, 0], [0, 0]]
    for spk in x:
        for i, p in x[spk].items():
            t[any(e != 'C' for e, _ in p)][any(e != 'C' for e, _ in y[spk][i])] += 1
    a, b = t[1][0], t[0][1]
    if a == b: return dict(p=1.0, table=t, n=a + b, better=0)
    p = prob(min(a, b), a + b)
    return dict(p=p, table=t, n=a + b, better=2 if a > b else 1)

def wer(x, spk):
    ev = [e for p in x[spk].values() for e, _ in p]
    ref = sum(e != 'I' for e in ev)
    return 0.0 if ref == 0 else float(sum(e != 'C' for e in ev)) / float(ref) * 100.0

def sign(x, y):
    d = [wer(x, s) - wer(y, s) for s in x]
    eq = sum(abs(v) <= 0.005 for v in d); pl = sum(v > 0.005 for v in d); mi = sum(v < -0.005 for v in d)
    s1, s2 = sum(wer(x, s) for s in x), sum(wer(y, s) for s in x)
    if not s1 > s2: pl, mi = mi, pl                 # counted for (worse - better)
    a, b = pl + eq // 2, mi + eq // 2 + eq % 2
    n = a + b
    agree = abs(s1 - s2) > 1e-6 and a > b
    return dict(p=1.0 if a == b else prob(min(a, b), n), n=n, plus=pl, minus=mi, eq=eq, better=(2 if s1 > s2 else 1) if agree else None)

def ranks(v):
    o = sorted(range(len(v)), key=lambda i: v[i]); r = [0.0] * len(v); i = 0
    while i < len(v):
        j = i
        while j + 1 < len(v) and v[o[j + 1]] == v[o[i]]: j += 1
        for k in range(i, j + 1): r[o[k]] = (i + j) / 2.0 + 1
        i = j + 1
    return r

def wilc(x, y, order):
    s1, s2 = sum(wer(x, s) for s in order), sum(wer(y, s) for s in order)
    if abs(s1 - s2) < 1e-6: return None             # which one is taken first is a matter of rounding
    hi, lo = (x, y) if s1 > s2 else (y, x)
    d = [wer(hi, s) - wer(lo, s) for s in order]
    r = ranks([abs(v) for v in d])
    P = N = 0.0; np = nn = alt = 0
    for v, k in zip(d, r):
        if v > 0.005: P += k; np += 1
        elif v < -0.005: N += k; nn += 1
        elif alt % 2 == 0: P += k; np += 1; alt += 1
        else: N += k; nn += 1; alt += 1
    n = np + nn
    W = P if np < nn else N
    z = (W - n * (n + 1) / 4.0) / math.sqrt(n * (n + 1) * (2 * n + 1) / 24.0)
    agree = np > nn and P > N
    return dict(z=z, P=P, N=N, np=np, nn=nn, better=(2 if s1 > s2 else 1) if agree else None, p=2 * (1 - phi(abs(z))))

def mapsswe(x, y):
    segs = []
    for spk in x:
        for i, p in x[spk].items(): segs += segments(p, y[spk][i])
    d = [a - b for a, b in segs]; n = len(d)
    if n == 0: return dict(n=0, z=0.0, mean=0.0, sd=0.0, p=1.0, better=0)
    mean = sum(d) / n
    ss = sum((v - mean) ** 2 for v in d)
    sd = math.sqrt(ss / (n - 1)) if n > 1 and ss > 0 else 0.0
    z = mean / (sd / math.sqrt(n)) if sd else 0.0
    return dict(n=n, z=z, mean=mean, sd=sd, p=2 * (1 - phi(abs(z))), e1=sum(a for a, _ in segs), e2=sum(b for _, b in segs), better=1 if mean < 0 else 2)

def close(p, q, tol):
    """printed probability p (3 decimals or <0.001) against q"""
    if p == '<0.001': return q < 0.001 + tol
    return abs(float(p) - q) <= tol + 0.0006

def gen(rng, nsys, nspk, nutt, big):
    spk = ['sp%d' % i for i in range(nspk)]
    voc = 'a b c d e f g'.split()
    ref = []
    for i in range(nutt):
        s = spk[i] if i < nspk else rng.choice(spk)
        ref.append((s, i, [rng.choice(voc) for _ in range(rng.randint(1, rng.choice([3, 8, 20])))]))
    sysd = []
    for k in range(nsys):
        rate = rng.choice([0, .02, .05, .1, .1, .2, .4, .7]); spread = {s: rng.choice([0, 1, 1, 1, 2]) for s in spk}
        hy = []
        for s, i, w in ref:
            p = min(.9, rate * spread[s]); out = []
            for t in w:
                x = rng.random()
                if x < p * .3: continue
                if x < p * .7: out.append(rng.choice('xyz')); continue
                out.append(t)
                if x < p: out.append(rng.choice('xyz'))
            hy.append((s, i, out))
        if k and rng.random() < .15: hy = [h for h in sysd[-1]]
        rng.shuffle(hy) if rng.random() < .6 else None
        sysd.append(hy)
    return ref, sysd

def cells(out, names):
    """unified report: {(test, i, j): (winner, p, stars)}"""
    res = {}; row = -1
    for l in out.split('\n'):
        m = re.match(r'^\|\s+(MP|SI|WI|MN|AN)\s+\|\|(.*)\|\|\s+\1\s+\|$', l)
        if not m: continue
        t = m.group(1); c = m.group(2).split('|')
        if c[0].strip(): row += 1
        for j, x in enumerate(c[1:]):
            x = x.split()
            if x: res[(t, row, j)] = (x[0], x[1], x[2] if len(x) > 2 else '')
    return res

def verbose(ctx, prog, sg, pair, names, exp, data):
    d = ctx.dir(); open(d + '/in', 'w').write(sg)
    r = ctx.run([prog, '-p', '-t', 'std4', '-v', '-n', 'o'], cwd=d, stdin=sg, timeout=120)
    rd = lambda e: open(d + '/o.stats.' + e, encoding='latin-1').read()
    F = lambda pat, t, what: (re.search(pat, t) or ctx.fail('the verbose report does not show %s' % what, report=t[-3000:], **data)).groups()
    # McNemar
    t = rd('mcn'); a, b = F(r'corr\s+(\d+)\s+(\d+)\n', t, 'the McNemar table'); c, e = F(r'incorr\s+(\d+)\s+(\d+)\n', t[t.find('incorr') + 6:] if 0 else t[t.rfind('incorr'):], 'the McNemar table')
    tb = exp['MN']['table']
    if [[int(a), int(b)], [int(c), int(e)]] != tb: ctx.fail('McNemar table is %s but the alignments give %s' % ([[a, b], [c, e]], tb), **data)
    # sign
    t = rd('sign'); pl, = F(r'N\(\+\) =\s+(\d+)', t, 'N(+)'); mi, = F(r'N\(-\) =\s+(\d+)', t, 'N(-)'); eq, = F(r'N\(0\) =\s+(\d+)', t, 'N(0)')
    s = exp['SI']
    if (int(pl), int(mi), int(eq)) != (s['plus'], s['minus'], s['eq']): ctx.fail('sign test counts %s/%s/%s but the alignments give %d/%d/%d' % (pl, mi, eq, s['plus'], s['minus'], s['eq']), **data)
    # wilcoxon
    w = exp['WI']
    if w:
        t = rd('wilc'); np, P = F(r'Sum of\s+(\d+) positive ranks =\s*([\d.]+)', t, 'the positive ranks'); nn, N = F(r'Sum of\s+(\d+) negative ranks =\s*([\d.]+)', t, 'the negative ranks')
        if (int(np), int(nn)) != (w['np'], w['nn']) or abs(float(P) - w['P']) > .06 or abs(float(N) - w['N']) > .06:
            ctx.fail('Wilcoxon rank sums %s:%s %s:%s but the alignments give %d:%.1f %d:%.1f' % (np, P, nn, N, w['np'], w['P'], w['nn'], w['N']), **data)
        z, = F(r'The Z statistic =\s*(-?[\d.]+)', t, 'Z')
        if abs(float(z) - w['z']) > .0051: ctx.fail('Wilcoxon Z is %s but the alignments give %.4f' % (z, w['z']), **data)
    # matched pairs
    t = rd('mapsswe'); m = exp['MP']
    n, mean, sd, z = F(r'# segs: (\d+)\).*\(mean:\s*(\S+)\) \(std dev:\s*(\S+)\) \(Z Stat:\s*(\S+)\)', t, 'the matched pairs result')
    if int(n) != m['n'] or any(abs(float(u) - m[k]) > .0006 for u, k in ((mean, 'mean'), (sd, 'sd'), (z, 'z'))):
        ctx.fail('matched pairs: %s segments, mean %s, std dev %s, Z %s but the alignments give %d, %.4f, %.4f, %.4f' % (n, mean, sd, z, m['n'], m['mean'], m['sd'], m['z']), **data)
    if m['n']:
        e1, e2 = F(r'Totals\s+\d+\s+(\d+)\s+(\d+)', t, 'totals')
        if (int(e1), int(e2)) != (m['e1'], m['e2']): ctx.fail('matched pairs: segments contain %s and %s errors, the alignments %d and %d' % (e1, e2, m['e1'], m['e2']), **data)
    ctx.count('verbose reports compared', 4)

def bounded(ctx):
    rng = ctx.rng
    sclite = ctx.build.sclite_prog('sclite'); prog = ctx.build.sclite_prog('sc_stats', san=True)
    N = ctx.scale(40, 500)
    for rnd in range(N):
        nsys = rng.choice([2, 2, 3, 3, 4, 6]) if rnd % 10 else rng.choice([9, 11, 12])
        nspk = rng.choice([1, 2, 3, 5, 8, 12, 19, 20, 21, 30, 45, 70]) if nsys < 9 else 3
        nutt = max(nspk, rng.choice([1, 4, 20, 60, 150])) if nsys < 9 else 8
        ref, sysd = gen(rng, nsys, nspk, nutt, rnd % 10 == 0)
        d = ctx.dir()
        tr = lambda L: ''.join('%s (%s-%d)\n' % (' '.join(w), s, i) for s, i, w in L)
        open(d + '/r', 'w').write(tr(ref))
        L = rng.choice([1, 1, 3, 8, 18, 25]) if nsys < 9 else 2
        names = ['%s%d' % ('n' * L, k) for k in range(nsys)]
        sg = ''; mods = []
        for k in range(nsys):
            open(d + '/h%d' % k, 'w').write(tr(sysd[k]))
            ctx.run([sclite, '-r', 'r', 'trn', '-h', 'h%d' % k, 'trn', names[k], '-i', 'rm', '-o', 'sgml', '-n', 'o%d' % k, '-f', '0'], cwd=d)
            t = open(d + '/o%d.sgml' % k).read(); sg += t; mods.append(load(t))
        r = ctx.run([prog, '-p', '-t', 'std4', '-u', '-n', '-'], cwd=d, stdin=sg, timeout=120)
        got = cells(r.stdout, names)
        order = list(mods[0])
        for i, j in itertools.combinations(range(nsys), 2):
            x, y = mods[i], mods[j]
            exp = dict(MN=mcn(x, y), SI=sign(x, y), WI=wilc(x, y, order), MP=mapsswe(x, y))
            data = dict(reference=tr(ref)[:6000], system1=tr(sysd[i])[:6000], system2=tr(sysd[j])[:6000], systems=nsys)
            ctx.case((rnd, i, j), nontrivial=x != y)
            for t, e in exp.items():
                if e is None: continue
                if (t, i, j) not in got: ctx.fail('the unified report has no %s result for systems %d and %d of %d' % (t, i, j, nsys), report=r.stdout[:6000], **data)
                win, p, st = got[(t, i, j)]
                tol = 0.0001 if t in ('MN', 'SI') and e['n'] <= 20 else 0.015 if t in ('MN', 'SI') else 0.0085
                if not close(p, e['p'], tol): ctx.fail('%s: probability %s for systems %d and %d, but the alignments give %.4f' % (t, p, i, j, e['p']), values=repr(e), **data)
                pv = 0.0005 if p == '<0.001' else float(p)
                if abs(pv - .05) > .0011 and (win != '~') != (pv < .05) and abs(e['p'] - .05) > .01: ctx.fail('%s: reports %s at probability %s' % (t, win, p), **data)
                if win != '~' and e['better'] is not None and win != names[(i, j)[e['better'] - 1]]: ctx.fail('%s: names %s as the better system, but %s is' % (t, win, names[(i, j)[e['better'] - 1]]), values=repr(e), **data)
                if abs(pv - .001) > 2e-4 and abs(pv - .01) > 6e-4 and abs(pv - .05) > 6e-4 and st != ('***' if pv < .001 else '**' if pv <= .01 else '*' if pv <= .05 else ''): ctx.fail('%s: level %r for probability %s' % (t, st, p), **data)
                ctx.count('results compared')
        if rnd < 2: ctx.sample(dict(systems=nsys, speakers=nspk, utterances=nutt, first=[' '.join(map(str, k)) + ' ' + ' '.join(v) for k, v in list(got.items())[:4]]))
        if nsys < 9 and nspk > 1:
            i, j = 0, 1
            exp = dict(MN=mcn(mods[0], mods[1]), SI=sign(mods[0], mods[1]), WI=wilc(mods[0], mods[1], order), MP=mapsswe(mods[0], mods[1]))
            sg2 = open(d + '/o0.sgml').read() + open(d + '/o1.sgml').read()
            verbose(ctx, prog, sg2, (0, 1), names, exp, dict(reference=tr(ref)[:6000], system1=tr(sysd[0])[:6000], system2=tr(sysd[1])[:6000]))
