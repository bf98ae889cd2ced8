import os, re
RULE = 'random sets of 2 to 6 recogniser outputs (time-ordered words with confidences, several recordings and channels, words of zero length, silences shorter than, equal to and longer than the 1 s cut, systems that are silent in a channel, end early, or hold one word, long channels) are combined by the real rover built with the address sanitizer; -m putat must give correspondence sets with one entry per system that contain every input word once, in order, with its times and confidence; every added system must be aligned at minimum cost; and for each voting method the output must be, set by set, the word whose documented score is highest, with the mean start, duration and confidence of its supporters; nontrivial = some set holds different words'
BOUND = 'up to 6 systems, 700 words per channel, alpha and NULL confidence in [0,1]'
UNITS = ['rover', 'word:wwd_WORD_rover,wwd_time_WORD,equal_WORD2', 'netdp', 'seg:overlap,locate_boundary,locate_WTOKE_boundary']
TIE = 8.0

def gen(rng, big=0):
    N = rng.choice([2, 2, 3, 3, 4, 6]) if not big else rng.choice([2, 3])
    groups = [('rec%d' % f, c) for f in range(rng.randint(1, 3)) for c in ['1', '2'][:rng.randint(1, 2)]]
    if big: groups = groups[:2]
    sys_ = [[] for _ in range(N)]
    vocab = ['a', 'b', 'c', 'd', 'e', 'f'][:rng.randint(2, 6)]
    cm = rng.choice(['rand', 'rand', 'none', 'zero', 'few'])
    cut = [len(groups)] * N
    for s in range(1, N):
        if rng.random() < .15: cut[s] = rng.randint(0, len(groups) - 1)
    for gi, (f, c) in enumerate(groups):
        n = rng.choice([1, 1, 2, 3, 5, 8]) if not big else big
        t = rng.randint(0, 8) / TIE; base = []
        for _ in range(n):
            t += rng.choice([0, 0, 0, 1, 2, 7, 8, 9, 16, 24]) / TIE
            d = rng.choice([0, 1, 2, 3, 4, 8]) / TIE
            base.append((t, d, rng.choice(vocab))); t += d
        for s in range(N):
            ws = []; off = rng.choice([0, 0, 1, -1, 2]) / TIE
            for (t1, d, w) in base:
                r = rng.random()
                if r < .15: continue
                if r < .35: w = rng.choice(vocab)
                ws.append([max(0.0, t1 + off), d, w])
                if r > .9: ws.append([ws[-1][0] + d, rng.choice([0, 1]) / TIE, rng.choice(vocab)])
            if not ws: ws.append([base[0][0], base[0][1], rng.choice(vocab)])
            ws.sort(key=lambda w: w[0])
            for w in ws:
                w.append({'rand': rng.randint(0, 8) / 8.0, 'none': None, 'zero': 0.0, 'few': rng.choice([0.25, 0.75])}[cm])
            if gi < cut[s]: sys_[s].append((f, c, ws))
    return N, groups, sys_

def lines(gs, noise, rng):
    out = []
    for f, c, ws in gs:
        for t, d, w, cf in ws:
            if noise and rng.random() < .05: out.append(rng.choice(['', ';; c']))
            out.append(('%s %s %.3f %.3f %s %s' % (f, c, t, d, w, '' if cf is None else '%g' % cf)).rstrip())
    return ''.join(l + '\n' for l in out)

def parse_putat(txt):
    sets = []; cur = None
    for l in txt.split('\n')[1:]:
        m = re.match(r'<putative_tag file=(\S+) chan=(\S+) >$', l)
        if m: cur = (m.group(1), m.group(2), []); sets.append(cur); continue
        m = re.match(r'   <attrib tag="(.*?)" t1="(.*?)" t2="(.*?)" conf="(.*?)" tag1="(.*)">$', l)
        if m and cur is not None: cur[2].append((m.group(1), float(m.group(2)), float(m.group(3)), float(m.group(4)), m.group(5)))
    return sets

INF = 9999999.9
def chunks(ws, gap):
    """ws: per system list of words of the channel; cut where all systems are silent and the first for more than gap"""
    pos = [0] * len(ws); out = []
    def gaps(l, p): # (index of last word before gap, begin, end)
        return [(i, l[i][0] + l[i][1], l[i + 1][0] if i + 1 < len(l) else INF) for i in range(p, len(l))]
    while any(p < len(l) for p, l in zip(pos, ws)):
        end = None
        for i, b, e in gaps(ws[0], pos[0]):
            if not e > b + gap: continue
            ends = [i + 1]
            for s in range(1, len(ws)):
                if pos[s] >= len(ws[s]): ends.append(pos[s]); continue
                for j, gb, ge in gaps(ws[s], pos[s]):
                    if min(e, ge) - max(b, gb) > 0:
                        b, e = max(b, gb), min(e, ge); ends.append(j + 1); break
                else: break
            if len(ends) == len(ws): end = ends; break
        if end is None: end = [len(l) for l in ws]
        out.append((list(pos), end)); pos = end
    return out

def wc(a, b, timed):
    """a, b: (word, t1, t2) or None"""
    if b is None: return .001 if a[0] == '@' else (a[2] - a[1] if timed else 3.0)
    if a is None: return .001 if b[0] == '@' else (b[2] - b[1] if timed else 3.0)
    if timed: return abs(a[1] - b[1]) + abs(a[2] - b[2]) + (0 if a[0] == b[0] else .001)
    if a[0] == b[0]: return 0.0
    return 1.0 if a[0] == '@' or b[0] == '@' else 4.0

def nullw(w): return w[0] == '@'

def step_cost(sets, k, timed):
    """cost the sets give to system k against systems < k"""
    c = 0.0
    for st in sets:
        prev, me = st[:k], st[k]
        pn, mn = all(map(nullw, prev)), nullw(me)
        if pn and mn: continue
        if pn: c += wc(None, me, timed)
        elif mn: c += min(wc(p, None, timed) for p in prev)
        else: c += min(wc(p, me, timed) for p in prev)
    return c

def best_cost(prev, mine, timed):
    n, m = len(prev), len(mine)
    D = [[0.0] * (m + 1) for _ in range(n + 1)]
    for i in range(n + 1):
        for j in range(m + 1):
            o = []
            if i: o.append(D[i - 1][j] + min(wc(p, None, timed) for p in prev[i - 1]))
            if j: o.append(D[i][j - 1] + wc(None, mine[j - 1], timed))
            if i and j: o.append(D[i - 1][j - 1] + min(wc(p, mine[j - 1], timed) for p in prev[i - 1]))
            D[i][j] = min(o) if o else 0.0
    return D[n][m]

def f6(x): return float('%.6f' % x)

def scores(st, method, a):
    """documented score of each different word of a set"""
    N = len(st); d = {}
    for w, t1, t2, cf, _ in st: d.setdefault(w, []).append((t1, t2, cf))
    tot = sum(c for v in d.values() for _, _, c in v)
    r = {}
    for w, v in d.items():
        f = len(v) / N
        if method == 'meth1': s = sum(c for _, _, c in v) / len(v)
        elif method == 'avgconf': s = sum(c for _, _, c in v) / tot if tot else 0.0
        elif method == 'maxconf': s = max([0.0] + [c for _, _, c in v])
        r[w] = a * f + (1 - a) * s
    return r, d

def one(ctx, prog, rng, big=0):
    N, groups, sys_ = gen(rng, big)
    d = ctx.dir(); names = []; args = []
    for s in range(N):
        nm = 's%d' % s; names.append(nm)
        with open(os.path.join(d, nm), 'w') as fo: fo.write(lines(sys_[s], rng.random() < .4, rng))
        args += ['-h', nm, 'ctm']
    alpha = rng.choice([0.0, 0.25, 0.5, 0.7, 1.0]); nc = rng.choice([0.0, 0.3, 0.5, 0.7, 1.0])
    timed = rng.random() < .25
    opt = ['-a', '%g' % alpha, '-c', '%g' % nc, '-f', '0'] + (['-T'] if timed else [])
    def run(m):
        ctx.run([prog] + args + opt + ['-o', 'out.' + m, '-m', m], cwd=d)
        return open(os.path.join(d, 'out.' + m)).read()
    files = ctx._files(d)
    kw = dict(cmd='rover ' + ' '.join(args + opt), files=files)
    sets = parse_putat(run('putat'))
    # 1. the sets are a multiple alignment of the inputs
    nontriv = False; it = 0
    for f, c in groups:
        mine = [[(x[3], f6(x[4]), x) for x in ()] for _ in range(N)]
        ws = [next((g[2] for g in sys_[s] if g[0] == f and g[1] == c), []) for s in range(N)]
        S = []
        while it < len(sets) and sets[it][0] == f and sets[it][1] == c:
            S.append(sets[it][2]); it += 1
        rows = []
        for st in S:
            if len(st) != N: ctx.fail('a correspondence set has %d entries for %d systems' % (len(st), N), set=st, **kw)
            row = [None] * N; nul = []
            for e in st:
                if e[0] == '@':
                    nul.append(e)
                    if abs(e[3] - nc) > 1e-6: ctx.fail('a NULL entry carries confidence %f, not the requested %g' % (e[3], nc), set=st, **kw)
                elif e[4] not in names or row[names.index(e[4])] is not None: ctx.fail('a correspondence set names a system twice or not at all', set=st, **kw)
                else: row[names.index(e[4])] = e
            if len(nul) == N: ctx.fail('a correspondence set without any word', set=st, **kw)
            for i in range(N):
                if row[i] is None: row[i] = nul.pop()
            rows.append(row); nontriv |= len({e[0] for e in st}) > 1
        for s in range(N):
            got = [(e[0], e[1], e[2], e[3]) for e in (r[s] for r in rows) if e[0] != '@']
            want = [(w, f6(t), f6(t + du), -1.0 if cf is None else cf) for t, du, w, cf in ws[s]]
            if len(got) != len(want) or any(g[0] != w[0] or abs(g[1] - w[1]) > 2e-5 * max(1, w[1]) or abs(g[2] - w[2]) > 2e-5 * max(1, w[2]) or abs(g[3] - w[3]) > 1e-6 for g, w in zip(got, want)):
                ctx.fail('recording %s channel %s: the words of system %s in the correspondence sets are not its input words' % (f, c, names[s]), got=got, expected=want, **kw)
        # 2. each system is added at minimum cost, silence by silence
        pos = 0; cnt = [0] * N
        for beg, end in chunks(ws, 1.0):
            sub = []
            while pos < len(rows) and any(not nullw(rows[pos][s]) and cnt[s] < end[s] for s in range(N)):
                for s in range(N):
                    if not nullw(rows[pos][s]): cnt[s] += 1
                sub.append([e[:3] for e in rows[pos]]); pos += 1
            if cnt != end: ctx.fail('recording %s channel %s: words are grouped across a silence common to all systems' % (f, c), at=end, got=cnt, **kw)
            for k in range(1, N):
                prev = [r[:k] for r in sub if not all(map(nullw, r[:k]))]
                me = [r[k] for r in sub if not nullw(r[k])]
                if len(prev) * len(me) > 40000: continue
                g, b = step_cost(sub, k, timed), best_cost(prev, me, timed)
                if g > b + 1e-3 * max(1, b): ctx.fail('recording %s channel %s: system %s is aligned at cost %g, %g is possible' % (f, c, names[k], g, b), sets=sub, **kw)
                ctx.count('alignment steps compared with the optimum')
        if pos != len(rows): ctx.fail('recording %s channel %s: more correspondence sets than words' % (f, c), **kw)
    if it != len(sets): ctx.fail('correspondence sets for a recording or channel out of order or unknown: %s %s' % sets[it][:2], **kw)
    # 3. the vote
    for m in rng.sample(['meth1', 'avgconf', 'maxconf'], 3 if not big else 1):
        out = [l for l in run(m).split('\n') if l]
        p = 0
        for f, c, st in sets:
            sc, sup = scores(st, m, alpha)
            top = max(sc.values())
            cand = [w for w in sc if sc[w] >= top - 1e-5]
            exp = []
            for w in cand:
                v = sup[w]
                exp.append((w, sum(x[0] for x in v) / len(v), sum(x[1] - x[0] for x in v) / len(v), sum(x[2] for x in v) / len(v)))
            okk = False
            if p < len(out):
                q = out[p].split()
                if len(q) == 6 and q[0] == f and q[1] == c:
                    for w, t, du, cf in exp:
                        if w != '@' and q[4] == w and abs(float(q[2]) - t) < 2e-3 and abs(float(q[3]) - du) < 2e-3 and abs(float(q[5]) - cf) < 1e-4: okk = True
            if okk: p += 1
            elif '@' in cand: pass
            else: ctx.fail('-m %s: the output does not carry on with the best scoring word of a correspondence set' % m, set=st, scores=sc, expected=exp, got=out[p:p + 2], method=m, **kw)
            ctx.count('votes checked')
        if p != len(out): ctx.fail('-m %s: output lines beyond the correspondence sets' % m, got=out[p:p + 3], method=m, **kw)
    if rng.random() < .3 and not big:
        out = [l for l in run('oracle').split('\n') if l]; p = 0
        for f, c, st in sets:
            sc, sup = scores(st, 'meth1', alpha); ws_ = list(sup); exp = []
            if len(ws_) > 1: exp.append('<ALT_BEGIN>')
            for i, w in enumerate(ws_):
                exp.append(w)
                if len(ws_) > 1: exp.append('<ALT>' if i + 1 < len(ws_) else '<ALT_END>')
            got = [l.split()[4] for l in out[p:p + len(exp)]]
            ok = len(got) == len(exp) and got[1::2] == exp[1::2] and sorted(got) == sorted(exp) and (len(ws_) == 1 or got[0] == exp[0])
            if not ok: ctx.fail('-m oracle: the alternatives are not the words of the correspondence set', set=st, got=got, expected=exp, **kw)
            p += len(exp)
        if p != len(out): ctx.fail('-m oracle: surplus output', got=out[p:p + 3], **kw)
    ctx.case((N, groups, sys_, opt), nontriv)
    ctx.sample({'systems': N, 'groups': len(groups), 'sets': len(sets), 'options': ' '.join(opt)})

def bounded(ctx):
    prog = ctx.build.sclite_prog('rover', san=True)
    for _ in range(ctx.scale(250, 2500)): one(ctx, prog, ctx.rng)
    for b in ctx.scale([150], [150, 400, 700]): one(ctx, prog, ctx.rng, b)
    # an input that goes on after the first one ends is reported, not scored or crashed on
    d = ctx.dir()
    open(d + '/a', 'w').write('f 1 0 1 x\n'); open(d + '/b', 'w').write('f 1 0 1 x\nf 2 0 1 y\ng 1 0 1 y\n')
    r = ctx.run([prog, '-h', 'a', 'ctm', '-h', 'b', 'ctm', '-o', 'o', '-m', 'meth1'], cwd=d, ok=None)
    if r.returncode != 1 or 'AddressSanitizer' in r.stderr: ctx.fail('rover does not report an input that goes on after the first one ends', rc=r.returncode, stderr=r.stderr[-2000:], files=ctx._files(d))
    ctx.case('mismatch')
