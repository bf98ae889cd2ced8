"""generator, driver and oracle shared by the asclite checks"""
import os, re, itertools

def seg_text(alts):
    out = []
    for a in alts:
        out.append(a[0][0] if len(a) == 1 and len(a[0]) == 1 else '{ ' + ' / '.join(' '.join(x) if x else '@' for x in a) + ' }')
    return ' '.join(out)

def gen(rng, kind):
    """kind: maxspk, maxseg, maxw, vocab, alt (probability), opt, frag, gaps -> (segments, words)
    segment = dict(file, chan, spk, t1, t2, alts); alts = list of lists of word tuples; times in ms"""
    segs, words = [], []
    V = kind['vocab']
    def word():
        w = rng.choice(V)
        if rng.random() < kind.get('opt', 0): w = '(' + w + ')'
        elif rng.random() < kind.get('frag', 0): w = rng.choice([w + '-', '-' + w])
        elif rng.random() < kind.get('upper', 0): w = w.upper()
        return w
    for f in range(rng.choice(kind.get('files', [1, 1, 2]))):
        for c in range(rng.choice(kind.get('chans', [1, 1, 2]))):
            nspk = rng.randint(1, kind['maxspk']); lo, hi = 10**9, 0; nw = 0
            for s in range(nspk):
                t = rng.randint(0, 30) * 100 if rng.random() < .7 else 0
                for _ in range(rng.randint(1, kind['maxseg'])):
                    d = rng.randint(3, 40) * 100
                    alts = []
                    for _ in range(rng.choice([0] * kind.get('empty', 0) + list(range(1, kind['maxw'] + 1)))):
                        if rng.random() < kind.get('alt', 0):
                            a = [tuple(word() for _ in range(rng.randint(1, 2))) for _ in range(rng.randint(1, 2))]
                            if rng.random() < .5 or len(a) == 1: a.append(())
                            alts.append(a)
                        else: alts.append([(word(),)])
                    if alts and all(() in a for a in alts): alts.append([(word(),)])
                    segs.append(dict(file='f%d' % f, chan=str(c + 1), spk='spk%d' % s, t1=t, t2=t + d, alts=alts)); nw += len(alts)
                    lo, hi = min(lo, t), max(hi, t + d)
                    t += d + rng.choice([0, 0, 100, 700, 2500])
            mine = [s for s in segs if s['file'] == 'f%d' % f and s['chan'] == str(c + 1)]
            n = max(0, nw + rng.randint(-3, 3)); ws = []
            for _ in range(n):
                s = rng.choice(mine)
                if rng.random() < kind.get('out', .15): t = rng.randint(max(0, lo - 1500), hi + 1500)
                else: t = rng.randint(s['t1'], s['t2'])
                pool = [w for a in s['alts'] for x in a for w in x] or V
                w = rng.choice(pool) if rng.random() < .75 else rng.choice(V)
                if rng.random() < .8: w = w.strip('()')
                ws.append((t // 10 * 10, rng.randint(1, 40) * 10, w))
            ws.sort(key=lambda w: w[0])
            t0 = -10; out = []
            for t, d, w in ws:                      # times increase and middles keep the order
                t = max(t, t0 + 10); t0 = t; out.append((t, d, w))
            out.sort(key=lambda w: (w[0], w[1]))
            fixed = []; m0 = -1
            for t, d, w in out:
                if t + d // 2 <= m0: d = 2 * (m0 - t) + 20
                m0 = t + d // 2; fixed.append((t, d, w))
            if not words and not fixed: fixed = [(max(0, lo), 200, rng.choice(V))]
            for t, d, w in fixed: words.append(dict(file='f%d' % f, chan=str(c + 1), t=t, d=d, w=w))
    return segs, words

def write(d, segs, words, uem=None, comments=False):
    with open(os.path.join(d, 'r.stm'), 'w') as f:
        if comments: f.write(';; comment\n')
        for s in segs: f.write('%s %s %s %.2f %.2f <o> %s\n' % (s['file'], s['chan'], s['spk'], s['t1'] / 1000., s['t2'] / 1000., seg_text(s['alts'])))
    with open(os.path.join(d, 'h.ctm'), 'w') as f:
        for w in words: f.write('%s %s %.2f %.2f %s\n' % (w['file'], w['chan'], w['t'] / 1000., w['d'] / 1000., w['w']))
    if uem:
        with open(os.path.join(d, 'x.uem'), 'w') as f:
            for u in uem: f.write('%s %s %.2f %.2f\n' % (u[0], u[1], u[2] / 1000., u[3] / 1000.))

def run(ctx, prog, d, opts=(), outs=('sgml',)):
    r = ctx.run([prog, '-r', 'r.stm', 'stm', '-h', 'h.ctm', 'ctm', 'sys'] + list(opts) + ['-o'] + list(outs) + ['stdout', '-f', '0'], cwd=d, timeout=120)
    return r.stdout

def parse(out):
    """list of (speaker, attributes, [(label, ref, hyp, begin ms)])"""
    res = []; spk = None
    lines = out.split('\n'); i = 0
    while i < len(lines):
        l = lines[i]
        m = re.match(r'<SPEAKER id="([^"]*)"', l)
        if m: spk = m.group(1)
        if l.startswith('<PATH '):
            at = dict(re.findall(r'(\w+)="([^"]*)"', l)); i += 1; body = ''
            while not lines[i].startswith('</PATH>'): body += lines[i]; i += 1
            toks = []
            for tok in (body.split(':') if body else []):
                m = re.match(r'^(\w),(?:"([^"]*)")?,(?:"([^"]*)")?(?:,(.*))?$', tok)
                if not m: raise ValueError('token ' + tok)
                t = None
                if m.group(3) is not None: t = m.group(4)
                toks.append((m.group(1), m.group(2) or None, m.group(3) or None, t))
            res.append((spk, at, toks))
        i += 1
    return res

def clean(w, o, side):
    """(text, optional, fragment kind) of a written word of that side (ref/hyp) under the options"""
    opt = False; fr = 0
    if o.get('D') in (side, 'both') and w.startswith('(') and w.endswith(')'): opt = True; w = w[1:-1]
    if o.get('F'):
        if w.startswith('-'): fr = 2; w = w[1:]
        if w.endswith('-'): fr = 1; w = w[:-1]
    if not o.get('s'): w = w.lower()
    return w, opt, fr

def match(a, b, o):
    x, _, fx = clean(a, o, 'ref'); y, _, fy = clean(b, o, 'hyp')
    if not fx and not fy: return x == y
    if not fx: return x.startswith(y) if fy == 1 else x.endswith(y)
    if not fy: return y.startswith(x) if fx == 1 else y.endswith(x)
    if fx != fy: return False
    if fx == 1: return x.startswith(y) or y.startswith(x)
    return x.endswith(y) or y.endswith(x)

def expansions(alts):
    return [sum(c, ()) for c in itertools.product(*[[tuple(x) for x in a] for a in alts])]

def ins_cost(w, o, side):
    return 2 if clean(w, o, side)[1] else 3

def min_cost(refs, hyp, o):
    """refs: per speaker the list of segments' alts in order; minimum over all choices of alternatives"""
    # graph per speaker: positions; edges (from, to, word)
    G = []
    for alts in refs:
        n = 1; E = {}; cur = [0]
        # node numbering: every alternative is a chain; nulls are epsilon handled by position sets
        nodes = [[] for _ in range(1)]
        edges = [[]]           # outgoing (word, target)
        eps = [[]]
        def new():
            edges.append([]); eps.append([]); return len(edges) - 1
        p = 0
        for a in alts:
            q = new()
            for x in a:
                if not x: eps[p].append(q); continue
                s = p
                for k, w in enumerate(x):
                    t = q if k == len(x) - 1 else new()
                    edges[s].append((w, t)); s = t
            p = q
        # closure
        def close(s):
            seen = {s}; st = [s]
            while st:
                for t in eps[st.pop()]:
                    if t not in seen: seen.add(t); st.append(t)
            return seen
        out = [[(w, t) for u in close(s) for w, t in edges[u]] for s in range(len(edges))]
        fin = [p in close(s) for s in range(len(edges))]
        G.append((out, fin))
    start = tuple([0] * (len(G) + 1)); dist = {start: 0}
    import heapq
    heap = [(0, start)]
    while heap:
        c, st = heapq.heappop(heap)
        if c > dist[st]: continue
        h = st[0]
        if h == len(hyp) and all(G[i][1][st[i + 1]] for i in range(len(G))): return c
        def push(nst, nc):
            if nc < dist.get(nst, 10**9): dist[nst] = nc; heapq.heappush(heap, (nc, nst))
        if h < len(hyp): push((h + 1,) + st[1:], c + ins_cost(hyp[h], o, 'hyp'))
        for i in range(len(G)):
            for w, t in G[i][0][st[i + 1]]:
                n = st[1:i + 1] + (t,) + st[i + 2:]
                push((h,) + n, c + ins_cost(w, o, 'ref'))
                if h < len(hyp): push((h + 1,) + n, c + (0 if match(w, hyp[h], o) else 4))
    return None

def groups(segs):
    """segment groups: (file, chan, t1, t2, segments) from the transitive time overlap of the segments of a channel"""
    out = []
    for key in sorted({(s['file'], s['chan']) for s in segs}):
        ss = sorted([s for s in segs if (s['file'], s['chan']) == key], key=lambda s: (s['t1'], s['t2']))
        cur = None
        for s in ss:
            if cur and s['t1'] < cur[3]: cur[4].append(s); cur[3] = max(cur[3], s['t2'])
            else: cur = [key[0], key[1], s['t1'], s['t2'], [s]]; out.append(cur)
    return out
